// C16: what may change values and domains when: tuning mode on, off or prohibited; handles of rogue and owned elements, commands, imports.
#include "model.hpp"
using namespace fw;
static const int LF[] = {P, GB, Q, LO}; // owned: P, LO; rogue: GB, Q
static bool owned(const Run &r, int l) { unsigned o = 0; for (auto &d : r.m.doms) o |= d.leaves(); return o >> l & 1; }
static void put32(Run &r, int l, unsigned v) { r.m.main[l] = itoa64(l == Q ? (int64_t)(int32_t)v : (int64_t)v); }
extern "C" void harness_main()
{
    unsigned steps = param("steps", 2), first = param("first", 99);
    bool forbid = param("forbid", 0);
    Run r;
    if (forbid) r.c.tuning = "false";
    MDom &a = r.add("Da", {EP, EBITS});
    r.addConf(a, "one", 0, 1, 10);
    r.addConf(a, "two", -1, 0, 20);
    r.start();
    if (!forbid && param("on", 0)) r.tuning(true);
    for (unsigned i = 0; i < steps; i++) {
        S s(1, (char)('a' + i));
        unsigned op = i == 0 && first != 99 ? first : choice(("op" + s).c_str(), 10);
        S v = digit(("val" + s).c_str());
        int l = op < 5 ? LF[choice(("leaf" + s).c_str(), op == 2 ? 3 : 4)] : P;
        switch (op) {
        case 0: { // typed set through a handle
            Handle h(*r.pf, LEAF[l]);
            unsigned x = (unsigned)(v[0] - '0');
            bool ok = h->setAsInteger(x, r.e);
            CHECK(ok == !owned(r, l), "a handle sets a parameter exactly when no domain owns it");
            if (ok && !r.m.on) put32(r, l, x); // silently skipped while tuning
            if (!ok) CHECK(!r.e.empty(), "a refusal is explained");
            if (ok) REACH("rogue-set");
            break;
        }
        case 1: { // settings as XML through a handle
            Handle h(*r.pf, LEAF[l]);
            bool ok = h->setAsXML(leafXml(l, v), r.e);
            CHECK(ok == !owned(r, l), "a handle sets settings exactly when no domain owns the element");
            if (ok) r.m.main[l] = v;
            break;
        }
        case 2: { // settings as bytes
            Handle h(*r.pf, LEAF[l]);
            std::vector<uint8_t> b(h->getSize(), 0);
            b[0] = (uint8_t)(v[0] - '0');
            bool ok = h->setAsBytes(b, r.e);
            CHECK(ok == !owned(r, l), "a handle sets bytes exactly when no domain owns the element");
            if (ok) r.m.main[l] = v;
            break;
        }
        case 3: r.set(l, v); break; // by path, as a tuning tool
        case 4: { // commands of a tuning tool
            unsigned k = choice(("cmd" + s).c_str(), 3);
            S o;
            bool ok = k == 0 ? r.cmd->process("setParameter", {LEAF[l], v}, o) : k == 1 ? r.cmd->process("setElementXML", {LEAF[l], leafXml(l, v)}, o)
                                                                                        : r.cmd->process("setElementBytes", l == P ? V{LEAF[l], v} : l == Q ? V{LEAF[l], v, "0", "0", "0"} : V{LEAF[l], v, "0"}, o);
            bool want = r.m.on;
            if (k == 2 && l == LO) { // the bit field of a block shares the block's bytes
                if (!ok) break;
                CHECK(want, "settings are set by command exactly in tuning mode");
                r.m.main[LO] = r.pf->get(LEAF[LO]);
                r.m.main[HI] = r.pf->get(LEAF[HI]);
                break;
            }
            CHECK(ok == want, "settings are set by command exactly in tuning mode");
            if (want) r.m.main[l] = v, REACH("command-set");
            else CHECK(!o.empty(), "a refusal is explained");
            break;
        }
        case 5: { // commands that edit domains
            static const struct { const char *c; V a; } E[] = {{"createDomain", {"Dn"}}, {"deleteDomain", {"Da"}}, {"deleteAllDomains", {}}, {"setSequenceAwareness", {"Da", "true"}},
                                                               {"addElement", {"Da", "/test/test/q"}}, {"removeElement", {"Da", "/test/test/p"}}, {"splitDomain", {"Da", "/test/test/bits"}},
                                                               {"createConfiguration", {"Da", "n"}}, {"deleteConfiguration", {"Da", "two"}}, {"saveConfiguration", {"Da", "two"}},
                                                               {"restoreConfiguration", {"Da", "two"}}, {"setElementSequence", {"Da", "two", "/test/test/bits"}},
                                                               {"setDomainsWithSettingsXML", {domainsText("")}}, {"importDomainsXML", {path("domains.xml")}},
                                                               {"importDomainsWithSettingsXML", {path("domains.xml")}}, {"importDomainWithSettingsXML", {path("domains.xml")}}, {"sync", {}}};
            const auto &c = E[choice(("cmd" + s).c_str(), 17)];
            if (r.m.on) break; // covered by the other histories
            S o;
            CHECK(!r.cmd->process(c.c, c.a, o), "domains are edited by command only in tuning mode");
            CHECK(!o.empty(), "a refusal is explained");
            REACH("edit-refused");
            break;
        }
        case 6: // criteria and application
            r.setState(0, (int)sym(("state" + s).c_str(), 32));
            r.apply();
            REACH("applied");
            break;
        case 7: // tuning mode itself, by API or command, also to the mode it is already in
            if (forbid) {
                CHECK(!r.pf->setTuningMode(true, r.e) && !r.pf->isTuningModeOn(), "tuning mode stays off where it is not allowed");
                S o;
                CHECK(!r.cmd->process("setTuningMode", {"on"}, o), "tuning mode cannot be switched on by command where it is not allowed");
            } else r.tuning(maybe(("on" + s).c_str()));
            break;
        case 9: // what can be edited at any time: names, rules and the values of a configuration, the live ones too if it is the applied one
            switch (choice(("edit" + s).c_str(), 4)) {
            case 0: r.confSet("Da", maybe(("conf" + s).c_str()) ? "two" : "one", maybe(("in" + s).c_str()) ? P : Q, v); break;
            case 1: r.renameConf("Da", maybe(("conf" + s).c_str()) ? "two" : "one", "new"); break;
            case 2: r.renameDom("Da", "Dz"); break;
            default: r.setRule("Da", maybe(("conf" + s).c_str()) ? "two" : "one", -1, 2); break;
            }
            REACH("edited");
            break;
        case 8: { // settings of a whole block, partly or wholly owned
            int e = choice(("elem" + s).c_str(), 3);
            e = e == 0 ? EG : e == 1 ? EBITS : ESUB;
            Handle h(*r.pf, ELEM[e].path);
            S w[LEAVES];
            for (int k = 0; k < LEAVES; k++) w[k] = v;
            bool ok = h->setAsXML(elemXml(e, w), r.e);
            CHECK(ok == (e == EG), "a handle sets the settings of an element exactly when no domain owns any of it");
            if (ok) r.m.main[GA] = r.m.main[GB] = v;
            break;
        }
        }
        r.values();
    }
    r.configs();
    r.lists();
    r.rogue();
}
