// C20: a subsystem plug-in receives exactly the settings that changed, when it should, in the right order; failures are reported.
#include "model.hpp"
#include <cstring>
#include <Plugin.h>
#include <Subsystem.h>
#include <SubsystemObject.h>
#include <SubsystemObjectFactory.h>
#include <LoggingElementBuilderTemplate.h>
using namespace fw;
enum { OP, OG, OB, OQ, OBJS };
static const unsigned OSIZE[OBJS] = {1, 3, 2, 4};
struct Sent { int o; S bytes; };
static std::vector<Sent> *gLog;
static unsigned gFail, gRecv; // objects whose transfer fails; received objects
static bool gDead, gResync;
static uint8_t gHw[OBJS][4];
struct FakeObject : CSubsystemObject
{
    int o;
    FakeObject(const S &map, CInstanceConfigurableElement *e, const CMappingContext &, core::log::Logger &l) : CSubsystemObject(e, l), o(map[0] - '0') {}
    bool sendToHW(S &err) override
    {
        S b(getSize(), '\0');
        blackboardRead(&b[0], b.size());
        gLog->push_back(Sent{o, b});
        if (gFail >> o & 1) { err = S("rejected ") + (char)('0' + o); return false; }
        memcpy(gHw[o], b.data(), b.size());
        return true;
    }
    bool receiveFromHW(S &err) override
    {
        gRecv |= 1u << o;
        if (gFail >> o & 1) { err = "unreadable"; return false; }
        blackboardWrite(gHw[o], getSize());
        return true;
    }
};
struct FakeSubsystem : CSubsystem
{
    FakeSubsystem(const S &n, core::log::Logger &l) : CSubsystem(n, l) { addSubsystemObjectFactory(new TSubsystemObjectFactory<FakeObject>("Obj", 0)); }
    bool isAlive() const override { return !gDead; }
    bool needResync(bool clear) override { bool r = gResync; if (clear) gResync = false; return r; }
};
extern "C" void harness_plugin_entry(CSubsystemLibrary *l, core::log::Logger &g) { l->addElementBuilder("Fake", new TLoggingElementBuilderTemplate<FakeSubsystem>(g)); }
static int num(const S &s)
{
    bool neg = !s.empty() && s[0] == '-';
    int v = 0;
    for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0');
    return neg ? -v : v;
}
static int objOf(int l) { return l == P ? OP : l == GA || l == GB ? OG : l == Q ? OQ : OB; }
static S bytesOf(int o, const S *m)
{
    unsigned v = o == OP ? num(m[P]) : o == OB ? (unsigned)num(m[LO]) | (unsigned)num(m[HI]) << 5 : o == OQ ? (unsigned)num(m[Q]) : (unsigned)(uint8_t)num(m[GA]) | (unsigned)num(m[GB]) << 8;
    S b;
    for (unsigned i = 0; i < OSIZE[o]; i++) b += (char)(v >> 8 * i);
    return b;
}
static unsigned objs(unsigned leaves) { unsigned m = 0; for (int l = 0; l < LEAVES; l++) if (leaves >> l & 1) m |= 1u << objOf(l); return m; }
struct Group { unsigned objs; S b[OBJS]; };
struct Sync : Run
{
    std::vector<Group> want;
    bool autosync = true;
    void group(unsigned o)
    {
        Group g;
        g.objs = o;
        for (int i = 0; i < OBJS; i++) if (o >> i & 1) g.b[i] = bytesOf(i, m.main);
        if (o) want.push_back(g);
    }
    void restoreSteps(MDom &d, const MConf &c, bool sync) // element by element
    {
        for (int e : c.order) {
            for (int l = 0; l < LEAVES; l++) if (ELEM[e].leaves >> l & 1) m.main[l] = c.val[l];
            if (sync) group(objs(ELEM[e].leaves));
        }
    }
    void applyAll(bool force)
    {
        unsigned first = gResync ? 15 : 0;
        for (int pass = 0; pass < 2; pass++) {
            for (auto &d : m.doms) {
                if (d.seq != (pass == 1)) continue;
                if (force) d.last.clear();
                for (auto &c : d.confs)
                    if (m.satisfied(c)) {
                        if (d.last != c.name) {
                            restoreSteps(d, c, pass == 1);
                            if (!pass) first |= objs(d.leaves());
                        }
                        d.last = c.name;
                        break;
                    }
            }
            if (!pass) group(first);
        }
    }
    // the transfers since the last call are exactly the expected ones, in order; returns whether one of them failed
    bool match(const char *what)
    {
        size_t i = 0;
        bool failed = false;
        for (auto &g : want) {
            if (gDead) { failed = true; continue; }
            unsigned seen = 0;
            while (seen != g.objs) {
                if (i == gLog->size()) { pfs_note_str(what); pfs_fail("every changed setting reaches the hardware"); }
                const Sent &s = (*gLog)[i++];
                if (!(g.objs >> s.o & 1) || (seen >> s.o & 1)) { pfs_note_str(what); pfs_fail("hardware receives the changed settings once, in order"); }
                CHECK(sameBytes(s.bytes, g.b[s.o]), "the hardware receives the current settings");
                seen |= 1u << s.o;
            }
            if (g.objs & gFail) failed = true;
        }
        if (i != gLog->size()) { pfs_note_str(what); pfs_fail("nothing else is sent to the hardware"); }
        gLog->clear();
        want.clear();
        return failed;
    }
};
extern "C" void harness_main()
{
    std::vector<Sent> log;
    gLog = &log;
    unsigned layout = param("layout", 0), steps = param("steps", 2), faults = param("faults", 1);
    Sync r;
    r.c.type = "Fake";
    r.c.plugins = pluginLocation();
    MDom &a = r.add("Da", {EP, EG}, layout == 1);
    r.addConf(a, "one", 0, 1, 10);
    r.addConf(a, "two", layout == 3 ? -3 : -1, 0, 20);
    if (layout == 1) a.confs[0].order = {EG, EP};
    MDom &b = layout == 0 ? r.add("Db", {EGB, EHI}) : layout == 1 ? r.add("Db", {ELO, EP, EHI}, true) : r.add("Db", {EBITS, EP});
    r.addConf(b, "one", 1, 2, 1);
    r.addConf(b, "two", -3, 0, 5);
    if (layout == 1) b.confs[0].order = {EHI, EP, ELO};
    // start: what no applicable configuration covers is read back
    for (int o = 0; o < OBJS; o++) for (int i = 0; i < 4; i++) gHw[o][i] = 0;
    uint8_t q = (uint8_t)sym("hwq", 8);
    ASSUME(q < 10);
    gHw[OQ][0] = q;
    gHw[OB][0] = 9;
    gHw[OP][0] = 7;
    gHw[OG][0] = 3;
    gHw[OG][1] = 4;
    bool vary = param("vary", 0);
    unsigned back = vary ? sym("backfail", 1) : 0;
    gFail = back ? 15 : 0;
    r.c.instances = INSTANCES;
    S inst = INSTANCES;
    for (int o = 0; o < OBJS; o++) inst.replace(inst.find("Mapping='M'"), 11, S("Mapping='Obj:") + (char)('0' + o) + "'");
    r.c.instances = inst;
    r.c.domains = r.m.xml();
    r.pf.reset(new PF(r.c));
    for (int i = 0; i < 2; i++) r.k[i] = r.pf->createSelectionCriterion(i ? "Kt" : "Ks", critType(*r.pf, false, {{1, "v1"}, {2, "v2"}, {-3, "v3"}}));
    for (int i = 0; i < 2; i++) r.setState(i, i || !vary ? 0 : (int)choice("start", 2)); // set before the start
    unsigned covered = 0; // by configurations that will be applied
    for (auto &d : r.m.doms) for (auto &c : d.confs) if (r.m.satisfied(c)) { covered |= d.leaves(); break; }
    const S HW[LEAVES] = {"7", "3", "4", "9", "0", S(1, (char)('0' + q))}, DEF[LEAVES] = {"0", "-128", "0", "0", "0", "-2147483648"};
    for (int l = 0; l < LEAVES; l++) r.m.main[l] = back ? DEF[l] : HW[l]; // those not read back are overwritten
    if (!r.pf->up()) { pfs_note_str(r.pf->err.c_str()); pfs_fail("the valid configuration is accepted"); }
    r.cmd.reset(r.pf->createCommandHandler());
    CHECK(gRecv == objs(63 & ~covered), "exactly what no configuration will set is read back");
    r.applyAll(true);
    r.match("start");
    r.values();
    gFail = 0;
    REACH("started");
    if (param("on", 0)) {
        CHECK(r.pf->setTuningMode(true, r.e), "tuning mode can be switched on");
        r.m.on = true;
        if (param("noauto", 0)) r.autosync = !r.pf->setAutoSync(false, r.e);
    }
    for (unsigned i = 0; i < steps; i++) {
        S s(1, (char)('a' + i));
        int f = i == 0 ? (int)param("first", -1) : -1;
        unsigned op = f >= 0 ? (unsigned)f : choice(("op" + s).c_str(), 10);
        S v = digit(("val" + s).c_str());
        gFail = faults ? (unsigned)sym(("fail" + s).c_str(), 4) : 0;
        gDead = faults > 1 && sym(("dead" + s).c_str(), 1);
        static const int LF[] = {P, GB, LO, Q};
        bool ok = true, refused = false;
        S e;
        switch (op) {
        case 0: // criteria
            r.setState(0, (int)sym(("s" + s).c_str(), 32));
            if (maybe(("both" + s).c_str())) r.setState(1, 2);
            r.pf->applyConfigurations();
            if (!r.m.on) r.applyAll(false), REACH("applied");
            break;
        case 1: // a value by path
            { int l = LF[choice(("leaf" + s).c_str(), 4)];
            S t = v;
            ok = r.pf->accessParameterValue(LEAF[l], t, true, e);
            refused = !r.m.on;
            if (!refused) { r.m.main[l] = v; if (r.autosync) r.group(1u << objOf(l)); REACH("set"); } }
            break;
        case 2: { // a value through the handle of a rogue parameter
            Handle h(*r.pf, LEAF[Q]);
            ok = h->setAsSignedInteger(v[0] - '0', e);
            if (!r.m.on) { r.m.main[Q] = v; r.group(1u << OQ); }
            break;
        }
        case 3: { // restore
            unsigned k = choice(("conf" + s).c_str(), 4);
            MDom &d = r.m.doms[k & 1];
            MConf &c = d.confs[k >> 1];
            CParameterMgrFullConnector::Results errs;
            ok = r.pf->restoreConfiguration(d.name, c.name, errs);
            for (auto &x : errs) e += x;
            refused = !r.m.on;
            if (!refused) {
                r.restoreSteps(d, c, d.seq && r.autosync);
                if (!d.seq && r.autosync) r.group(objs(d.leaves()));
                d.last = c.name;
                REACH("restored");
            }
            break;
        }
        case 4: { // automatic synchronisation
            bool on = maybe(("auto" + s).c_str());
            ok = r.pf->setAutoSync(on, e);
            if (on && !r.autosync) { r.group(15); if (!(gDead || gFail)) r.autosync = true; }
            else r.autosync = on;
            CHECK(r.pf->isAutoSyncOn() == r.autosync, "automatic synchronisation is what was set");
            break;
        }
        case 5: // on demand
            ok = r.pf->sync(e);
            refused = r.autosync;
            if (!refused) r.group(15), REACH("synced");
            break;
        case 6: { // a value in a configuration, the applied one included
            MDom &d = r.m.doms[0];
            MConf &c = d.confs[choice(("conf" + s).c_str(), 2)];
            int l = maybe(("leaf" + s).c_str()) ? GB : P;
            S t = v;
            ok = r.pf->accessConfigurationValue("Da", c.name, LEAF[l], t, true, e);
            refused = !(d.leaves() >> l & 1);
            if (!refused) c.val[l] = v;
            if (!refused && d.last == c.name) { r.m.main[l] = v; if (r.autosync) r.group(1u << objOf(l)); }
            break;
        }
        case 7: { // tuning mode
            bool on = !r.m.on;
            ok = r.pf->setTuningMode(on, e);
            if (!on) r.applyAll(true);
            r.m.on = on;
            bool failed = r.match("tuning");
            (void)failed;
            break;
        }
        case 8: // the subsystem restarted: everything is sent again at the next application
            gResync = true;
            gDead = false;
            if (!r.m.on) { r.applyAll(false); REACH("resynchronised"); }
            r.pf->applyConfigurations();
            if (r.m.on) gResync = false;
            break;
        case 9: // the elements of a domain change: so does what it sends
            switch (choice(("edit" + s).c_str(), 5)) {
            case 0: r.addElem("Da", EBITS); break;
            case 1: r.removeElem("Da", EP); break;
            case 2: r.split("Da", EG); break;
            case 3: r.removeElem("Db", ELO); break;
            case 4: r.removeElem("Da", EP), r.removeElem("Da", EG); break; // nothing is left
            }
            break;
        }
        bool failed = r.match("step");
        if (op != 0 && op != 7 && op < 8) {
            if (refused) CHECK(!ok, "a request that is not available is refused");
            else CHECK(ok == !failed, "an operation succeeds exactly when the hardware took every setting");
            if (!ok) CHECK(!e.empty(), "a refusal or failure is explained");
            if (failed) REACH("failed");
        }
        r.values();
        r.lastApplied();
        gFail = 0;
        gDead = false;
    }
    r.configs();
}
