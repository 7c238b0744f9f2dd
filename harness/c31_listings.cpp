// C31: what the listing and query commands say is what is
#include "ops.hpp"
#include <algorithm>
using namespace fw;
static V lines(const S &t)
{
    V v;
    S l;
    for (char c : t + "\n") {
        if (c != '\n') { l += c; continue; }
        if (!l.empty()) v.push_back(l);
        l.clear();
    }
    return v;
}
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
static bool above(int a, int b) { return a == b || Run::covers(a, b); } // a is b or one of its ancestors
// the words of a list that may come in any order
static V words(const S &t)
{
    V v;
    S w;
    for (char c : t + ",") {
        if (c == ' ') continue;
        if (c != ',') { w += c; continue; }
        v.push_back(w);
        w.clear();
    }
    return sorted(v);
}
static void ownership(Run &r)
{
    auto own = [&](int e) { V v; for (auto &d : r.m.doms) if (d.has(e)) v.push_back(d.name); return sorted(v); };
    auto belong = [&](int e) { V v; for (auto &d : r.m.doms) for (int x : d.elems) if (above(x, e)) v.push_back(d.name); return sorted(v); };
    auto touched = [&](int e) { for (auto &d : r.m.doms) for (int x : d.elems) if (above(e, x) || above(x, e)) return true; return false; };
    std::vector<std::pair<S, V>> owned, conflicts;
    V rogue;
    for (int e = 0; e < ELEMS; e++) {
        CHECK(sorted(lines(r.ask("listAssociatedDomains", {ELEM[e].path}))) == own(e), "the domains an element was added to are listed");
        CHECK(sorted(lines(r.ask("listBelongingDomains", {ELEM[e].path}))) == belong(e), "the domains an element belongs to are listed");
        Handle h(*r.pf, ELEM[e].path);
        CHECK(h->isRogue() == !touched(e), "an element is rogue exactly when no domain holds any of it");
        if (!own(e).empty()) owned.push_back({ELEM[e].path, own(e)});
        if (!own(e).empty() && belong(e).size() > 1) conflicts.push_back({ELEM[e].path, belong(e)});
        bool top = true; // no larger rogue subtree
        for (int a = 0; a < ELEMS; a++) if (a != e && above(a, e) && !touched(a)) top = false;
        if (!touched(e) && top) rogue.push_back(ELEM[e].path);
    }
    if (rogue == V{"/test/test"}) rogue = {"/test"};
    CHECK(sorted(lines(r.ask("listRogueElements"))) == sorted(rogue), "the largest elements no domain holds are listed");
    auto listed = [&](const char *what, const std::vector<std::pair<S, V>> &want, const S &open, const S &close, const char *why) {
        V got = lines(r.ask(what));
        bool ok = got.size() == want.size();
        for (auto &w : want) {
            int found = 0;
            for (auto &g : got)
                if (g.compare(0, w.first.size() + open.size(), w.first + open) == 0 && g.size() >= w.first.size() + open.size() + close.size()) {
                    S rest = g.substr(w.first.size() + open.size());
                    rest = rest.substr(0, rest.size() - close.size());
                    found += words(rest) == w.second;
                }
            ok = ok && found == 1;
        }
        CHECK(ok, why);
    };
    listed("listAssociatedElements", owned, " [", "]", "the elements of domains are listed with their domains");
    listed("listConflictingElements", conflicts, " contained in multiple domains: ", "", "the elements in more than one domain are listed with them");
}
static S stripped(const S &l) { size_t i = l.find_first_not_of(' '); return i == S::npos ? S() : l.substr(i); }
static void dump(Run &r)
{
    V want, got;
    for (auto &d : r.m.doms) {
        CHECK(r.ask("getSequenceAwareness", {d.name}) == (d.seq ? "true" : "false"), "sequence awareness is told");
        want.push_back("- ConfigurableDomain: " + d.name + " = {Sequence aware: " + (d.seq ? "yes" : "no") + ", Last applied configuration: " + (d.last.empty() ? "<none>" : d.last) + "}");
        for (auto &c : d.confs) {
            MConf t = c;
            if (t.value == -3) t.value = 3;
            CHECK(r.ask("getRule", {d.name, c.name}) == ruleText(t), "the rule is told");
            want.push_back("- Configuration: " + c.name);
            if (c.crit != -2) want.push_back(S("- CompoundRule = ") + (c.crit == -3 ? "Any" : "All"));
            if (c.crit >= 0) want.push_back(S("- SelectionCriterionRule = ") + (c.crit ? "Kt" : "Ks") + " Is v" + (char)('0' + t.value));
        }
    }
    for (auto &l : lines(r.ask("dumpDomains"))) got.push_back(stripped(l));
    if (!got.empty()) got.erase(got.begin());
    CHECK(got == want, "the dump shows every domain, configuration and rule");
}
static S after(const S &t, const S &title) // the lines of a section
{
    V v = lines(t);
    S o;
    bool in = false;
    for (size_t i = 0; i < v.size(); i++) {
        if (i + 1 < v.size() && v[i + 1].find_first_not_of('=') == S::npos) { in = v[i] == title; i++; continue; }
        if (in) o += v[i] + "\n";
    }
    return o;
}
static void state(Run &r)
{
    bool raw = maybe("raw"), hex = maybe("hex"), autosync = maybe("autosync");
    r.pf->setValueSpace(raw);
    r.pf->setOutputRawFormat(hex);
    CHECK(r.pf->setAutoSync(autosync, r.e), "automatic synchronisation can be set in tuning mode");
    if (maybe("off")) r.tuning(false);
    r.setState(0, (int)sym("state", 32));
    S s = r.ask("status");
    auto yes = [](bool b, const char *y, const char *n) { return S(b ? y : n) + "\n"; };
    CHECK(after(s, "General:") == S("System Class: test\nTuning Mode: ") + yes(r.m.on, "on", "off") + "Value Space: " + yes(raw, "raw", "real") + "Output Raw Format: " + yes(hex, "hex", "dec") +
                                       "Auto Sync: " + yes(autosync, "on", "off"), "the status shows the settings of the tuning interface");
    CHECK(after(s, "Subsystems:") == "/test/test\n", "the status shows the subsystems");
    CHECK(r.ask("getTuningMode") == (r.m.on ? "on" : "off") && r.ask("getValueSpace") == (raw ? "raw" : "real") && r.ask("getOutputRawFormat") == (hex ? "hex" : "dec") && r.ask("getAutoSync") == (autosync ? "on" : "off"), "the settings of the tuning interface are told");
    int x = r.m.state[0];
    S now[2] = {x == 1 ? "v1" : x == 2 ? "v2" : x == -3 ? "v3" : "<none>", "<none>"};
    CHECK(after(s, "Selection Criteria:") == "Ks = " + now[0] + "\nKt = " + now[1] + "\n", "the status shows the criteria with their state");
    S human, csv, xml = r.ask("listCriteria", {"XML"});
    for (int i = 0; i < 2; i++) {
        S n = i ? "Kt" : "Ks";
        human += n + ":\n===\nPossible states (Exclusive): {v1, v2, v3}\nCurrent state = " + now[i] + "\n";
        csv += "Criterion name: " + n + ", type kind: exclusive, current state: " + now[i] + ", states: {v1, v2, v3}\n";
        size_t at = xml.find("Name=\"" + n + "\""), open = xml.rfind("<SelectionCriterion ", at), close = xml.find(">", at);
        bool ok = at != S::npos && open != S::npos && close != S::npos;
        S tag = ok ? xml.substr(open, close - open) : S();
        CHECK(ok && tag.find("Value=\"" + (now[i] == "<none>" ? S("&lt;none&gt;") : now[i]) + "\"") != S::npos && tag.find("Kind=\"Exclusive\"") != S::npos, "the criteria are told in XML");
    }
    S h;
    for (auto &l : lines(r.ask("listCriteria"))) h += l + "\n";
    CHECK(h == human, "the criteria are told");
    S c;
    for (auto &l : lines(r.ask("listCriteria", {maybe("lower") ? "csv" : "CSV"}))) c += l + "\n";
    CHECK(c == csv, "the criteria are told as a table");
}
static void contents(Run &r)
{
    std::vector<uint8_t> by = {1, 2, 255, 0, 5, 6, 7, 0x9c, 9, 10}, got;
    unsigned where = (unsigned)param("where", 0);
    pfs_sym_bytes(by.data() + where, 2, "bytes");
    auto hex = [](const std::vector<uint8_t> &b) {
        S o;
        for (uint8_t x : b) {
            uint8_t n[2] = {(uint8_t)(x >> 4), (uint8_t)(x & 15)};
            o += o.empty() ? "0x" : " 0x";
            for (uint8_t d : n) o += (char)(d + '0' + (d > 9) * ('a' - '0' - 10));
        }
        return o;
    };
    V args{"/test/test"};
    for (uint8_t x : by) args.push_back(hex({x}));
    r.ask("setElementBytes", args);
    Handle all(*r.pf, "/test/test");
    CHECK(all->getAsBytes(got, r.e) && got.size() == by.size(), "an element can be read");
    for (size_t i = 0; i < by.size(); i++) CHECK(got[i] == by[i], "the bytes given are those of the element");
    for (int e = 0; e < ELEMS; e++) {
        Handle h(*r.pf, ELEM[e].path);
        CHECK(h->getAsBytes(got, r.e), "an element can be read");
        S x = r.ask("getElementBytes", {ELEM[e].path}), w = hex(got);
        while (!x.empty() && x.back() == ' ') x.pop_back();
        CHECK(sameBytes(x, w), "the bytes of an element are told");
    }
    if (maybe("raw")) {
        r.pf->setValueSpace(true);
        r.pf->setOutputRawFormat(maybe("hex"));
    }
    S flat;
    for (int l = 0; l < LEAVES; l++) {
        S v = r.pf->get(LEAF[l]);
        CHECK(sameBytes(r.ask("getParameter", {LEAF[l]}), v), "the value of a parameter is told");
        S path = LEAF[l];
        flat += S(l == LO || l == HI ? "- BitParameter: " : "- IntegerParameter: ") + path.substr(path.rfind('/') + 1) + " = " + v + "\n";
    }
    S got2;
    for (auto &l : lines(r.ask("dumpElement", {"/test/test"}))) if (l.find(" = ") != S::npos) got2 += stripped(l) + "\n";
    CHECK(sameBytes(got2, flat), "the dump of an element shows the value of every parameter");
    for (int e = 0; e < ELEMS; e++) {
        Handle h(*r.pf, ELEM[e].path);
        S x;
        CHECK(r.ask("showProperties", {ELEM[e].path}).find("Kind: " + h->getKind() + "\n") != S::npos, "the kind of an element is told");
        CHECK(h->getAsXML(x, r.e) && sameBytes(r.ask("getElementXML", {ELEM[e].path}), x), "an element is told in XML");
    }
    for (auto &d : r.m.doms)
        for (auto &c : d.confs)
            for (int l = 0; l < LEAVES; l++) {
                S v;
                if (r.pf->accessConfigurationValue(d.name, c.name, LEAF[l], v, false, r.e)) CHECK(r.ask("getConfigurationParameter", {d.name, c.name, LEAF[l]}) == v, "the value of a configuration is told");
            }
}
static void criteria() // any number of values of both kinds, any state
{
    static const struct { const char *lit; int num; } IN[3] = {{"b", 1}, {"a", 4}, {"c", 1 << 30}}, EX[3] = {{"d", 7}, {"A", -1}, {"f", 0}};
    unsigned inclusive = choice("inclusive", 4), exclusive = choice("exclusive", 4); // how many values
    Cfg c;
    c.instances = intDef("p");
    PF pf(c);
    std::vector<std::pair<int, S>> vi, ve;
    for (unsigned i = 0; i < inclusive; i++) vi.push_back({IN[i].num, IN[i].lit});
    for (unsigned i = 0; i < exclusive; i++) ve.push_back({EX[i].num, EX[i].lit});
    auto with = vi; // an inclusive kind has a name for the empty state
    with.push_back({0, "none"});
    auto *i = pf.createSelectionCriterion("In", critType(pf, true, vi)), *e = pf.createSelectionCriterion("Ex", critType(pf, false, ve));
    CHECK(pf.up(), "the configuration is valid");
    int si = (int)sym("in0", 1) | (int)sym("in5", 1) << 5 | (int)sym("in4", 2) << 2 | (int)sym("in30", 1) << 30, se = (int)sym("ex", 32);
    i->setCriterionState(si);
    e->setCriterionState(se);
    S ni, ne;
    for (unsigned k : {0u, 1u, 2u}) if (k < inclusive && (si & IN[k].num)) ni += (ni.empty() ? "" : "|") + S(IN[k].lit);
    for (unsigned k = 0; k < exclusive; k++) if (se == EX[k].num) ne = EX[k].lit;
    if (ni.empty()) ni = "<none>";
    if (ne.empty()) ne = "<none>";
    auto values = [](std::vector<std::pair<int, S>> v) {
        S o;
        std::sort(v.begin(), v.end(), [](const std::pair<int, S> &a, const std::pair<int, S> &b) { return a.second < b.second; });
        for (auto &x : v) o += (o.empty() ? "" : ", ") + x.second;
        return "{" + o + "}";
    };
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    auto ask = [&](const S &n, const V &a) { S o; CHECK(cmd->process(n, a, o), "the criteria can be listed"); return o; };
    CHECK(lines(ask("listCriteria", {"CSV"})) == lines("Criterion name: In, type kind: inclusive, current state: " + ni + ", states: " + values(with) + "\nCriterion name: Ex, type kind: exclusive, current state: " + ne + ", states: " + values(ve)), "the criteria are told as a table");
    V want = {"In:", "===", "Possible states (Inclusive): " + values(with), "Current state = " + ni, "Ex:", "===", "Possible states (Exclusive): " + values(ve), "Current state = " + ne};
    CHECK(lines(ask("listCriteria", {})) == want, "the criteria are told");
    CHECK(after(ask("status", {}), "Selection Criteria:") == "In = " + ni + "\nEx = " + ne + "\n", "the status shows the criteria with their state");
    S xml = ask("listCriteria", {"XML"});
    auto esc = [](const S &s) { return s == "<none>" ? S("&lt;none&gt;") : s; };
    for (int w = 0; w < 2; w++) {
        size_t at = xml.find(w ? "Name=\"In\"" : "Name=\"Ex\""), open = xml.rfind("<SelectionCriterion ", at), close = xml.find(">", at);
        bool ok = at != S::npos && open != S::npos && close != S::npos;
        S tag = ok ? xml.substr(open, close - open) : S();
        CHECK(ok && tag.find("Value=\"" + esc(w ? ni : ne) + "\"") != S::npos && tag.find(w ? "Kind=\"Inclusive\"" : "Kind=\"Exclusive\"") != S::npos, "the criteria are told in XML");
        size_t end = xml.find("<SelectionCriterion ", close), n = 0;
        for (size_t q = close; (q = xml.find("<ValuePair ", q + 1)) != S::npos && q < end; n++) {
            S pair = xml.substr(q, xml.find(">", q) - q);
            bool found = false;
            for (auto &x : w ? with : ve) if (pair.find("Literal=\"" + x.second + "\"") != S::npos && pair.find("Numerical=\"" + std::to_string(x.first) + "\"") != S::npos) found = true;
            CHECK(found, "the values of a criterion are told in XML");
        }
        CHECK(n == (w ? inclusive + 1 : exclusive), "the values of a criterion are told in XML");
    }
}
static void exports(Run &r)
{
    S full, bare, one, f = path("export.xml");
    CHECK(r.pf->exportDomainsXml(full, true, false, r.e) && r.pf->exportDomainsXml(bare, false, false, r.e), "the domains can be exported");
    CHECK((full.find("<Settings") != S::npos) == !r.m.doms.empty() && bare.find("<Settings") == S::npos, "settings are exported exactly if asked for");
    CHECK(r.ask("getDomainsWithSettingsXML") == full, "the domains are told in XML");
    r.ask("exportDomainsWithSettingsXML", {f});
    CHECK(slurp(f) == full, "the domains are written to the file");
    r.ask("exportDomainsXML", {f});
    CHECK(slurp(f) == bare, "the domains are written to the file without settings");
    for (auto &d : r.m.doms) {
        CHECK(r.pf->exportSingleDomainXml(one, d.name, true, false, r.e), "a domain can be exported");
        CHECK(r.ask("getDomainWithSettingsXML", {d.name}) == one, "a domain is told in XML");
        r.ask("exportDomainWithSettingsXML", {d.name, f});
        CHECK(slurp(f) == one, "a domain is written to the file");
        CHECK(one.find("Name=\"" + d.name + "\"") != S::npos, "the domain exported is the one asked for");
        for (auto &o : r.m.doms) if (&o != &d) CHECK(one.find("<ConfigurableDomain Name=\"" + o.name + "\"") == S::npos, "only the domain asked for is exported");
    }
}
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0), ops = param("ops", 18), steps = param("steps", 1), layout = param("layout", 0);
    if (mode == 5) { criteria(); REACH("told"); return; }
    Run r;
    MDom &a = r.add("Da", {EP, EG, EHI}, layout == 1);
    r.addConf(a, "ca", 0, 1, 10);
    r.addConf(a, "cb", -1, 0, 20);
    MDom &b = layout == 0 ? r.add("Db", {EQ, ELO}) : r.add("Db", {EGB, EQ, EBITS});
    r.addConf(b, "ca", -3, 0, 1);
    r.addConf(b, "cb", 0, 2, 2);
    r.add("De", {});
    r.start();
    r.tuning(true);
    for (unsigned i = 0; i < steps; i++) {
        S s(1, (char)('a' + i));
        if (ops == 18) op18(r, s);
        else if (ops == 19) op19(r, s);
        else op17(r, s);
    }
    switch (mode) {
    case 0: ownership(r); break;
    case 1: dump(r); break;
    case 2: state(r); break;
    case 3: contents(r); break;
    default: exports(r); break;
    }
    REACH("told");
}
