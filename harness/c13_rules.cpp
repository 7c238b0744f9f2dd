// C13: which states of the criteria a rule matches, decided by the configuration that gets applied
#include "dom.hpp"
using namespace fw;
struct R { bool comp = false, all = false; std::vector<R> kids; S crit, verb; unsigned val = 0; };
static const int IN[3] = {1, 2, 8};
static const char *IL[3] = {"x", "y", "w"};
static S subset(unsigned m)
{
    S o;
    for (unsigned i = 0; i < 3; i++) if (m >> i & 1) o += (o.empty() ? S() : S("|")) + IL[i];
    return o.empty() ? "none" : o;
}
static S valueText(const R &r) { return r.crit == "I" ? subset(r.val) : S("v") + (char)('0' + r.val); }
static S text(const R &r)
{
    if (!r.comp) return r.crit + " " + r.verb + " " + valueText(r);
    S o = r.all ? "All{" : "Any{";
    for (size_t i = 0; i < r.kids.size(); i++) o += (i ? ", " : "") + text(r.kids[i]);
    return o + "}";
}
static S xml(const R &r)
{
    if (!r.comp) return critRule(r.crit, r.verb, valueText(r));
    S o;
    for (auto &k : r.kids) o += xml(k);
    return compRule(r.all, o);
}
static int num[3], state[4]; // numbers of v0..v2; states of E, F, G, I
static int eval(const R &r)
{
    if (r.comp) {
        int v = r.all ? 1 : 0;
        for (auto &k : r.kids) { int x = eval(k); v = r.all ? v & x : v | x; }
        return v;
    }
    if (r.crit == "I") {
        int m = 0, s = state[3];
        for (unsigned i = 0; i < 3; i++) if (r.val >> i & 1) m |= IN[i];
        if (r.verb == "Is") return s == m;
        if (r.verb == "IsNot") return s != m;
        if (r.verb == "Includes") return (s & m) == m;
        return (s & m) == 0;
    }
    int s = state[r.crit[0] - 'E'];
    return r.verb == "Is" ? s == num[r.val] : s != num[r.val];
}
static R leaf(const S &c, const S &v, unsigned n) { R r; r.crit = c; r.verb = v; r.val = n; return r; }
static R node(const char *name, std::vector<R> k) { R r; r.comp = true; r.all = maybe(name); r.kids = k; return r; }
extern "C" void harness_main()
{
    unsigned shape = param("shape", 0);
    bool asXml = param("xml", 0), incl = param("inclusive", 0);
    Cfg c;
    c.instances = intDef("p");
    R r;
    static const char *VERB[4] = {"Is", "IsNot", "Includes", "Excludes"};
    R E0 = leaf("E", "Is", 0), F1 = leaf("F", "IsNot", 1), G2 = leaf("G", "Is", 2);
    if (shape == 0) r = node("rootAll", {incl ? leaf("I", VERB[choice("verb", 4)], choice("subset", 8)) : leaf("E", VERB[choice("verb", 2)], choice("value", 3))});
    if (shape == 1) r = node("rootAll", {});
    if (shape == 2) r = node("rootAll", {E0, F1});
    if (shape == 3) r = node("rootAll", {E0, F1, G2});
    if (shape == 4) r = node("rootAll", {node("midAll", {E0, F1}), G2});
    if (shape == 5) r = node("rootAll", {E0, node("midAll", {F1, G2})});
    if (shape == 6) r = node("rootAll", {node("leftAll", {E0}), node("rightAll", {}), G2});
    if (shape == 7) r = node("rootAll", {node("midAll", {node("lowAll", {E0, F1}), leaf("F", "Is", 1)}), G2});
    if (shape == 8) r = node("rootAll", {E0, leaf("I", VERB[choice("verb", 4)], 1 + choice("subset", 3))});
    Dom d;
    d.name = "D";
    d.elements = {"/test/test/p"};
    d.confs = {{"hit", asXml ? xml(r) : S(), {{"/test/test/p", intXml("p", "11")}}}, {"other", always(), {{"/test/test/p", intXml("p", "22")}}}};
    c.domains = d.xml();
    PF pf(c);
    for (unsigned i = 0; i < 3; i++) {
        num[i] = (int)sym((S("num") + (char)('0' + i)).c_str(), 32);
        for (unsigned j = 0; j < i; j++) ASSUME(num[i] != num[j]);
    }
    auto *te = critType(pf, false, {{num[0], "v0"}, {num[1], "v1"}, {num[2], "v2"}});
    auto *ti = critType(pf, true, {{1, "x"}, {2, "y"}, {8, "w"}});
    ISelectionCriterionInterface *k[4];
    static const char *CN[4] = {"E", "F", "G", "I"};
    for (unsigned i = 0; i < 4; i++) k[i] = pf.createSelectionCriterion(CN[i], i == 3 ? ti : shape == 0 ? te : critType(pf, false, {{num[i], S("v") + (char)('0' + i)}}));
    if (!pf.up()) { pfs_note_str(pf.err.c_str()); pfs_fail("the valid configuration is accepted"); }
    S got;
    if (!asXml) {
        CHECK(pf.tuning(true), "tuning mode can be switched on");
        CHECK(pf.setApplicationRule("D", "hit", text(r), pf.err), "a well formed rule is accepted");
        CHECK(pf.tuning(false), "tuning mode can be switched off");
    }
    CHECK(pf.getApplicationRule("D", "hit", got), "the rule can be read");
    CHECK(sameBytes(got, text(r)), "the rule read is the rule set");
    auto apply = [&](unsigned round) {
        for (unsigned i = 0; i < 4; i++) {
            if (i == 3) {
                state[3] = 0;
                if (incl || shape == 8) for (unsigned b = 0; b < 4; b++) if (maybe((S("bit") + (char)('0' + b) + (char)('a' + round)).c_str())) state[3] |= 1 << b;
            } else if (shape == 0 ? !incl && i == 0 : shape == 8 ? i == 0 : (round == 0 || i == 0)) {
                state[i] = (int)sym((S("state") + CN[i] + (char)('a' + round)).c_str(), 32);
            }
            k[i]->setCriterionState(state[i]);
        }
        pf.applyConfigurations();
        S v = pf.get("/test/test/p");
        int m = eval(r);
        if (sameBytes(v, "11")) REACH("matched"); else REACH("unmatched");
        CHECK(sameBytes(v, "11") == m, "the configuration is applied exactly when its rule is satisfied");
        CHECK(sameBytes(v, "22") == !m, "otherwise the next applicable configuration is applied");
    };
    apply(0);
    if (param("rounds", 2) == 2) apply(1);
}
