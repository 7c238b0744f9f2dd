// symbolic operations on domains, their elements and configurations, applied to a framework and its model
#pragma once
#include "model.hpp"
namespace fw
{
static unsigned opOf(const S &s, unsigned n) // the first operation may be fixed, to spread the histories over several cases
{
    int f = (int)param(("op" + s).c_str(), -1);
    return f >= 0 ? (unsigned)f : choice(("op" + s).c_str(), n);
}
static S name(const char *n, std::vector<S> v, const S &s) { return v[choice((S(n) + s).c_str(), (unsigned)v.size())]; }
static int elem(const S &s, std::vector<int> v) { return v[choice(("elem" + s).c_str(), (unsigned)v.size())]; }
static int leaf(const S &s) { static const int L[] = {P, GB, HI, Q}; return L[choice(("leaf" + s).c_str(), 4)]; }
static void op17(Run &r, const S &s)
{
    unsigned o = opOf(s, 5);
    S D, C;
    if (o < 3) D = name("dom", {"Da", "Db"}, s), C = name("conf", {"ca", "cb", "cx"}, s);
    switch (o) {
    case 0: r.save(D, C); REACH("saved"); break;
    case 1: r.restore(D, C); REACH("restored"); break;
    case 2: { int l = leaf(s); r.confSet(D, C, l, digit(("val" + s).c_str())); REACH("set"); break; }
    case 3: { int l = leaf(s); r.set(l, digit(("val" + s).c_str())); break; }
    case 4: r.tuning(false); r.setState(0, (int)sym(("state" + s).c_str(), 32)); r.apply(); r.tuning(true); break;
    }
}
static void op18(Run &r, const S &s)
{
    const S D = name("dom", {"Da", "Db", "De"}, s);
    switch (opOf(s, 4)) {
    case 0: r.addElem(D, elem(s, {EP, EG, EBITS, EGB, ELO, EHI, ESUB})); REACH("added"); break;
    case 1: r.removeElem(D, elem(s, {EP, EG, EBITS, EGB, EHI, ESUB, EQ})); REACH("removed"); break;
    case 2: r.split(D, elem(s, {EP, EG, EBITS, ESUB})); REACH("split"); break;
    case 3: r.set(leaf(s), digit(("val" + s).c_str())); break;
    }
}
// any two-letter name starting with p: the solver splits it into every name in use and all others
static S any(const char *p, const char *n, const S &s)
{
    S c = symText((S(n) + s).c_str(), 1);
    ASSUME((c[0] >= 'a') & (c[0] <= 'z'));
    return S(p) + c;
}
static void op19(Run &r, const S &s)
{
    unsigned o = opOf(s, 10);
    S D = o == 0 || o == 2 ? S() : any("D", "dom", s), C = o >= 6 ? any("c", "conf", s) : S();
    bool full = o >= 8 && D == "Da" && C == "ca";
    switch (o) {
    case 0: r.createDom(any("D", "new", s)); break;
    case 1: r.deleteDom(D); REACH("deleted"); break;
    case 2: r.deleteAll(); break;
    case 3: r.renameDom(D, any("D", "new", s)); REACH("renamed"); break;
    case 4: r.aware(D, maybe(("seq" + s).c_str())); break;
    case 5: r.createConf(D, any("c", "new", s)); REACH("created"); break;
    case 6: r.deleteConf(D, C); break;
    case 7: r.renameConf(D, C, any("c", "new", s)); break;
    case 8: {
        static const std::vector<std::vector<S>> Q = {{}, {ELEM[EP].path}, {ELEM[EHI].path, ELEM[EG].path}, {ELEM[EG].path, ELEM[EP].path, ELEM[EHI].path},
                                                      {ELEM[EP].path, ELEM[EG].path, ELEM[EP].path}, {ELEM[EHI].path, ELEM[EQ].path}, {ELEM[EQ].path, ELEM[ELO].path}, {ELEM[EHI].path, "/test/nowhere"}};
        r.sequence(D, C, Q[full ? choice(("seq" + s).c_str(), 8) : 6]);
        REACH("sequenced");
        break;
    }
    case 9: r.setRule(D, C, full ? (int)choice(("rule" + s).c_str(), 5) - 3 : -1, 2); break;
    }
}
} // namespace fw
