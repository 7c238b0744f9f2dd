// C12: selection criterion types and states
#include "dom.hpp"
using namespace fw;
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0);
    bool incl = param("inclusive", 0);
    Cfg c;
    c.instances = intDef("p");
    PF pf(c);
    S e;
    auto *t = pf.createSelectionCriterionType(incl);
    CHECK(t->isTypeInclusive() == incl, "the kind of the type is what was asked");
    static const char *NAME[4] = {"red", "green", "none", "blue"};
    struct Pair { S n; int v; };
    std::vector<Pair> model;
    if (incl) model.push_back({"none", 0});
    int a;
    S s;
    if (mode == 0 || mode == 1) {
        // value pairs: any numbers, names possibly repeated
        unsigned n = param("pairs", 2);
        for (unsigned i = 0; i < n; i++) {
            S nm = NAME[choice((S("name") + (char)('0' + i)).c_str(), i ? 4 : 3)];
            int v = (int)sym((S("num") + (char)('0' + i)).c_str(), 32);
            if (incl && (mode == 1 || i == 0)) ASSUME((v == 1) | (v == 2) | (v == 64) | (v == (int)0x80000000));
            int ok = incl ? (v != 0) & ((v & (int)((unsigned)v - 1u)) == 0) : 1;
            for (auto &m : model) ok &= (m.n != nm) & (m.v != v);
            bool r = t->addValuePair(v, nm, e);
            CHECK(r == (ok != 0), "a value pair is accepted exactly when name and number are new and fit the kind");
            if (r) { model.push_back({nm, v}); REACH("accepted"); } else REACH("rejected");
        }
        // lookups of any number and of every name
        if (mode == 0) {
            int q = (int)sym("query", 32);
            bool r = t->getLiteralValue(q, s);
            int any = 0, same = 0;
            for (auto &m : model) { any |= m.v == q; if (r) same |= (m.v == q) & (s == m.n); }
            CHECK(r == (any != 0), "a number has a literal exactly when it was declared");
            if (r) CHECK(same, "the literal of a number is the declared one");
            for (unsigned i = 0; i < 4; i++) {
                a = 0;
                r = t->getNumericalValue(NAME[i], a);
                int found = 0, val = 0;
                for (auto &m : model) if (m.n == NAME[i]) { found = 1; val = m.v; }
                CHECK(r == (found != 0), "a literal has a number exactly when it was declared");
                if (r) CHECK(a == val, "the number of a literal is the declared one");
            }
        } else { // combinations of literals
            unsigned i = choice("first", 4), j = choice("second", 4);
            a = 0;
            bool r = t->getNumericalValue(S(NAME[i]) + "|" + NAME[j], a);
            int f1 = 0, f2 = 0, v1 = 0, v2 = 0;
            for (auto &m : model) {
                if (m.n == NAME[i]) { f1 = 1; v1 = m.v; }
                if (m.n == NAME[j]) { f2 = 1; v2 = m.v; }
            }
            CHECK(r == (incl && f1 && f2), "a combination is understood exactly when the kind is inclusive and every literal declared");
            if (r) CHECK(a == (v1 | v2), "a combination is the union of its values");
        }
        return;
    }
    // states: every state set is the state read; formatted through the declared literals
    static const int NUM[3] = {incl ? 1 : -7, incl ? 4 : 0, incl ? (int)0x80000000 : 2000000000};
    for (unsigned i = 0; i < 3; i++) CHECK(t->addValuePair(NUM[i], i == 2 ? "blue" : NAME[i], e), "a valid value pair is accepted");
    auto *k = pf.createSelectionCriterion("Mode", t);
    CHECK(pf.getSelectionCriterion("Mode") == k, "a criterion is found by its name");
    CHECK(pf.getSelectionCriterion("Mod") == nullptr, "an unknown criterion is not found");
    CHECK(k->getCriterionName() == "Mode" && k->getCriterionType() == t && k->getCriterionState() == 0, "a criterion starts with its name, type and state zero");
    pf.upTuning();
    for (unsigned round = 0; round < 2; round++) {
        int st;
        if (incl) {
            st = 0;
            for (unsigned b = 0; b < 4; b++) { // bits 0, 1 (undeclared), 2, 31
                static const int BIT[4] = {1, 2, 4, (int)0x80000000};
                if (maybe((S("bit") + (char)('0' + b) + (char)('a' + round)).c_str())) st |= BIT[b];
            }
        } else {
            st = (int)sym((S("state") + (char)('0' + round)).c_str(), 32);
        }
        k->setCriterionState(st);
        CHECK(k->getCriterionState() == st, "the state set is the state read");
        S f = t->getFormattedState(st);
        S want;
        for (unsigned i = 0; i < 3; i++)
            if (incl ? (st & NUM[i]) != 0 : st == NUM[i]) want += (want.empty() ? S() : S("|")) + (i == 2 ? "blue" : NAME[i]);
        if (want.empty()) want = "<none>";
        CHECK(sameBytes(f, want), "a state is formatted as its declared literals");
        if (incl && want != "<none>") {
            a = 0;
            CHECK(t->getNumericalValue(f, a), "a formatted state can be read back");
            CHECK(a == (st & (NUM[0] | NUM[1] | NUM[2])), "a formatted state reads back as its declared values");
        }
        REACH("state");
    }
}
