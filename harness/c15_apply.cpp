// C15: which configurations get applied, when, and in which order, over histories of state changes, applications and tuning sessions
#include "model.hpp"
using namespace fw;
extern "C" void harness_main()
{
    unsigned layout = param("layout", 0), steps = param("steps", 2), ops = param("ops", 0);
    Run r;
    if (layout == 0 || layout == 3) { // two domains sharing an element, the later one wins when both apply; or the first, being sequence aware
        MDom &a = r.add("Da", {EP, EG}, layout == 3);
        r.addConf(a, "one", 0, 1, 10);
        r.addConf(a, "two", 1, 2, 20);
        MDom &b = r.add("Db", {EG, EQ});
        r.addConf(b, "one", 1, 2, 30);
        r.addConf(b, "two", -1, 0, 40);
    }
    if (layout == 1) { // a sequence-aware domain listed first is applied after the others
        MDom &a = r.add("Da", {EP, EBITS}, true);
        r.addConf(a, "one", 0, 1, 10);
        r.addConf(a, "two", 0, 3, 11);
        MDom &b = r.add("Db", {EP, EHI});
        r.addConf(b, "one", -2, 0, 20);
        r.addConf(b, "two", 1, 1, 22);
        r.addConf(b, "three", 0, 2, 24);
    }
    if (layout == 2) { // three domains over one element, no default
        MDom &a = r.add("Da", {EP});
        r.addConf(a, "one", -3, 0, 10);
        r.addConf(a, "two", 0, 1, 20);
        MDom &b = r.add("Db", {EP}, true);
        r.addConf(b, "one", 0, 2, 30);
        MDom &c = r.add("Dc", {ESUB});
        r.addConf(c, "one", 1, 3, 5);
    }
    r.start();
    r.values();
    for (unsigned s = 0; s < steps; s++) {
        int f = s == 0 ? (int)param("first", -1) : -1;
        switch (f >= 0 ? (unsigned)f : choice(nm("op", s).c_str(), ops == 0 ? 3 : 6)) {
        case 0: // state change and application
            r.setState(0, (int)sym(nm("s", s).c_str(), 32));
            if (maybe(nm("both", s).c_str())) r.setState(1, (int)sym(nm("t", s).c_str(), 32));
            r.apply();
            REACH("applied");
            break;
        case 1: // state change only
            r.setState(1, (int)sym(nm("t", s).c_str(), 32));
            break;
        case 2: // tuning session with a changed value; leaving it applies everything again
            r.tuning(true);
            r.set(choice(nm("leaf", s).c_str(), 2) ? GA : P, digit(nm("val", s).c_str()));
            r.apply(); // ignored while tuning
            r.values();
            r.tuning(false);
            REACH("tuned");
            break;
        case 3: // restoring a configuration by hand
            r.tuning(true);
            r.restore(r.m.doms[choice(nm("dom", s).c_str(), 2)].name, maybe(nm("conf", s).c_str()) ? "two" : "one");
            r.values();
            r.tuning(false);
            break;
        case 4: // another rule
            r.tuning(true);
            r.setRule("Db", maybe(nm("conf", s).c_str()) ? "two" : "one", choice(nm("rule", s).c_str(), 4) - 3, 1);
            r.tuning(false);
            break;
        case 5: // a configuration deleted, possibly the applied one
            r.tuning(true);
            r.deleteConf("Da", maybe(nm("conf", s).c_str()) ? "two" : "one");
            r.tuning(false);
            break;
        }
        r.values();
        r.lastApplied();
    }
}
