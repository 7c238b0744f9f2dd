// C16-C19: histories of operations on configurations (ops=17), domain membership (18), domains and configurations themselves (19), all of
// them (16), compared after every step with a reference model; off=1 runs with tuning mode off, where nothing may change.
#include "ops.hpp"
using namespace fw;
extern "C" void harness_main()
{
    unsigned ops = param("ops", 17), steps = param("steps", 2), layout = param("layout", 0);
    bool off = param("off", 0);
    Run r;
    if (param("forbid", 0)) r.c.tuning = "false";
    MDom &a = r.add("Da", {EP, EG, EHI}, layout == 1);
    r.addConf(a, "ca", 0, 1, 10);
    r.addConf(a, "cb", -1, 0, 20);
    if (layout == 2) a.confs[0].order = {EHI, EP, EG};
    MDom &b = layout == 0 ? r.add("Db", {EQ, ELO}) : r.add("Db", {EG, EQ, ELO});
    r.addConf(b, "ca", -3, 0, 1);
    r.addConf(b, "cb", 0, 2, 2);
    r.add("De", {});
    r.start();
    if (param("forbid", 0)) {
        CHECK(!r.pf->setTuningMode(true, r.e), "tuning mode cannot be switched on where it is not allowed");
        CHECK(!r.pf->isTuningModeOn(), "tuning mode stays off");
    } else if (!off) {
        r.tuning(true);
    }
    for (unsigned i = 0; i < steps; i++) {
        S s(1, (char)('a' + i));
        unsigned o = ops == 16 ? 17 + choice(("kind" + s).c_str(), 3) : ops;
        if (off && o == 17) { // no tuning session inside
            const S D = name("dom", {"Da", "De"}, s), C = name("conf", {"ca", "cb", "cx"}, s);
            unsigned k = opOf(s, 3);
            if (k == 0) r.save(D, C);
            if (k == 1) r.restore(D, C);
            if (k == 2) r.set(leaf(s), digit(("val" + s).c_str()));
            REACH("refused");
        } else if (o == 17) op17(r, s);
        else if (o == 18) op18(r, s);
        else op19(r, s);
        if (i + 1 == steps) r.all();
    }
    if (off) return;
    // every configuration still restores what it holds
    for (unsigned i = 0; i < r.m.doms.size(); i++)
        for (unsigned j = 0; j < r.m.doms[i].confs.size(); j++) {
            r.restore(r.m.doms[i].name, r.m.doms[i].confs[j].name);
            r.values();
        }
    r.tuning(false);
    r.values();
}
