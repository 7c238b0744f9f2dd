// C29: the C interface: every history of calls against a model of what each must do, what it returns and what the last error says.
#include "fw.hpp"
#include <ParameterFramework.h>
using namespace fw;
static int gCtx, gLogged;
static void logCb(void *ctx, PfwLogLevel l, const char *line)
{
    CHECK(ctx == &gCtx && (l == pfwLogInfo || l == pfwLogWarning) && line, "the log callback is given its context");
    gLogged++;
}
static const char *const NAMES[] = {"Col", "Veh", "Not"};
static const char *COLS[] = {"Red", "Green", "Blue", nullptr};
static const char *VEHS[] = {"Car", "Boat", "Plane", nullptr};
static const char *const PATHS[] = {"/test/test/p", "/test/test/q", "/test/test/d", "/test/test/k", "/test/test/none", "p"};
struct Model { bool started = false; int crit[2] = {0, 0}, applied = -1; long p = 0, d = 0; S q; };
static PfwHandler *h;
static void outcome(bool ok, bool want, bool &good)
{
    CHECK(ok == want, "a function of the C interface succeeds exactly when it should");
    S err = pfwGetLastError(h);
    CHECK(err.empty() == ok, "the last error is empty exactly when the last call succeeded");
    good = ok;
}
extern "C" void harness_main()
{
    Cfg c;
    c.tuning = "false";
    c.instances = "<IntegerParameter Name='p' Size='16' Signed='true' Min='-100' Max='100'/><StringParameter Name='q' MaxLength='4'/><IntegerParameter Name='d' Size='8' Signed='false'/>"
                  "<ParameterBlock Name='k'><BooleanParameter Name='b'/></ParameterBlock>";
    S conf[2] = {"c1", "c2"}, rule[2] = {"<SelectionCriterionRule SelectionCriterion='Veh' MatchesWhen='Is' Value='Boat'/>", "<SelectionCriterionRule SelectionCriterion='Col' MatchesWhen='Includes' Value='Green'/>"};
    S cs, ss;
    for (int i = 0; i < 2; i++) {
        cs += "<Configuration Name='" + conf[i] + "'><CompoundRule Type='All'>" + rule[i] + "</CompoundRule></Configuration>";
        ss += "<Configuration Name='" + conf[i] + "'><ConfigurableElement Path='/test/test/d'><IntegerParameter Name='d'>" + itoa64(i + 5) + "</IntegerParameter></ConfigurableElement></Configuration>";
    }
    c.domains = "<ConfigurableDomain Name='D'><Configurations>" + cs + "</Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/d'/></ConfigurableElements><Settings>" + ss + "</Settings></ConfigurableDomain>";
    S good = writeFiles(c), bad = path("bad.xml"), badset = path("badset.xml"), badmap = path("badstructure.xml");
    put(bad, "<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='false'/>");
    put(path("wrongdomains.xml"), domainsText("<ConfigurableDomain Name='D'><Configurations/><ConfigurableElements><ConfigurableElement Path='/test/test/none'/></ConfigurableElements><Settings/></ConfigurableDomain>"));
    put(badset, "<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='false'><SubsystemPlugins/><StructureDescriptionFileLocation Path='" + path("structure.xml") +
                    "'/><SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + path("wrongdomains.xml") + "'/></SettingsConfiguration></ParameterFrameworkConfiguration>");
    h = pfwCreate();
    CHECK(h && !*pfwGetLastError(h), "a new handle has no error");
    Model m;
    int steps = (int)param("steps", 3), first = (int)param("first", -1);
    bool g;
    PfwParameterHandler *ph[3] = {nullptr, nullptr, nullptr};
    auto start = [&](unsigned k, unsigned log) {
        std::vector<const char *> many(40, nullptr);
        S names[40];
        PfwCriterion cr[3] = {{"Col", true, COLS}, {"Veh", false, VEHS}, {"Col", false, VEHS}};
        size_t n = 2;
        const char *two[] = {"Red", "Red", nullptr};
        const char *file = good.c_str();
        bool ok = false;
        switch (k) {
        case 0: ok = true; break;
        case 1: file = "/doesNotExist"; break;
        case 2: file = bad.c_str(); break;
        case 3: file = badset.c_str(); break;
        case 4: n = 3; break;
        case 5: cr[1].name = nullptr; break;
        case 6: cr[1].values = nullptr; break;
        case 7: cr[0].values = two; break;
        case 8: { // an inclusive criterion has at most 31 values; all but the first three are there for their number
            unsigned q = 30 + choice("values", 3);
            for (unsigned i = 0; i < q; i++) { names[i] = i < 3 ? COLS[i] : "v" + itoa64(i); many[i] = names[i].c_str(); }
            cr[0].values = many.data();
            ok = q <= 31;
            break;
        }
        case 9: cr[1].values = two; break;
        }
        if (m.started) ok = false;
        PfwLogger l = {&gCtx, log ? logCb : nullptr};
        gLogged = 0;
        outcome(pfwStart(h, file, cr, n, &l), ok, g);
        if (!log) CHECK(!gLogged, "nothing is logged without a callback");
        else if (g) CHECK(gLogged, "the start is logged");
        if (g) { m.started = true; m.p = -100; m.crit[0] = m.crit[1] = 0; m.d = 0; m.applied = -1; REACH("started"); }
        else REACH("not-started");
    };
    auto apply = [&] {
        int a = m.crit[1] == 1 ? 0 : (m.crit[0] & 2) ? 1 : -1;
        if (a >= 0 && a != m.applied) { m.applied = a; m.d = a + 5; }
    };
    if (param("started", 0)) start(0, 0), apply();
    for (int s = 0; s < steps; s++) {
        S n = itoa64(s);
        unsigned op = s == 0 && first >= 0 ? (unsigned)first : choice(("op" + n).c_str(), 7);
        switch (op) {
        case 0: {
            static const unsigned again[] = {0, 3, 4, 1};
            unsigned k = !s && param("start0", -1) >= 0 ? (unsigned)param("start0", 0) : choice(("start" + n).c_str(), m.started ? 2 : s ? 4 : 10);
            start(s ? again[k] : k, s ? 0 : maybe(("log" + n).c_str()));
            if (g) apply();
            break;
        }
        case 1: {
            unsigned k = choice(("crit" + n).c_str(), 3);
            int v = (int)choice(("state" + n).c_str(), (unsigned)param("states", 5));
            outcome(pfwSetCriterion(h, NAMES[k], v), m.started && k < 2, g);
            if (g) m.crit[k] = v, REACH("set");
            break;
        }
        case 2:
            for (int k = 0; k < 3; k++) {
                int v = 77;
                outcome(pfwGetCriterion(h, NAMES[k], &v), m.started && k < 2, g);
                if (g) CHECK(v == m.crit[k], "a criterion reads back as set");
            }
            break;
        case 3:
            outcome(pfwApplyConfigurations(h), m.started, g);
            if (g) apply();
            break;
        case 4: {
            unsigned k = choice(("path" + n).c_str(), 6);
            PfwParameterHandler *p = pfwBindParameter(h, PATHS[k]);
            outcome(p != nullptr, m.started && k < 3, g);
            if (!p) break;
            if (ph[k]) pfwUnbindParameter(p);
            else ph[k] = p;
            REACH("bound");
            break;
        }
        case 5: {
            if (!m.started) break;
            unsigned k = choice(("param" + n).c_str(), 3);
            PfwParameterHandler *p = ph[k] ? ph[k] : pfwBindParameter(h, PATHS[k]);
            CHECK(p && (ph[k] || !*pfwGetLastError(h)), "a parameter can be bound");
            ph[k] = p;
            if (maybe(("text" + n).c_str())) {
                size_t len = 3 + choice(("len" + n).c_str(), 3);
                S t = k == 1 ? symText(("t" + n).c_str(), len) : S("12");
                if (k == 1) for (char ch : t) ASSUME(ch != 0);
                outcome(pfwSetStringParameter(p, t.c_str()), k == 0 || (k == 1 && len <= 4), g);
                if (g) { if (k) m.q = t; else m.p = 12; }
            } else {
                int32_t v = (int32_t)sym(("v" + n).c_str(), 32);
                bool in = (v >= -100) & (v <= 100);
                outcome(pfwSetIntParameter(p, v), k == 0 && in, g);
                if (g) { m.p = v; REACH("written"); }
            }
            break;
        }
        case 6: {
            if (!m.started) break;
            unsigned k = choice(("param" + n).c_str(), 3);
            PfwParameterHandler *p = pfwBindParameter(h, PATHS[k]);
            int32_t v = 0;
            outcome(pfwGetIntParameter(p, &v), k != 1, g);
            pfwUnbindParameter(p);
            break;
        }
        }
    }
    if (m.started) { // what a client sees in the end
        for (int k = 0; k < 3; k++) {
            if (!ph[k]) ph[k] = pfwBindParameter(h, PATHS[k]);
            CHECK(ph[k], "a parameter can be bound");
            int32_t v = 0;
            outcome(pfwGetIntParameter(ph[k], &v), k != 1, g);
            if (g) CHECK(v == (k ? m.d : m.p), "a parameter has the value it was given");
            if (k == 0 && steps > 1) continue;
            char *t = (char *)"";
            outcome(pfwGetStringParameter(ph[k], &t), true, g);
            CHECK(t && sameBytes(t, k == 1 ? m.q : itoa64(k ? m.d : m.p)), "the text of a parameter is its value");
            pfwFree(t);
        }
        for (auto *p : ph) pfwUnbindParameter(p);
    }
    pfwDestroy(h);
}
