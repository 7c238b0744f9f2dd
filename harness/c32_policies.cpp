// C32: what a start is made of: plug-ins, fallback, settings that fail, documents referred to, the remote interface, options.
#include "fw.hpp"
#include <asio.hpp>
#include <CommandHandlerInterface.h>
#include <Plugin.h>
#include <Subsystem.h>
#include <LoggingElementBuilderTemplate.h>
using namespace fw;
enum { FINE, NEVER, NOENTRY, NEEDSNEXT, NEEDSLAST };
static unsigned gKind[3], gOpen[3], gRun[3], gAlive[3];
static std::vector<S> *gAsked;
static S gName[3];
template <int I> struct Sub : CSubsystem
{
    Sub(const S &n, core::log::Logger &l) : CSubsystem(n, l) { gAlive[I]++; }
    ~Sub() override { gAlive[I]--; }
};
template <int I> static void entry(CSubsystemLibrary *l, core::log::Logger &g)
{
    gRun[I]++;
    l->addElementBuilder(I == 0 ? "T0" : I == 1 ? "T1" : "T2", new TLoggingElementBuilderTemplate<Sub<I>>(g));
}
static bool needs(unsigned i, unsigned &what)
{
    if (gKind[i] == NEEDSNEXT) what = (i + 1) % 3;
    else if (gKind[i] == NEEDSLAST) what = (i + 2) % 3;
    else return false;
    return true;
}
extern "C" void *harness_dlopen(const char *n)
{
    gAsked->push_back(n);
    for (unsigned i = 0; i < 3; i++)
        if (gName[i] == n) {
            unsigned w;
            if (gKind[i] == NEVER || (needs(i, w) && !gRun[w])) return nullptr;
            gOpen[i]++;
            return (void *)(size_t)(i + 1);
        }
    return nullptr;
}
extern "C" void *harness_dlsym(void *h, const char *n)
{
    size_t i = (size_t)h - 1;
    if (gKind[i] == NOENTRY || S(n) != "ParameterFrameworkPluginEntryPointMagicV1") return nullptr;
    return i == 0 ? (void *)&entry<0> : i == 1 ? (void *)&entry<1> : (void *)&entry<2>;
}
extern "C" void harness_dlclose(void *h)
{
    size_t i = (size_t)h - 1;
    CHECK(gOpen[i] > 0, "a plug-in is unloaded as often as it was loaded");
    gOpen[i]--;
    CHECK(!gAlive[i], "a plug-in is not unloaded while subsystems of its own exist");
}
struct Log : CParameterMgrPlatformConnector::ILogger
{
    unsigned warnings = 0;
    void info(const S &) override {}
    void warning(const S &) override { warnings++; }
};
static S commands(PF &pf, const S &n, std::initializer_list<S> a = {})
{
    std::unique_ptr<CommandHandlerInterface> c(pf.createCommandHandler());
    S o;
    std::vector<S> v(a);
    CHECK(c->process(n, v, o), "a command to look at the system is carried out");
    return o;
}
static void works(PF &pf, const char *p) // the system can be used
{
    CHECK(pf.isStarted(), "a system that started says so");
    CHECK(pf.tuning(true), "a system that started can be tuned");
    CHECK(pf.setAutoSync(false, pf.err), "synchronization can be switched off"); // nothing is mapped
    CHECK(pf.set(p, "7") && pf.get(p) == "7", "the parameters of a system that started can be used");
}
static void refused(PF &pf)
{
    CHECK(!pf.isStarted(), "a start that failed says so");
    CHECK(!pf.err.empty(), "a start that failed is explained");
}
static const char *const P = "<IntegerParameter Name='x' Size='8' Signed='false'/>";
static S subsystem(const S &name, const S &type, const S &in)
{
    return "<Subsystem Name='" + name + "' Type='" + type + "'><ComponentLibrary/><InstanceDefinition>" + in + "</InstanceDefinition></Subsystem>";
}
static const S XML = "<?xml version='1.0' encoding='UTF-8'?>";
static void policy(PF &pf, bool &fail, unsigned what)
{
    // left as it is unless the client chooses
    fail = what ? pf.getFailureOnFailedSettingsLoad() : pf.getFailureOnMissingSubsystem();
    CHECK(fail, "a start is strict unless the client says otherwise");
    unsigned k = choice(what ? "settings-policy" : "policy", 3);
    if (!k) return;
    S e;
    CHECK(what ? pf.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(k == 1, e) : pf.CParameterMgrPlatformConnector::setFailureOnMissingSubsystem(k == 1, e),
          "a policy can be chosen before the start");
    fail = k == 1;
    CHECK((what ? pf.getFailureOnFailedSettingsLoad() : pf.getFailureOnMissingSubsystem()) == fail, "the policy chosen is the one in force");
}
static void plugins()
{
    Cfg c;
    gName[0] = "p0.so"; gName[1] = "/opt/p/p1.so"; gName[2] = "/opt/p/p2.so";
    static const char *const ST[3] = {"kind0", "kind1", "kind2"};
    for (unsigned i = 0; i < 3; i++) gKind[i] = choice(ST[i], 5);
    unsigned t = choice("type", 5);
    static const char *const TYPE[5] = {"T0", "T1", "T2", "Virtual", "Other"};
    c.withDomains = false;
    c.plugins = "<Location Folder=''><Plugin Name='p0.so'/></Location><Location Folder='/opt/p'><Plugin Name='p1.so'/><Plugin Name='p2.so'/></Location>";
    c.structure = XML + "<SystemClass Name='test'>" + subsystem("s", TYPE[t], P) + "</SystemClass>";
    bool load[3] = {}, more = true, all = true;
    while (more) {
        more = false;
        for (unsigned i = 0; i < 3; i++) {
            unsigned w;
            if (load[i] || gKind[i] == NEVER || gKind[i] == NOENTRY || (needs(i, w) && !load[w])) continue;
            load[i] = more = true;
        }
    }
    for (bool b : load) all &= b;
    {
        PF pf(c);
        bool fail;
        policy(pf, fail, 0);
        bool other = true;
        if (param("both", 1) && maybe("both")) policy(pf, other, 1);
        bool up = pf.up();
        CHECK(up == (!fail || (all && t < 4)), "a missing plug-in or subsystem type refuses the start, unless the client lets a virtual subsystem stand in");
        for (unsigned i = 0; i < 3; i++) {
            CHECK(gRun[i] == (load[i] ? 1u : 0u), "every plug-in that can be loaded is, once, whatever the order they are listed in");
            CHECK(gAlive[i] == (up && t == i && load[i] ? 1u : 0u), "a subsystem is made by the plug-in of its type");
            CHECK(!load[i] || gOpen[i], "a plug-in stays loaded when it was of use");
        }
        if (up) { REACH("started"); works(pf, "/test/s/x"); }
        else { REACH("refused"); refused(pf); }
    }
    for (unsigned i = 0; i < 3; i++) CHECK(!gOpen[i] && !gAlive[i], "nothing of a plug-in is left in the end");
}
static void names()
{
    S t = symText("name", (size_t)param("len", 3));
    for (char ch : t) ASSUME(((ch >= 'n') & (ch <= 't')) | (ch == '.') | (ch == '/'));
    ASSUME(t[0] != '/');
    bool folder = maybe("folder");
    bool so = t.size() >= 3 && t[t.size() - 3] == '.' && t[t.size() - 2] == 's' && t[t.size() - 1] == 'o';
    bool dir = folder;
    for (char ch : t) if (ch == '/') dir = true;
    ASSUME(so || !dir); // a generic name has no folder
    gName[0] = (folder ? "/opt/p/" : S()) + (so ? t : "lib" + t + ".so");
    gName[1] = gName[2] = "none";
    Cfg c;
    c.withDomains = false;
    c.plugins = S("<Location Folder='") + (folder ? "/opt/p" : "") + "'><Plugin Name='" + t + "'/></Location>";
    c.structure = XML + "<SystemClass Name='test'>" + subsystem("s", "T0", P) + "</SystemClass>";
    PF pf(c);
    bool up = pf.up();
    CHECK(gAsked->size() == 1 && sameBytes((*gAsked)[0], gName[0]), "a plug-in is looked for under its name, a generic one completed to a library's");
    CHECK(up, "a plug-in is found under its name");
    if (so) REACH("library"); else REACH("generic");
    works(pf, "/test/s/x");
}
static const char *const CONF = "<ConfigurableDomain Name='d'><Configurations><Configuration Name='c'><CompoundRule Type='All'/></Configuration></Configurations><ConfigurableElements><ConfigurableElement Path='/test/s/x'/></ConfigurableElements>"
                                "<Settings><Configuration Name='c'><ConfigurableElement Path='/test/s/x'><IntegerParameter Name='x'>5</IntegerParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain>";
static void settings()
{
    unsigned k = choice("settings", 9);
    S d = domainsText(CONF), at = "domains.xml";
    bool given = true, good = false;
    S second = CONF;
    second.replace(second.find("'d'"), 3, "'e'");
    if (k == 0) good = true;
    if (k == 1) { given = false; good = true; }
    if (k == 2) at = "other.xml";
    if (k == 3) d.replace(d.find("=\"test\""), 7, "=\"toto\"");
    if (k == 4) d.replace(d.find(">5<"), 3, ">300<");
    if (k == 5) d = d.substr(0, d.size() - 9);
    if (k == 6) { d = domainsText(S(CONF) + second); d.replace(d.rfind(">5<"), 3, ">x<"); }      // the element is in two domains, and the second has no setting
    if (k == 7) d.replace(d.find("/test/s/x"), 9, "/test/s/y");
    if (k == 8) { S e = second; e.replace(e.find("/test/s/x"), 9, "/test/s/w"); d = domainsText(S(CONF) + e); }
    Cfg c;
    c.structure = XML + "<SystemClass Name='test'>" + subsystem("s", "Virtual", S(P) + "<IntegerParameter Name='y' Size='8' Signed='false' Min='3'/>") + "</SystemClass>";
    c.raw = XML + "<ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='true' ServerPort='1'><SubsystemPlugins/><StructureDescriptionFileLocation Path='structure.xml'/>" +
            (given ? "<SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + at + "'/></SettingsConfiguration>" : S()) + "</ParameterFrameworkConfiguration>";
    Log log;
    {
        PF pf(c);
        put(path("domains.xml"), d);
        if (maybe("logger")) pf.setLogger(&log);
        bool logged = log.warnings == 0, fail;
        policy(pf, fail, 1);
        bool other;
        policy(pf, other, 0);
        bool up = pf.up();
        CHECK(up == (good || !fail), "settings that cannot be read refuse the start, unless the client prefers to go without");
        if (!up) { REACH("refused"); refused(pf); return; }
        REACH("started");
        bool has = good && given;
        CHECK(logged, "nothing is told before the start");
        CHECK(commands(pf, "listDomains") == (has ? "d\n" : "") || commands(pf, "listDomains") == (has ? "d" : ""), "a system that goes without its settings has no domain");
        CHECK(pf.get("/test/s/x") == (has ? "5" : "0") && pf.get("/test/s/y") == "3", "a system that goes without its settings has the values of a fresh one");
        works(pf, "/test/s/y");
        if (!has) works(pf, "/test/s/x");
    }
}
static void documents()
{
    // the configuration refers to the structure and the settings, the structure to subsystems: absolute or relative to the document that refers
    S t = symText("file", 2);
    for (char ch : t) ASSUME((ch >= 'a') & (ch <= 'z'));
    bool a1 = maybe("structure-absolute"), a2 = maybe("settings-absolute"), a3 = maybe("subsystem-absolute");
    unsigned what = choice("document", 4);
    S base = path(""), sub = what == 1 ? "abc/" : "", deep = "abc/";
    S inner = subsystem("s", "Virtual", P);
    if (what == 2) inner = "<Component Name='s' Type='T'/>"; // not a subsystem
    if (what == 3) inner = inner.substr(0, inner.size() - 4);
    S st = XML + "<SystemClass Name='test'>" + subsystem("r", "Virtual", P) + "<SubsystemInclude Path='" + (a3 ? base + deep : S()) + sub + t + ".xml'/>" + subsystem("u", "Virtual", P) + "</SystemClass>";
    put(path("abc/structure.xml"), st);
    put(path("abc/domains.xml"), domainsText(CONF));
    put(path("abc/" + sub + "qx.xml"), XML + inner);
    if (what == 1) { // another one where it would be if it were not looked for from the structure
        put(path("abc/qx.xml"), XML + subsystem("w", "Virtual", P));
        put(path("qx.xml"), XML + subsystem("w", "Virtual", P));
    }
    Cfg c;
    c.structure = "none";
    c.raw = XML + "<ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='true' ServerPort='1'><SubsystemPlugins/><StructureDescriptionFileLocation Path='" + (a1 ? base : S()) + "abc/structure.xml'/>" +
            "<SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + (a2 ? base : S()) + "abc/domains.xml'/></SettingsConfiguration></ParameterFrameworkConfiguration>";
    PF pf(c);
    bool up = pf.up();
    bool there = t == "qx";
    CHECK(up == (there && what < 2), "a document is found where the one that refers to it says, and nowhere else");
    if (!up) { REACH("refused"); refused(pf); return; }
    REACH("started");
    CHECK(pf.get("/test/s/x") == "5" && pf.get("/test/u/x") == "0", "what is included is part of the structure");
    works(pf, "/test/r/x");
    works(pf, "/test/u/x");
    // the same as in a single document
    Cfg one;
    one.structure = XML + "<SystemClass Name='test'>" + subsystem("r", "Virtual", P) + subsystem("s", "Virtual", P) + subsystem("u", "Virtual", P) + "</SystemClass>";
    one.domains = CONF;
    PF pg(one);
    CHECK(pg.up(), "the structure in a single document is accepted");
    works(pg, "/test/r/x");
    works(pg, "/test/u/x");
    static const char *const CMD[3] = {"listElements", "listParameters", "dumpElement"};
    for (auto k : CMD) CHECK(commands(pf, k, {"/test"}) == commands(pg, k, {"/test"}), "a structure spread over documents is the structure in one");
    CHECK(pf.tuning(false) && pg.tuning(false) && pf.get("/test/s/x") == pg.get("/test/s/x"), "a structure spread over documents behaves as in one");
}
static void remote()
{
    pfsnet::boundPort() = -1;
    S port = symText("port", (size_t)param("len", 2));
    unsigned n = 0;
    for (char ch : port) { ASSUME((ch >= '0') & (ch <= '9')); n = 10 * n + (ch - '0'); }
    bool tuning = maybe("allowed"), broken = maybe("broken"), fit = n <= 65535;
    unsigned forced = choice("forced", 3);
    pfsnet::brokenPort() = broken;
    Cfg c;
    c.withDomains = false;
    c.tuning = tuning ? "true" : "false";
    c.attrs = "ServerPort='" + port + "'";
    c.instances = P;
    {
        PF pf(c);
        if (forced != 2) pf.setForceNoRemoteInterface(forced == 1);
        else pf.setForceNoRemoteInterface(false);
        CHECK(pf.getForceNoRemoteInterface() == (forced == 1), "the remote interface is ruled out when the client says so");
        bool want = tuning && forced != 1;
        bool up = pf.up();
        CHECK(up == (fit && !(want && broken)), "a remote interface that cannot be offered refuses the start");
        CHECK((unsigned)pfsnet::boundPort() == (up && want ? n : (unsigned)-1), "the remote interface listens on the port of the configuration when tuning is allowed and the client did not rule it out");
        S e;
        if (!up) { REACH("refused"); refused(pf); }
        else {
            REACH("started");
            pf.setForceNoRemoteInterface(true);
            CHECK(pf.isStarted(), "a system that started says so");
            bool on = pf.setTuningMode(true, e);
            CHECK(on == tuning && pf.isTuningModeOn() == tuning, "tuning is possible exactly when the configuration allows it");
        }
    }
    REACH("closed");
}
static void options()
{
    Cfg c;
    c.withDomains = false;
    c.instances = P;
    PF pf(c);
    S e, u;
    bool miss = true, load = true, val = false, started = false;
    S uri = pf.getSchemaUri();
    for (int i = 0; i < (int)param("steps", 4); i++) {
        static const char *const N[5] = {"step0", "step1", "step2", "step3", "step4"};
        unsigned k = choice(N[i], 6);
        bool v = (k < 4) && maybe("value"), ok = false;
        e = "unchanged";
        switch (k) {
        case 0: ok = pf.CParameterMgrPlatformConnector::setFailureOnMissingSubsystem(v, e); break;
        case 1: ok = pf.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(v, e); break;
        case 2: ok = pf.CParameterMgrPlatformConnector::setValidateSchemasOnStart(v, e); break;
        case 3:
            if (v) pf.setFailureOnMissingSubsystem(false);
            else pf.setFailureOnFailedSettingsLoad(false);
            if (!started) (v ? miss : load) = false;
            break;
        case 4: uri = symText("uri", 2); pf.setSchemaUri(uri); break;
        case 5:
            ASSUME(!val && !started); // validation is beyond what is modelled
            CHECK(pf.up(), "the valid configuration is accepted");
            started = true;
            REACH("started");
            break;
        }
        if (k < 3) {
            CHECK(ok == !started, "the policies of the start can be chosen before the start only");
            if (ok) (k == 0 ? miss : k == 1 ? load : val) = v;
            else CHECK(e != "unchanged" && !e.empty(), "a refused choice is explained");
        }
        CHECK(pf.isStarted() == started, "a system is started once its start succeeded");
        CHECK(pf.getFailureOnMissingSubsystem() == miss && pf.getFailureOnFailedSettingsLoad() == load && pf.getValidateSchemasOnStart() == val, "the policies are the ones chosen last");
        CHECK(sameBytes(pf.getSchemaUri(), uri), "the location of the schemas is the one chosen last");
    }
}
extern "C" void harness_main()
{
    gAsked = new std::vector<S>;
    switch (param("mode", 0)) {
    case 0: plugins(); break;
    case 1: names(); break;
    case 2: settings(); break;
    case 3: documents(); break;
    case 4: remote(); break;
    case 5: options(); break;
    }
}
