// C34: the generator program (tools/xmlGenerator/domainGeneratorConnector.cpp) carries out the commands it is given.
#include "fw.hpp"
#include <asio.hpp>
#include <sstream>
#include <CommandHandlerInterface.h>
#define main generator_main
#include <domainGeneratorConnector.cpp>
#undef main
using namespace fw;
typedef std::vector<S> V;
#ifdef PFS_RT_STREAMS
typedef std::__pfs_buf<char, std::char_traits<char>> Buf;
static void redirect(Buf &in, Buf &out, Buf &err) { std::cin.__b = &in; std::cout.__b = &out; std::cerr.__b = &err; }
static void fill(Buf &b, const S &t) { b.s = t; b.g = 0; }
static S text(Buf &b) { return b.s; }
#else
typedef std::stringbuf Buf;
static void redirect(Buf &in, Buf &out, Buf &err) { std::cin.rdbuf(&in); std::cout.rdbuf(&out); std::cerr.rdbuf(&err); }
static void fill(Buf &b, const S &t) { b.str(t); }
static S text(Buf &b) { return b.str(); }
#endif
static S *gIn;
static void line(const V &w)
{
    for (size_t i = 0; i < w.size(); i++) {
        if (i) *gIn += '\0';
        *gIn += w[i];
    }
    *gIn += '\n';
}
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0), steps = param("steps", 2), nc = param("criteria", 1);
    bool more = nc < 2; // what else may vary
    Cfg c;
    c.tuning = "false"; // what is allowed on the target
    c.instances = "<IntegerParameter Name='a' Size='8'/><StringParameter Name='t' MaxLength='5'/>";
    c.withDomains = false;
    c.plugins = "<Location Folder=''><Plugin Name='absent'/></Location>";
    c.attrs = "ServerPort='5000'";
    pfsnet::boundPort() = -1;
    pfsnet::brokenPort() = mode != 1 || !more || maybe("taken"); // a port it has no use for
    if (mode == 1 && more) switch (choice("settings", 3)) {
    case 1: c.withDomains = true; c.domains = "<ConfigurableDomain Name='D'><Configurations/><ConfigurableElements/><Settings/></ConfigurableDomain>"; break;
    case 2: c.withDomains = true; c.domains = "<ConfigurableDomain/>"; break;
    }
    bool broken = mode == 1 && more && maybe("broken");
    if (broken) c.instances += "<IntegerParameter Name='a' Size='9'/>";
    if (mode != 1 || !more || maybe("tuning")) c.tuning = "true";
    S in, want;
    gIn = &in;
    unsigned failures = 0;
    bool fatal = false, conflict = false;
    // criteria
    struct Crit { S name; bool inclusive; V values; };
    std::vector<Crit> crits;
    for (unsigned i = 0; i < nc; i++) {
        S k(1, (char)('0' + i));
        Crit q;
        q.inclusive = maybe(("inclusive" + k).c_str());
        q.name = nc > 1 && maybe(("same" + k).c_str()) ? "K" : "K" + k;
        V w = {"createSelectionCriterion", q.inclusive ? "inclusive" : "exclusive", q.name};
        unsigned nv = param("values", 2);
        for (unsigned j = 0; j < nv; j++) {
            S v = "v" + S(1, (char)('0' + j));
            if (j && mode == 1 && maybe(("twice" + k).c_str())) v = "v0";
            q.values.push_back(v);
            w.push_back(v);
        }
        line(w);
        bool dup = false;
        for (size_t a = 0; a < q.values.size(); a++) for (size_t b = 0; b < a; b++) if (q.values[a] == q.values[b]) dup = true;
        if (q.values.empty() || dup) fatal = true;
        crits.push_back(q);
    }
    V script[8];
    unsigned n = 0;
    if (mode == 1 && more && maybe("blank")) line({});
    line({"start"});
    PF ref(c); // the same commands, given to the framework itself
    ref.setFailureOnMissingSubsystem(false);
    ref.setFailureOnFailedSettingsLoad(false);
    for (auto &q : crits) {
        auto *t = ref.createSelectionCriterionType(q.inclusive);
        S e;
        for (size_t j = 0; j < q.values.size(); j++) t->addValuePair(q.inclusive ? 1 << j : (int)j, q.values[j], e);
        if (!ref.createSelectionCriterion(q.name, t)) fatal = true;
    }
    std::unique_ptr<CommandHandlerInterface> cmd;
    S e;
    if (!fatal) {
        if (!ref.start(e)) fatal = true;
        CHECK(fatal == (broken), "the framework starts unless its configuration is broken");
        if (!fatal && !ref.setTuningMode(true, e)) fatal = true;
    }
    auto give = [&](const V &w) {
        line(w);
        if (fatal) return;
        S o;
        V args(w.begin() + 1, w.end());
        if (!cmd) cmd.reset(ref.createCommandHandler());
        if (!cmd->process(w[0], args, o)) failures++;
    };
    if (mode == 0) { // settings, whole or faulty
        bool second = param("second", 0);
        give({"createDomain", "D"});
        give({"addElement", "D", "/test/test/a"});
        if (param("text", 0)) give({"addElement", "D", "/test/test/t"});
        give({"createConfiguration", "D", "c"});
        switch (choice("rule", 4)) {
        case 0: give({"setRule", "D", "c", "All{  }"}); break;
        case 1: give({"setRule", "D", "c", S("All{ K0 ") + (maybe("relation") ? "Includes" : "Is") + " v" + (char)('0' + choice("value", param("values", 2) + 1)) + " }"}); break;
        case 2: give({"setRule", "D", "c"}); break;
        }
        S v = symText("v", 1); // any one character
        for (char &x : v) ASSUME(x != '\n' && x != 0 && x > 0);
        if (param("text", 0)) give({"setConfigurationParameter", "D", "c", "/test/test/t", v});
        else give({"setConfigurationParameter", "D", maybe("wrong") ? S("d") : S("c"), "/test/test/a", v});
        if (maybe("sequence")) give({"setSequenceAwareness", "D", "true"});
        if (second) {
            give({maybe("misspelt") ? "createdomain" : "createDomain", "E"});
            if (maybe("conflict")) give({"addElement", "E", "/test"});
        }
        REACH("settings");
    } else if (mode == 1) {
        give({"createDomain", "D"});
        if (!more || maybe("again")) give({"createDomain", "D"});
    } else if (mode == 3) { // any bytes of lines
        give({"createDomain", "D"});
        S l = symText("byte", param("len", 2));
        for (char &x : l) ASSUME(x == 0 || x == '\n' || (x > ' ' && x <= '~'));
        in += S("createDomain") + '\0' + l + '\n';
        V w(1, "createDomain");
        w.push_back("");
        bool blank = false; // nothing on this line yet
        auto end = [&] {
            S o;
            if (blank || fatal) return;
            if (!cmd) cmd.reset(ref.createCommandHandler());
            if (!cmd->process(w[0], V(w.begin() + 1, w.end()), o)) failures++;
        };
        for (char x : l) {
            if (x == '\n') {
                end();
                w = V(1, "");
                blank = true;
            } else {
                blank = false;
                if (x) w.back() += x;
                else w.push_back("");
            }
        }
        end();
    } else { // any number of failures; 4: any number of arguments
        for (unsigned i = 0; i < steps; i++) give({"addElement", "D", "/test/test/a"});
    }
    if (more && !maybe("lastline")) in.pop_back(); // the last line may end with the input
    int rc;
    if (!fatal) {
        S o;
        CHECK(cmd->process("listConflictingElements", {}, o), "conflicts can be listed");
        conflict = !o.empty();
        CHECK(ref.exportDomainsXml(want, true, false, e), "the domains can be exported");
        REACH("done");
        if (conflict) REACH("conflict");
        if (failures) REACH("failures");
    } else REACH("fatal");

    S conf = path("conf.xml"), empty;
    const char *argv[8] = {"generator", conf.c_str(), mode == 1 && more && maybe("verbose") ? "verbose" : "terse", "no", "", "more"};
    Buf &bi = *new Buf, &bo = *new Buf, &be = *new Buf; // outlive the streams
    fill(bi, in);
    redirect(bi, bo, be);
    int argc = param("mode", 0) == 4 ? 1 + (int)choice("arguments", 6) : 5; // all arguments are mandatory, more are ignored
    if (argc < 5) fatal = true;
    if (argc < 5) argv[argc] = nullptr;
    rc = generator_main(argc, (char **)argv);
    CHECK(pfsnet::boundPort() == -1, "the generator offers no remote interface");
    S out = text(bo), err = text(be);
    unsigned errors = failures + conflict;
    CHECK(rc == (fatal ? 1 : errors > 255 ? 255 : (int)errors), "the exit code is the number of errors");
    CHECK(fatal ? out.empty() : out == want, "what is printed is the domains the commands make, and nothing else");
    if (rc) CHECK(!err.empty(), "errors are told");
    observe("rc", S(1, (char)('A' + (rc > 20 ? 20 : rc))));
}
