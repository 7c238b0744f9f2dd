// C17/C18/C22: configurations of elements of many bytes: saved, restored, divided, joined and exported without losing a byte.
#include "fw.hpp"
#include <CommandHandlerInterface.h>
using namespace fw;
typedef std::vector<uint8_t> Bytes;
static size_t total;
struct Content { Bytes b; std::vector<S> text; };
static Content content(const char *n, unsigned seed, size_t at)
{
    Content c;
    for (size_t i = 0; i < total; i++) {
        uint8_t v = (uint8_t)(i * 37 + seed + i / 256);
        if (i == at || i == at + 1) { // 100 to 199
            S d = symText((n + std::to_string(i - at)).c_str(), 2);
            ASSUME((d[0] >= '0') & (d[0] <= '9') & (d[1] >= '0') & (d[1] <= '9'));
            c.b.push_back((uint8_t)(100 + 10 * (d[0] - '0') + (d[1] - '0')));
            c.text.push_back("1" + d);
        } else {
            c.b.push_back(v);
            c.text.push_back(std::to_string(v));
        }
    }
    return c;
}
static void ok(PF &pf, bool r)
{
    if (r) return;
    pfs_note_str(pf.err.c_str());
    pfs_fail("an operation that can be done is done");
}
static void same(PF &pf, const Bytes &want)
{
    Bytes b;
    CHECK(pf.h("/test/test/c")->getAsBytes(b, pf.err), "the bytes of an element can be read");
    CHECK(b.size() == want.size(), "an element has the bytes of its parts");
    bool eq = true;
    for (size_t i = 0; i < b.size(); i++) eq &= b[i] == want[i];
    CHECK(eq, "a configuration restores every byte it was saved with");
}
static void fill(PF &pf, const Content &c)
{
    std::unique_ptr<CommandHandlerInterface> h(pf.createCommandHandler());
    std::vector<S> v = {"/test/test/c"};
    v.insert(v.end(), c.text.begin(), c.text.end());
    S o;
    bool r = h->process("setElementBytes", v, o);
    if (!r) pf.err = o;
    ok(pf, r);
}
extern "C" void harness_main()
{
    size_t n = (size_t)param("n", 64), m = (size_t)param("m", 64);
    Cfg c;
    c.components = "<ComponentType Name='C'><IntegerParameter Name='a' Size='8' Signed='false' ArrayLength='" + std::to_string(n) + "'/><ParameterBlock Name='b'><IntegerParameter Name='x' Size='16' Signed='false'/><IntegerParameter Name='y' Size='8' Signed='true' ArrayLength='" +
                   std::to_string(m) + "'/></ParameterBlock><IntegerParameter Name='z' Size='32' Signed='false'/></ComponentType>";
    c.instances = "<IntegerParameter Name='before' Size='8' Signed='false'/><Component Name='c' Type='C'/><IntegerParameter Name='after' Size='8' Signed='false'/>";
    total = n + 2 + m + 4;
    c.domains = "<ConfigurableDomain Name='d'><Configurations><Configuration Name='p'/><Configuration Name='q'/></Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/c'/></ConfigurableElements><Settings/></ConfigurableDomain>";
    PF pf(c);
    pf.upTuning();
    // where the bytes that take any value lie
    size_t at = 0;
    switch (choice("where", 5)) {
    case 0: at = 0; break;
    case 1: at = n - 1; break;
    case 2: at = n + 1; break;
    case 3: at = n + 2 + m - 1; break;
    case 4: at = total - 2; break;
    }
    Content p = content("p", 1, at), q = content("q", 99, at), r = content("r", 50, at);
    ok(pf, pf.set("/test/test/before", "171") && pf.set("/test/test/after", "205"));
    fill(pf, p);
    ok(pf, pf.saveConfiguration("d", "p", pf.err));
    fill(pf, q);
    ok(pf, pf.saveConfiguration("d", "q", pf.err));
    fill(pf, r);
    unsigned how = choice("how", 4);
    S text;
    switch (how) {
    case 0: break;
    case 1: // divided
        ok(pf, pf.split("d", "/test/test/c", pf.err));
        if (maybe("again")) ok(pf, pf.split("d", "/test/test/c/b", pf.err));
        break;
    case 2: // divided, then a part joined again from outside
        ok(pf, pf.split("d", "/test/test/c", pf.err) && pf.split("d", "/test/test/c/b", pf.err) && pf.addConfigurableElementToDomain("d", "/test/test/c", pf.err));
        break;
    case 3: // exported, lost and imported
        ok(pf, pf.exportDomainsXml(text, true, false, pf.err) && pf.deleteAllDomains(pf.err) && pf.importDomainsXml(text, true, false, pf.err));
        break;
    }
    CParameterMgrFullConnector::Results e;
    for (int i = 0; i < 3; i++) {
        ok(pf, pf.restoreConfiguration("d", i == 1 ? "q" : "p", e));
        same(pf, i == 1 ? q.b : p.b);
    }
    CHECK(pf.get("/test/test/before") == "171" && pf.get("/test/test/after") == "205", "a configuration leaves the other parameters alone");
    REACH("restored");
}
