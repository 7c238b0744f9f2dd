// C23: what a path designates: every path text of some length, in every place a path is taken
#include "fw.hpp"
#include <CommandHandlerInterface.h>
using namespace fw;
struct El { const char *path, *value; unsigned size; bool param; };
static const El ELS[] = {{"s", nullptr, 15, false}, {"s/t", nullptr, 11, false}, {"s/t/p", "7", 1, true}, {"s/t/v", "1 2 3", 6, true}, {"s/t/k", nullptr, 3, false}, {"s/t/k/p", "9", 1, true}, {"s/t/k/b", nullptr, 2, false},
                         {"s/t/k/b/l", "5", 2, true}, {"s/t/w", nullptr, 1, false}, {"s/t/w/0", nullptr, 1, false}, {"s/t/w/0/p", "6", 1, true}, {"s/u", nullptr, 4, false}, {"s/u/p", "-3", 4, true}};
static const unsigned N = sizeof ELS / sizeof *ELS;
extern "C" void harness_main()
{
    static const char *IN[2] = {"<IntegerParameter Name='p' Size='8' Signed='false'/><IntegerParameter Name='v' Size='16' Signed='true' ArrayLength='3'/><ParameterBlock Name='k'><IntegerParameter Name='p' Size='8' Signed='false'/>"
        "<BitParameterBlock Name='b' Size='16'><BitParameter Name='l' Pos='3' Size='4'/></BitParameterBlock></ParameterBlock><ParameterBlock Name='w' ArrayLength='1'><IntegerParameter Name='p' Size='8' Signed='false'/></ParameterBlock>",
        "<IntegerParameter Name='p' Size='32' Signed='true'/>"};
    Cfg c;
    c.structure = "<?xml version='1.0' encoding='UTF-8'?><SystemClass Name='s'>";
    for (int i = 0; i < 2; i++) c.structure += S("<Subsystem Name='") + (i ? 'u' : 't') + "' Type='Virtual'><ComponentLibrary/><InstanceDefinition>" + IN[i] + "</InstanceDefinition></Subsystem>";
    c.structure += "</SystemClass>";
    c.raw = "<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration SystemClassName='s' TuningAllowed='true'><SubsystemPlugins/><StructureDescriptionFileLocation Path='" + path("structure.xml") + "'/></ParameterFrameworkConfiguration>";
    c.withDomains = false;
    PF pf(c);
    pf.upTuning();
    S e;
    for (auto &x : ELS) if (x.value) CHECK(pf.set(S("/") + x.path, x.value), "a parameter is set by its path");
    unsigned api = param("api", -1) < 0 ? choice("api", 9) : (unsigned)param("api");
    CHECK(pf.createDomain("D", e) && pf.addConfigurableElementToDomain("D", "/s/t", e) && pf.createConfiguration("D", "c", e) && pf.createDomain("E", e), "domains can be made");
    S p = symText("path", (size_t)param("len", 6));
    if (param("prefix", 0)) p = S(param("prefix") == 1 ? "/s/t/" : param("prefix") == 2 ? "/s/t/k/b" : "/s/t/v/") + p;
    // arguments of commands are stripped of the white space around them
    S given = p;
    if (api == 3 || api == 4 || api == 5 || api == 8) {
        auto ws = [](char ch) { return (ch == ' ') | ((ch >= 9) & (ch <= 13)); };
        while (!p.empty() && ws(p.back())) p.pop_back();
        while (!p.empty() && ws(p[0])) p.erase(0, 1);
    }
    // what it designates
    bool rooted = !p.empty() && p[0] == '/';
    std::vector<S> items;
    S cur;
    for (size_t i = 0; i <= p.size(); i++) {
        if (i < p.size() && p[i] != '/') { cur += p[i]; continue; }
        if (!cur.empty()) items.push_back(cur);
        cur.clear();
    }
    auto find = [&](size_t n) -> const El * {
        S t;
        for (size_t i = 0; i < n; i++) t += (i ? "/" : "") + items[i];
        for (auto &x : ELS) if (t == x.path) return &x;
        return nullptr;
    };
    const El *el = rooted ? find(items.size()) : nullptr;
    // an array may be followed by an index
    int index = -1;
    if (rooted && !el && items.size() == 4) {
        const El *v = find(3);
        if (v == ELS + 3) {
            const S &t = items[3];
            bool digits = true;
            for (char ch : t) {
                ASSUME((ch != 'x') & (ch != 'X') & (ch != '+')); // other notations of numbers: C11
                if (ch < '0' || ch > '9') digits = false;
            }
            if (digits) {
                int n = 0;
                for (char ch : t) n = n < 1000 ? n * 10 + (ch - '0') : n;
                for (int i = 0; i < 3; i++) if (n == i) index = i;
            }
        }
    }
    S out;
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    bool got, want = el != nullptr;
    switch (api) {
    case 0: // value by path
        want = (el && el->param) || index >= 0;
        got = pf.accessParameterValue(p, out, false, e);
        if (got && want) CHECK(out == (index >= 0 ? S(1, (char)('1' + index)) : S(el->value)), "the value is that of the parameter at the path");
        break;
    case 1: // setting it changes that parameter and no other
        want = (el && el->param) || index >= 0;
        out = "4";
        got = pf.accessParameterValue(p, out, true, e);
        for (auto &x : ELS) {
            if (!x.value) continue;
            S v = x.value;
            if (want && el == &x) v = x.path == S("s/t/v") ? "4 2 3" : "4";
            if (index >= 0 && x.path == S("s/t/v")) v[2 * index] = '4';
            CHECK(pf.get(S("/") + x.path) == v, "setting by path changes the parameter at the path and nothing else");
        }
        break;
    case 2: { // handle ("/" being the whole system)
        if (p.size() == 1 && p[0] == '/') el = ELS, want = true;
        std::unique_ptr<ElementHandle> h(pf.createElementHandle(p, e));
        got = h != nullptr;
        if (got && want) CHECK(h->getPath() == S("/") + el->path && (h->getSize() == el->size || el == ELS + 7) && h->isParameter() == el->param, "a handle is that of the element at the path");
        break;
    }
    case 3:
        got = cmd->process("getElementSize", {given}, out);
        if (got && want) CHECK(out == std::to_string(el->size) + " byte(s)\n" || out.find(std::to_string(el->size)) == 0 || el == ELS + 7, "the size is that of the element at the path");
        break;
    case 4: got = cmd->process("dumpElement", {given}, out); break;
    case 5: // listing (without items: the root)
        if (rooted && items.empty()) el = ELS, want = true;
        got = cmd->process("listElements", {given}, out);
        if (got && want)
            for (auto &x : ELS) {
                S q = x.path;
                size_t slash = q.rfind('/');
                bool child = slash != S::npos && q.substr(0, slash) == el->path;
                CHECK((out.find("/" + q + " [") != S::npos || out.find("/" + q + "\n") != S::npos) == (child || &x == el) || (&x == el), "exactly the elements right below the one at the path are listed");
            }
        break;
    case 6: // adding to a domain
        want = want && el != ELS;
        got = pf.addConfigurableElementToDomain("E", p, e);
        if (el == ELS) return; // (the whole system may be added: C18)
        if (got && want) { CHECK(cmd->process("listDomainElements", {"E"}, out) && out == S("/") + el->path + "\n", "the element added is the one at the path"); }
        break;
    case 7: // value in a configuration: the elements below the domain's
        want = el && el->param && el != ELS + N - 1;
        got = pf.accessConfigurationValue("D", "c", p, out, false, e);
        if (got && want) CHECK(out == el->value, "the value is that of the parameter at the path");
        break;
    default: // ownership
        got = cmd->process("listBelongingDomains", {given}, out);
        if (got && want) CHECK((out.find("D") != S::npos) == (el != ELS && el < ELS + N - 2), "the owner is that of the element at the path");
        break;
    }
    CHECK(got == want, "a path is accepted exactly when it designates something suitable");
    if (got) REACH("found");
    else {
        REACH("not-found");
        if (api < 3 || api > 5) CHECK(!(api == 8 || api == 4 ? out : e).empty(), "a refusal is explained");
    }
}
