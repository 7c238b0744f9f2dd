// C23: paths one or two characters away from an existing one, wherever a path is taken
#include "dom.hpp"
#include <cstring>
#include <CommandHandlerInterface.h>
#include <ParameterHandle.h>
using namespace fw;
struct Node { const char *path; int at, n; bool leaf; int array; const char *text; }; // where its bytes are
static const Node TREE[] = {
    {"/test", 0, 14, false, 0, ""}, {"/test/test", 0, 14, false, 0, ""}, {"/test/test/a", 0, 1, true, 0, "11"}, {"/test/test/ab", 1, 1, true, 0, "12"},
    {"/test/test/v", 2, 3, true, 3, "13 14 15"}, {"/test/test/B", 5, 2, false, 0, ""}, {"/test/test/B/0", 5, 1, false, 0, ""}, {"/test/test/B/0/a", 5, 1, true, 0, "16"},
    {"/test/test/B/1", 6, 1, false, 0, ""}, {"/test/test/B/1/a", 6, 1, true, 0, "17"}, {"/test/test/y", 7, 1, false, 0, ""}, {"/test/test/y/l", 7, 1, true, 0, "4"},
    {"/test/test/y/h", 7, 1, true, 0, "6"}, {"/test/test/test", 8, 1, false, 0, ""}, {"/test/test/test/a", 8, 1, true, 0, "19"}, {"/test/test/s", 9, 4, true, 0, "abc"},
    {"/test/test/t", 13, 1, false, 0, ""}, {"/test/test/t/0", 13, 1, true, 0, "20"}};
static const int NODES = sizeof TREE / sizeof *TREE;
static const uint8_t BYTES[14] = {11, 12, 13, 14, 15, 16, 17, 0x34, 19, 'a', 'b', 'c', 0, 20};
enum { NONE = -1, ROOT = -2 };
struct Named { int node = NONE, index = -1; bool loose = false; }; // loose: written in a way that may be refused
static bool spelled(const S &p, size_t from, size_t n, const char *w)
{
    if (strlen(w) != n) return false;
    for (size_t i = 0; i < n; i++) if (p[from + i] != w[i]) return false;
    return true;
}
static Named resolve(const S &p)
{
    Named r;
    if (p.empty() || p[0] != '/') return r;
    S at;
    r.node = ROOT;
    for (size_t i = 1; i <= p.size();) {
        size_t e = i;
        while (e < p.size() && p[e] != '/') e++;
        if (e == i) r.loose |= p.size() > 1;
        else if (r.index >= 0) { r.node = NONE; return r; }
        else {
            int next = NONE;
            for (int k = 0; k < NODES && next == NONE; k++) {
                S q = TREE[k].path;
                size_t s = q.rfind('/');
                if (q.substr(0, s) == at && spelled(p, i, e - i, q.substr(s + 1).c_str())) next = k;
            }
            if (next == NONE && r.node >= 0 && TREE[r.node].array) { // an index
                bool digits = true, perhaps = true;
                for (size_t k = i; k < e; k++) {
                    char c = p[k];
                    digits = digits & (c >= '0') & (c <= '9');
                    perhaps = perhaps & (((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) | (c == 'x') | (c == 'X') | (c == '+') | (c == '-') | (c == ' ') | ((c >= 9) & (c <= 13)));
                }
                if (!perhaps) { r.node = NONE; return r; }
                if (!digits) { r.index = 99; r.loose = true; }
                else {
                    unsigned v = 0;
                    for (size_t k = i; k < e; k++) v = v * 10 + (unsigned)(p[k] - '0');
                    if (v >= (unsigned)TREE[r.node].array) { r.node = NONE; return r; }
                    r.index = v == 0 ? 0 : v == 1 ? 1 : 2;
                    r.loose |= e - i > 1;
                }
            } else if (next == NONE) { r.node = NONE; return r; }
            else { r.node = next; at = TREE[next].path; }
        }
        i = e + 1;
    }
    return r;
}
static bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static S text(const char *n, unsigned len)
{
    S s = symText(n, len);
    for (char c : s) ASSUME(c != 0);
    return s;
}
extern "C" void harness_main()
{
    Cfg c;
    c.components = "<ComponentType Name='T'>" + intDef("a") + "</ComponentType>";
    c.instances = intDef("a") + intDef("ab") + intDef("v", " ArrayLength='3'") + "<ParameterBlock Name='B' ArrayLength='2'>" + intDef("a") + "</ParameterBlock><BitParameterBlock Name='y' Size='8'>"
        "<BitParameter Name='l' Pos='0' Size='4'/><BitParameter Name='h' Pos='4' Size='3' Max='6'/></BitParameterBlock><Component Name='test' Type='T'/><StringParameter Name='s' MaxLength='3'/><ParameterBlock Name='t'>" + intDef("0") + "</ParameterBlock>";
    PF pf(c);
    pf.upTuning();
    S e, o, w;
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    auto bytes = [&] { std::vector<uint8_t> b; Handle h(pf, "/test"); CHECK(h->getAsBytes(b, e), "the system can be read"); return S(b.begin(), b.end()); };
    V a{"/test/test"};
    uint8_t now[14];
    memcpy(now, BYTES, 14);
    now[7] = 0x64;
    for (uint8_t b : now) a.push_back(std::to_string(b));
    CHECK(cmd->process("setElementBytes", a, o), "the system can be set");
    S before((const char *)now, 14);
    CHECK(bytes() == before, "the system has the bytes set");
    // the path
    unsigned mode = (unsigned)param("mode", 0), from = (unsigned)param("from", 0), count = (unsigned)param("count", 99);
    S p;
    if (mode == 4) p = text("path", choice("length", 1 + (unsigned)param("len", 4)));
    else {
        static const char *const START[] = {"/test/test/v/1", "/test/test/B/1/a", "/test/test/y/h", "/test/test/test/a", "/test/test/ab", "/test/test/t/0", "/test/test", "/"};
        p = START[from + choice("start", count > 8 - from ? 8 - from : count)];
        if (mode == 5) p[choice("first", (unsigned)p.size())] = text("other", 1)[0];
        if (mode == 0 || mode == 5) p[choice("at", (unsigned)p.size())] = text("character", 1)[0];
        else if (mode == 1) p.insert(choice("at", (unsigned)p.size() + 1), text("character", 1));
        else if (mode == 2) p.erase(choice("at", (unsigned)p.size()), 1 + choice("characters", 2));
        else p += text("more", (unsigned)param("len", 2));
    }
    static const char *const ASK[] = {"getElementSize", "showProperties", "getElementBytes", "getElementXML", "getElementStructureXML", "dumpElement", "listAssociatedDomains", "listBelongingDomains", "listElements", "listParameters"};
    const unsigned ASKS = sizeof ASK / sizeof *ASK;
    unsigned use = choice("use", 12 + ASKS);
    if (use == 3 || use == 5 || use == 6 || use == 7 || use > 9) { // a command: blanks around its arguments do not count
        while (!p.empty() && blank(p.back())) p.pop_back();
        while (!p.empty() && blank(p[0])) p.erase(0, 1);
    }
    Named r = resolve(p);
    const Node *n = r.node >= 0 ? &TREE[r.node] : nullptr;
    bool element = n && r.index < 0;
    S canon = n ? n->path : "";
    // what is done with it
    auto verdict = [&](bool ok, bool done, const char *why) {
        CHECK(!done || ok, "a path that names nothing is refused");
        CHECK(done || !ok || r.loose, why);
        if (done) REACH("named");
        else { REACH("refused"); CHECK(sameBytes(bytes(), before), "a path refused changes nothing"); }
        return done;
    };
    o.clear(), e.clear();
    switch (use) {
    case 0: {
        std::unique_ptr<ElementHandle> h(pf.createElementHandle(p, e));
        if (p == "/") { CHECK(h && h->getPath() == "/test", "the root is the system"); break; }
        if (verdict(element, !!h, "an element can be opened by its path")) CHECK(h->getPath() == canon, "the element opened is the one named");
        else CHECK(!e.empty(), "a path refused is explained");
        break;
    }
    case 1: {
        std::unique_ptr<CParameterHandle> h(pf.createParameterHandle(p, e));
        if (verdict(element && n->leaf, !!h, "a parameter can be opened by its path")) CHECK(h->getPath() == canon, "the parameter opened is the one named");
        else CHECK(!e.empty(), "a path refused is explained");
        break;
    }
    case 2: case 3: { // one value is read
        bool done = use == 2 ? pf.get(p, o) : cmd->process("getParameter", {p}, o);
        if (verdict(n && n->leaf, done, "a parameter can be read by its path")) {
            S want = n->text;
            if (r.index >= 0 && r.index < 3) want = want.substr(r.index * 3, 2);
            if (r.index < 3) CHECK(o == want, "the value read is that of the parameter named");
        }
        break;
    }
    case 4: case 5: { // one value is written
        S v = n && n->array && r.index < 0 ? "1 2 3" : "1";
        if (use == 4) w = v;
        bool done = use == 4 ? pf.set(p, w) : cmd->process("setParameter", {p, v}, o);
        if (verdict(n && n->leaf, done, "a parameter can be written by its path")) {
            S want = before;
            if (canon == "/test/test/s") want[9] = '1', want[10] = 0;
            else if (canon == "/test/test/y/l") want[7] = 0x61;
            else if (canon == "/test/test/y/h") want[7] = 0x14;
            else if (!n->array) want[n->at] = 1;
            else if (r.index < 0) want[2] = 1, want[3] = 2, want[4] = 3;
            else if (r.index < 3) want[2 + r.index] = 1;
            if (r.index < 3) {
                S got = bytes();
                if (canon == "/test/test/s") got[11] = want[11] = got[12] = want[12] = 0;
                CHECK(sameBytes(got, want), "the value written is that of the parameter named, and only it");
            }
        }
        break;
    }
    case 6: {
        bool done = cmd->process("setElementBytes", {p, "7"}, o);
        if (verdict(element && n->n == 1 && !(n->leaf && n->path[11] == 'y'), done, "an element can be written by its path")) {
            S want = before;
            want[n->at] = 7;
            CHECK(sameBytes(bytes(), want), "the bytes written are those of the element named, and only them");
        }
        break;
    }
    case 7: { // a domain
        CHECK(pf.createDomain("D", e), "a domain can be created");
        bool done = cmd->process("addElement", {"D", p}, o);
        verdict(element, done, "an element can be added to a domain by its path");
        o.clear();
        CHECK(cmd->process("listDomainElements", {"D"}, o), "the elements of a domain can be listed");
        while (!o.empty() && o.back() == '\n') o.pop_back();
        CHECK(o == (done ? canon : S()), "the element added is the one named");
        break;
    }
    case 8: { // in a document
        for (char ch : p) ASSUME((ch >= ' ') & (ch < 127) & (ch != '<') & (ch != '&') & (ch != '"') & (ch != '\''));
        Dom d;
        d.name = "D";
        d.confs = {{"c", always(), {}}};
        d.withSettings = false;
        d.elements = {p};
        bool done = pf.importDomainsXml(domainsText(d.xml()), false, false, e);
        if (verdict(element, done, "a document names elements by their path")) {
            o.clear();
        CHECK(cmd->process("listDomainElements", {"D"}, o), "the elements of a domain can be listed");
            CHECK(o == canon || o == canon + "\n", "the element of the domain is the one named");
        }
        break;
    }
    case 9: case 10: { // the value a configuration has
        CHECK(pf.createDomain("D", e) && pf.addConfigurableElementToDomain("D", "/test/test", e) && pf.createConfiguration("D", "c", e) && pf.saveConfiguration("D", "c", e), "a configuration can be made");
        r.loose |= r.index >= 0; // single values of an array are out of reach there
        bool done = use == 9 ? pf.accessConfigurationValue("D", "c", p, o, false, e) : cmd->process("getConfigurationParameter", {"D", "c", p}, o);
        if (verdict(n && n->leaf, done, "a value of a configuration can be read by its path")) {
            S want = n->text;
            if (r.index >= 0 && r.index < 3) want = want.substr(r.index * 3, 2);
            if (r.index < 3) CHECK(o == want, "the value read is that of the parameter named");
        }
        break;
    }
    case 11: { // out of a domain
        CHECK(pf.createDomain("D", e), "a domain can be created");
        V in{"/test/test/B/1", "/test/test/a", "/test/test/v"}, left;
        for (auto &x : in) CHECK(pf.addConfigurableElementToDomain("D", x, e), "an element can be added");
        bool done = cmd->process("removeElement", {"D", p}, o), there = false;
        for (auto &x : in)
            if (element && x == canon) there = true;
            else left.push_back(x);
        verdict(there, done, "an element can be removed from a domain by its path");
        if (!done && there) left = in;
        o.clear();
        CHECK(cmd->process("listDomainElements", {"D"}, o), "the elements of a domain can be listed");
        S want;
        for (auto &x : left) want += x + "\n";
        CHECK(o == want || o + "\n" == want, "the element removed is the one named");
        break;
    }
    default: {
        const char *what = ASK[use - 12];
        bool done = cmd->process(what, {p}, o);
        if (r.node == ROOT && use - 12 >= 8) { CHECK(done, "the root can be listed"); break; }
        if (verdict(element, done, "an element is told about by its path")) {
            CHECK(cmd->process(what, {canon}, w), "an element is told about by its own path");
            CHECK(o == w, "what is told is about the element named");
        }
        break;
    }
    }
    REACH("done");
}
