// C30: the tree is the declared one: every element where it is declared, every parameter on its own bytes
#include "fw.hpp"
#include <CommandHandlerInterface.h>
using namespace fw;
struct Node
{
    S name, kind;
    unsigned size = 0;     // bytes
    bool param = true;
    unsigned array = 0;    // of a parameter
    bool bit = false;      // shares the bytes of its block
    unsigned pos = 0, width = 0;
    std::vector<Node> kids;
};
static Node leaf(const S &n, const S &k, unsigned size, unsigned array = 0)
{
    Node x;
    x.name = n, x.kind = k, x.size = size * (array ? array : 1), x.array = array;
    return x;
}
static Node group(const S &n, const S &k, std::vector<Node> kids)
{
    Node x;
    x.name = n, x.kind = k, x.param = false, x.kids = kids;
    for (auto &c : kids) x.size += c.size;
    return x;
}
static const char *const COMPONENTS =
    "<ComponentType Name='T0'><BooleanParameter Name='t'/><IntegerParameter Name='u' Size='32' Signed='true'/></ComponentType>"
    "<ComponentType Name='T1' Extends='T0'><IntegerParameter Name='v' Size='8' Signed='false'/></ComponentType>"
    "<ComponentType Name='T2'><Component Name='in' Type='T1'/><IntegerParameter Name='w' Size='16' Signed='false' ArrayLength='2'/></ComponentType>";
static std::vector<Node> kidsOf(unsigned t)
{
    const Node a = leaf("t", "BooleanParameter", 1), b = leaf("u", "IntegerParameter", 4), c = leaf("v", "IntegerParameter", 1);
    if (t == 0) return {a, b};
    if (t == 1) return {c, a, b};
    return {group("in", "ComponentInstance", kidsOf(1)), leaf("w", "IntegerParameter", 2, 2)};
}
static const unsigned KINDS = 20;
static S declare(unsigned k, const S &n, Node &o)
{
    auto in = [&](const char *size, const char *more = "") { return "<IntegerParameter Name='" + n + "' Size='" + size + "' Signed='true'" + more + "/>"; };
    const S I = "IntegerParameter";
    const char *const BLOCK = "<IntegerParameter Name='x' Size='8' Signed='false'/><IntegerParameter Name='y' Size='16' Signed='true'/>";
    const std::vector<Node> xy = {leaf("x", I, 1), leaf("y", I, 2)};
    auto bits = [&](unsigned size) {
        o = group(n, "BitParameterBlock", {});
        o.size = size / 8;
        unsigned p[3] = {0, size / 2 - 1, size - 1}, w[3] = {size / 2 - 2, 3, 1};
        S t = "<BitParameterBlock Name='" + n + "' Size='" + itoa64(size) + "'>";
        for (int i = 0; i < 3; i++) {
            Node b;
            b.name = S(1, (char)('i' + i)), b.kind = "BitParameter", b.bit = true, b.pos = p[i], b.width = w[i];
            o.kids.push_back(b);
            t += "<BitParameter Name='" + b.name + "' Pos='" + itoa64(b.pos) + "' Size='" + itoa64(b.width) + "'/>";
        }
        return t + "</BitParameterBlock>";
    };
    switch (k) {
    case 0: o = leaf(n, I, 1); return in("8");
    case 1: o = leaf(n, I, 2); return in("16");
    case 2: o = leaf(n, I, 4); return in("32");
    case 3: o = leaf(n, "BooleanParameter", 1); return "<BooleanParameter Name='" + n + "'/>";
    case 4: o = leaf(n, "StringParameter", 4); return "<StringParameter Name='" + n + "' MaxLength='3'/>";
    case 5: o = leaf(n, I, 2, 3); return in("16", " ArrayLength='3'");
    case 6: o = leaf(n, "FixedPointParameter", 2); return "<FixedPointParameter Name='" + n + "' Size='16' Integral='3' Fractional='4'/>";
    case 7: o = leaf(n, "EnumParameter", 1); return "<EnumParameter Name='" + n + "' Size='8'><ValuePair Literal='l' Numerical='1'/></EnumParameter>";
    case 8: o = leaf(n, "FloatingPointParameter", 4); return "<FloatingPointParameter Name='" + n + "' Size='32'/>";
    case 9: return bits(8);
    case 10: return bits(64);
    case 11: o = group(n, "ParameterBlock", xy); return "<ParameterBlock Name='" + n + "'>" + BLOCK + "</ParameterBlock>";
    case 12: o = group(n, "ParameterBlock", {group("0", "ParameterBlock", xy), group("1", "ParameterBlock", xy)}); return "<ParameterBlock Name='" + n + "' ArrayLength='2'>" + BLOCK + "</ParameterBlock>";
    case 13: o = group(n, "ComponentInstance", kidsOf(0)); return "<Component Name='" + n + "' Type='T0'/>";
    case 14: o = group(n, "ComponentInstance", kidsOf(1)); return "<Component Name='" + n + "' Type='T1'/>";
    case 15: o = group(n, "ComponentInstance", kidsOf(2)); return "<Component Name='" + n + "' Type='T2'/>";
    case 16: o = group(n, "ComponentInstance", {group("0", "ComponentInstance", kidsOf(1)), group("1", "ComponentInstance", kidsOf(1))}); return "<Component Name='" + n + "' Type='T1' ArrayLength='2'/>";
    case 17: o = leaf(n, "BooleanParameter", 1, 2); return "<BooleanParameter Name='" + n + "' ArrayLength='2'/>";
    case 18: o = group(n, "ParameterBlock", {}); return "<ParameterBlock Name='" + n + "'/>";
    default: { // a block of a component and a bit block
        Node b;
        S t = declare(9, "q", b);
        o = group(n, "ParameterBlock", {group("p", "ComponentInstance", kidsOf(0)), b});
        return "<ParameterBlock Name='" + n + "'><Component Name='p' Type='T0'/>" + t + "</ParameterBlock>";
    }
    }
}
struct At { const Node *n; S path; unsigned off; };
static void walk(const Node &n, const S &path, unsigned off, std::vector<At> &v)
{
    v.push_back(At{&n, path, off});
    for (auto &c : n.kids) {
        walk(c, path + "/" + c.name, off, v);
        if (!c.bit) off += c.size;
    }
}
typedef std::vector<uint8_t> Bytes;
static bool same(const Bytes &a, const Bytes &b, unsigned off)
{
    int ok = 1;
    for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[off + i];
    return ok;
}
// what is told about an element beside its place: description, unit, range, layout, literals
static void properties(bool adapted)
{
    S a = symText("a", 1), b = symText("b", 1); // digits
    ASSUME((a[0] >= '0') & (a[0] <= '9') & (b[0] >= '0') & (b[0] <= '9'));
    unsigned more = choice("more", 4); // attributes
    bool described = more & 1, unit = more == 1 || more == 2, array = more > 1;
    struct Told { S name, kind, decl, body; std::vector<S> lines; };
    std::vector<Told> t = {
        {"p", "IntegerParameter", "Size='8' Signed='true' Min='-1" + a + "' Max='1" + b + "'", "", {"Signed: yes", "Min: -1" + a, "Max: 1" + b, "Scalar size: 1 byte(s)"}},
        {"q", "IntegerParameter", "Size='8' Signed='false' Min='" + a + "' Max='20" + b + "'", "", {"Signed: no", "Min: " + a, "Max: 20" + b, "Scalar size: 1 byte(s)"}},
        {"r", "IntegerParameter", "Size='8' Signed='true'", "", {"Signed: yes", "Min: -128", "Max: 127"}},
        {"s", "IntegerParameter", "Size='16' Signed='true' Min='-30" + a + "' Max='300" + b + "'", "", {"Signed: yes", "Min: -30" + a, "Max: 300" + b, "Scalar size: 2 byte(s)"}},
        {"t", "IntegerParameter", "Size='16' Signed='false'", "", {"Signed: no", "Min: 0", "Max: 65535"}},
        {"u", "IntegerParameter", "Size='32' Signed='false' Max='400000000" + b + "'", "", {"Signed: no", "Min: 0", "Max: 400000000" + b, "Scalar size: 4 byte(s)"}},
        {"v", "IntegerParameter", "Size='32' Signed='true'", "", {"Signed: yes", "Min: -2147483648", "Max: 2147483647"}},
        {"w", "BooleanParameter", "", "", {"Scalar size: 1 byte(s)"}},
        {"x", "FixedPointParameter", "Size='16' Integral='" + S(1, (char)('0' + more % 3)) + "' Fractional='4'", "", {"Scalar size: 2 byte(s)"}},
        {"y", "EnumParameter", "Size='16'", "<ValuePair Literal='one' Numerical='" + a + "'/><ValuePair Literal='two' Numerical='-1" + b + "'/>", {"Literal: \"one\", Numerical: " + a, "Literal: \"two\", Numerical: -1" + b, "Scalar size: 2 byte(s)"}},
        {"z", "StringParameter", "MaxLength='1" + a + "'", "", {"Max length: 1" + a}},
        {"k", "BitParameterBlock", "Size='32'", "<BitParameter Name='m' Pos='1" + a + "' Size='4' Max='" + b + "'/>", {}},
        {"g", "ParameterBlock", "", "<BooleanParameter Name='m' Description='inner'/>", {}},
        {"c", "Component", "Type='T0'", "", {}},
    };
    t[8].lines.push_back("Notation: Q" + S(1, (char)('0' + more % 3)) + ".4");
    if (adapted) t = {
        {"l", "IntegerParameter", "Size='32' Signed='false'", "<LinearAdaptation Offset='-1" + a + "' SlopeNumerator='" + b + "5' SlopeDenominator='2'/>", {"Signed: no", "Adaptation:", "- Type: Linear", "- Offset: -1" + a}}};
    Cfg c;
    c.components = COMPONENTS;
    auto leafLike = [&](const Told &x) { return x.kind.find("Parameter") != S::npos && x.kind.find("Block") == S::npos; };
    for (auto &x : t) {
        S at = " Name='" + x.name + "' " + x.decl;
        if (described) at += " Description='about " + x.name + "'";
        if (unit && leafLike(x) && x.kind != "StringParameter") at += " Unit='dB'";
        if (array && leafLike(x) && x.kind != "StringParameter") at += " ArrayLength='2'";
        c.instances += "<" + x.kind + at + (x.body.empty() ? S("/>") : ">" + x.body + "</" + x.kind + ">");
    }
    PF first(c);
    first.upTuning();
    auto check = [&](PF &pf, bool again) {
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    auto told = [&](const S &path, const S &kind, const S &description, std::vector<S> want) {
        S o;
        CHECK(cmd->process("showProperties", {path}, o), "the properties of an element can be asked for");
        want.push_back("Kind: " + kind);
        if (!description.empty()) want.push_back("Description: " + description);
        else CHECK(o.find("Description") == S::npos, "no description is invented");
        S l;
        std::vector<S> got;
        for (char ch : o) {
            if (ch != '\n') { l += ch; continue; }
            while (!l.empty() && (l.back() == ' ')) l.pop_back();
            while (!l.empty() && (l[0] == ' ' || l[0] == '\t')) l.erase(0, 1);
            got.push_back(l), l.clear();
        }
        for (auto &w : want) {
            int any = 0;
            for (auto &g : got) if (g.size() == w.size() && g.compare(0, 3, w, 0, 3) == 0) any |= sameBytes(g, w);
            CHECK(any, "the properties of an element are those declared");
        }
        Handle h(pf, path);
        CHECK(h->getDescription() == description, "an element has its declared description");
    };
    for (auto &x : t) {
        bool plain = leafLike(x) && x.kind != "StringParameter";
        std::vector<S> lines = x.lines;
        if (unit && plain) lines.push_back("Unit: dB");
        if (array && plain) lines.push_back("Array length: 2");
        told("/test/test/" + x.name, x.kind == "Component" ? S(again ? "ParameterBlock" : "ComponentInstance") : x.kind, described ? "about " + x.name : S(), lines);
    }
    if (adapted) return;
    told("/test/test/k/m", "BitParameter", "", {"Bit pos: 1" + a, "Bit size: 4", "Max: " + b});
    told("/test/test/g/m", "BooleanParameter", "inner", {"Scalar size: 1 byte(s)"});
    };
    check(first, false);
    // the structure reported, used in its place, tells the same
    Handle h(first, "/test/test");
    S x, e;
    CHECK(h->getStructureAsXML(x, e), "the structure can be exported");
    size_t open = x.find(">", x.find("<Subsystem")), close = x.rfind("</Subsystem>");
    Cfg d;
    d.instances = x.substr(open + 1, close - open - 1);
    PF second(d);
    if (!second.up()) { pfs_note_str(second.err.c_str()); pfs_fail("the reported structure can be used"); }
    check(second, true);
    REACH("described");
}
extern "C" void harness_main()
{
    if (param("mode", 0) >= 3) { properties(param("mode", 0) == 4); return; }
    unsigned n = param("count", 2);
    Cfg c;
    c.components = COMPONENTS;
    std::vector<Node> kids;
    for (unsigned i = 0; i < n; i++) {
        Node o;
        int f = i == 0 ? (int)param("first", -1) : -1;
        c.instances += declare(f >= 0 ? (unsigned)f : choice(("kind" + itoa64(i)).c_str(), KINDS), S(1, (char)('a' + i)), o);
        kids.push_back(o);
    }
    Node sub = group("test", "Subsystem", kids);
    std::vector<At> all;
    walk(sub, "/test/test", 0, all);
    PF pf(c);
    pf.upTuning();
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    auto ask = [&](const char *k, std::vector<S> args) {
        S o;
        if (!cmd->process(k, args, o)) { pfs_note_str(o.c_str()); pfs_fail("a query succeeds"); }
        return o;
    };
    auto plain = [](S t) { // blank lines at either end do not matter
        while (!t.empty() && t.back() == '\n') t.pop_back();
        while (!t.empty() && t[0] == '\n') t.erase(0, 1);
        return t;
    };
    S e;
    if (param("mode", 0) == 0) { // what is said about every element
        for (auto &a : all) {
            Handle h(pf, a.path);
            CHECK(h->getName() == a.n->name, "an element has its declared name");
            CHECK(h->getPath() == a.path, "an element has its path");
            CHECK(h->getKind() == a.n->kind, "an element has its declared kind");
            CHECK(h->isParameter() == a.n->param, "exactly the parameters are parameters");
            if (a.n->param) CHECK(h->isArray() == (a.n->array != 0) && h->getArrayLength() == a.n->array, "a parameter has its declared length");
            CHECK(h->getSize() == a.n->size, "an element has the size of what it holds");
            CHECK(h->isRogue(), "without domains every element is rogue");
            std::vector<ElementHandle> k = h->getChildren();
            bool ok = k.size() == a.n->kids.size();
            for (size_t i = 0; ok && i < k.size(); i++) ok = k[i].getPath() == a.path + "/" + a.n->kids[i].name;
            CHECK(ok, "an element has its declared children in order");
            S sz = ask("getElementSize", {a.path});
            CHECK(sz.substr(0, sz.find(' ')) == itoa64(a.n->size), "the size is reported");
            S l = a.path + " [" + a.n->kind + "]\n", leaves;
            for (auto &k : a.n->kids) l += a.path + "/" + k.name + " [" + k.kind + "]\n";
            CHECK(plain(ask("listElements", {a.path})) == plain(l), "an element and its children are listed");
            for (auto &b : all) if (b.n->param && (b.path + "/").compare(0, a.path.size() + 1, a.path + "/") == 0) leaves += b.path + " [" + b.n->kind + "]\n";
            bool empty = false; // an empty block may or may not be seen as a leaf
            for (auto &b : all) empty |= !b.n->param && !b.n->bit && b.n->kids.empty();
            if (!empty) CHECK(plain(ask("listParameters", {a.path})) == plain(leaves), "the parameters of an element are listed");
        }
        REACH("described");
        return;
    }
    if (param("mode", 0) == 2) { // the structure reported describes the same tree
        Handle h(pf, "/test/test");
        S x;
        CHECK(h->getStructureAsXML(x, e), "the structure can be exported");
        observe("structure", x);
        size_t b = x.find("<Subsystem");
        b = x.find(">", b);
        if (x[b - 1] == '/') return;
        size_t z = x.rfind("</Subsystem>");
        Cfg d;
        d.instances = x.substr(b + 1, z - b - 1);
        PF again(d);
        if (!again.up()) { pfs_note_str(again.err.c_str()); pfs_fail("the reported structure can be used"); }
        for (auto &a : all) {
            Handle o(pf, a.path), n(again, a.path);
            CHECK(o->getSize() == n->getSize() && o->isParameter() == n->isParameter() && o->getChildren().size() == n->getChildren().size(), "the reported structure has the same elements");
            if (a.n->param) CHECK(o->getKind() == n->getKind() && o->getArrayLength() == n->getArrayLength(), "the reported structure has the same elements");
        }
        Handle g(again, "/test/test");
        S y;
        CHECK(g->getStructureAsXML(y, e) && x == y, "the reported structure reports itself");
        REACH("described");
        return;
    }
    // storage, with any content
    if (!sub.size) return;
    Handle root(pf, sub.name.empty() ? "" : "/test/test");
    Bytes whole(sub.size);
    pfs_sym_bytes(whole.data(), whole.size(), "bytes");
    CHECK(pf.tuning(false), "tuning mode can be switched off");
    CHECK(root->setAsBytes(whole, e), "the bytes of all can be set");
    for (auto &a : all) {
        Handle h(pf, a.path);
        Bytes b;
        CHECK(h->getAsBytes(b, e), "the bytes of an element can be read");
        CHECK(b.size() == a.n->size, "an element has the bytes of what it holds");
        CHECK(same(b, whole, a.off), "every element has its own bytes, in declared order");
    }
    for (auto &a : all) { // and its value is in them
        Handle h(pf, a.path);
        S name = a.n->name;
        if (a.n->bit) {
            unsigned size = 0;
            for (auto &p : all) if (p.path == a.path.substr(0, a.path.size() - 2)) size = p.n->size;
            uint64_t v = 0;
            for (unsigned i = 0; i < size; i++) v |= (uint64_t)whole[a.off + i] << 8 * i;
            v = v >> a.n->pos & ((1ull << a.n->width) - 1);
            uint32_t got;
            CHECK(h->getAsInteger(got, e), "a bit field can be read");
            CHECK(got == (uint32_t)v, "a bit field is read from its bits");
        } else if (a.n->kind == "IntegerParameter" && !a.n->array) {
            uint64_t v = 0;
            for (unsigned i = 0; i < a.n->size; i++) v |= (uint64_t)whole[a.off + i] << 8 * i;
            bool isUnsigned = a.n->name == "v" || a.n->name == "x";
            if (isUnsigned) {
                uint32_t got;
                CHECK(h->getAsInteger(got, e), "an integer can be read");
                CHECK(got == (uint32_t)v, "an integer is read from its bytes");
            } else {
                int32_t got;
                unsigned up = 64 - 8 * a.n->size;
                CHECK(h->getAsSignedInteger(got, e), "an integer can be read");
                CHECK(got == (int32_t)((int64_t)(v << up) >> up), "an integer is read from its bytes");
            }
        }
    }
    REACH("read");
    const At &t = all[choice("target", (unsigned)all.size())];
    if (!t.n->size) return;
    Bytes fresh(t.n->size);
    pfs_sym_bytes(fresh.data(), fresh.size(), "fresh");
    Handle h(pf, t.path);
    CHECK(h->setAsBytes(fresh, e), "the bytes of an element can be set");
    for (unsigned i = 0; i < fresh.size(); i++) whole[t.off + i] = fresh[i];
    Bytes b;
    CHECK(root->getAsBytes(b, e) && b.size() == whole.size() && same(b, whole, 0), "exactly the bytes of the element change");
    REACH("written");
}
