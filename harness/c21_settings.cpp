// C21: settings of an element as an XML document and as bytes: round trips in every output format, refused documents, domains in raw format
#include "dom.hpp"
using namespace fw;
typedef std::vector<uint8_t> B;
static const char *SUB = "/test/test", *BLOCK = "/test/test/k";
struct Leaf { const char *path; unsigned size; };
enum { I, BO, E, X, F, ST, V0, C0, LO, HI, E32, NL };
static const Leaf LF[NL] = {{"/test/test/k/i", 1}, {"/test/test/k/b", 1}, {"/test/test/k/e", 1}, {"/test/test/k/x", 2}, {"/test/test/k/f", 4}, {"/test/test/k/s", 6},
                            {"/test/test/k/v", 6}, {"/test/test/k/w/1/c", 2}, {"/test/test/k/bits/lo", 2}, {"/test/test/k/bits/hi", 2}, {"/test/test/k/g", 4}};
static S err;
static B bytes(PF &pf, const S &p)
{
    Handle h(pf, p);
    B b;
    CHECK(h->getAsBytes(b, err) && b.size() == h->getSize(), "the bytes of an element can be read, as many as its size");
    return b;
}
static void put(PF &pf, const S &p, const B &b)
{
    Handle h(pf, p);
    if (!h->setAsBytes(b, err)) { pfs_note_str(err.c_str()); pfs_fail("bytes of the right number can be set on a rogue element"); }
}
// what follows the end of a string is not part of its value
static B canon(const S &p, B b)
{
    size_t at = p == SUB || p == "/test" ? 10 : p == BLOCK ? 9 : p == LF[ST].path ? 0 : 999;
    if (at < 999)
        for (size_t i = at, z = 0; i < at + 6; i++) { if (z) b[i] = 0; if (!z && b[i] == 0) z = 1; }
    return b;
}
static int same(const B &a, const B &b)
{
    if (a.size() != b.size()) return 0;
    int ok = 1;
    for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
    return ok;
}
static B le(uint64_t v, unsigned n) { B b; for (unsigned i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); return b; }
// every valid stored value of a leaf
static B anyValue(PF &pf, int l, unsigned format)
{
    switch (l) {
    case I: { int64_t v = (int64_t)sym("v", 64); ASSUME((v >= -100) & (v <= 100)); return le((uint64_t)v, 1); }
    case BO: return le(sym("v", 1), 1);
    case E: { // (the raw text of a negative literal: see known_findings.json)
        static const int N[] = {3, 100, -2};
        if (param("negative", 0)) return le(0xfe, 1);
        return le((uint64_t)(int64_t)N[choice("v", format && param("mode", 0) ? 2 : 3)], 1); }
    case X: return le(sym("v", 8) << 8, 2);
    case F: {
        // the real text of a number has six significant digits (C04)
        static const float N[] = {-1000, 1000, 0.5f, -2.25f, 123.456f, -0.001f, 1e-20f, 0, -999.999f};
        if (format == 0) return le(bitsOf(N[choice("v", 9)]), 4);
        uint32_t u = (uint32_t)sym("v", 32);
        float f = asFloat(u);
        ASSUME((f >= -1000) & (f <= 1000));
        return le(u, 4);
    }
    case ST: {
        unsigned n = choice("length", 6);
        S t = symText("v", n);
        B b(6, 0);
        for (unsigned i = 0; i < n; i++) { ASSUME((t[i] > ' ') & (t[i] <= '~') & (t[i] != '<') & (t[i] != '>') & (t[i] != '&')); b[i] = (uint8_t)t[i]; }
        return b;
    }
    case V0: {
        B b;
        for (int i = 0; i < 3; i++) {
            int64_t v = (int64_t)sym((S("v") + (char)('0' + i)).c_str(), 64);
            ASSUME((v >= (i ? 0 : -99)) & (v <= 99));
            B x = le((uint64_t)v, 2);
            b.insert(b.end(), x.begin(), x.end());
        }
        return b;
    }
    case C0: return le(sym("v", 16), 2);
    case LO: case HI: { // the two share a block of 16 bits
        B b = bytes(pf, "/test/test/k/bits");
        uint64_t w = b[0] | (uint64_t)b[1] << 8, m = l == LO ? 0x1f : 0x3fe0;
        return le((w & ~m) | (sym("v", 16) & m), 2);
    }
    }
    static const int64_t N[] = {-2147483648ll, -7, 0, 2147483647};
    if (format && param("mode", 0) == 1) return le((uint64_t)N[2 + choice("v", 2)], 4);
    return le((uint64_t)N[choice("v", 4)], 4);
}
static S where(int l) { return l == LO || l == HI ? S("/test/test/k/bits") : S(LF[l].path); }
static S target(int l)
{
    unsigned t = param("target", -1) < 0 ? choice("target", 4) : (unsigned)param("target");
    return t == 0 ? S(LF[l].path) : t == 1 ? BLOCK : t == 2 ? SUB : S("/test");
}
static void format(PF &pf, unsigned f) { pf.setValueSpace(f != 0); pf.setOutputRawFormat(f == 2); }
static void others(PF &pf, bool two) // two distinct valid states
{
    static const char *A[2][14] = {{"7", "12", "1", "top", "1.5", "2.5", "one", "1 2 3", "40", "50", "3", "100", "deep", "-5"}, {"9", "-99", "0", "low", "-2.25", "-77", "other", "-4 5 -6", "41", "51", "30", "2", "high", "500"}};
    static const char *N[14] = {"/test/test/n", LF[I].path, LF[BO].path, LF[E].path, LF[X].path, LF[F].path, LF[ST].path, LF[V0].path, "/test/test/k/w/0/c", LF[C0].path, LF[LO].path, LF[HI].path, LF[E32].path, "/test/test/z"};
    for (int i = 0; i < 14; i++) if (!pf.set(N[i], A[two][i])) { pfs_note_str(pf.err.c_str()); pfs_fail("a valid value is accepted"); }
}
static void trip(PF &pf, bool cross)
{
    unsigned f = param("format", -1) < 0 ? choice("format", 3) : (unsigned)param("format"), back = cross ? choice("back", 3) : f;
    int l = (int)param("leaf", -1);
    if (l < 0) l = (int)choice("leaf", NL);
    others(pf, false);
    put(pf, where(l), anyValue(pf, l, f));
    S T = target(l);
    B before = bytes(pf, SUB), mine = bytes(pf, T);
    format(pf, f);
    S doc;
    { Handle h(pf, T); if (!h->getAsXML(doc, err)) { pfs_note_str(err.c_str()); pfs_fail("settings can be read as a document"); } }
    observe("document", doc);
    CHECK(same(bytes(pf, SUB), before), "reading a document changes nothing");
    format(pf, 0);
    others(pf, true);
    B rest = bytes(pf, SUB);
    format(pf, back);
    { Handle h(pf, T); if (!h->setAsXML(doc, err)) { pfs_note_str(err.c_str()); pfs_fail("the document of an element is accepted by it"); } }
    B after = bytes(pf, SUB);
    CHECK(same(canon(T, bytes(pf, T)), canon(T, mine)), "a document brings back the settings it was made of");
    REACH("restored");
    if (T == SUB || T == "/test") return;
    size_t at = T == BLOCK ? 1 : 0, n = mine.size();
    static const size_t AT[NL] = {1, 2, 3, 4, 6, 10, 16, 24, 26, 26, 28};
    if (T != BLOCK) at = AT[l], n = LF[l].size;
    int out = 1;
    for (size_t i = 0; i < after.size(); i++) out &= (i >= at && i < at + n) ? 1 : after[i] == rest[i];
    CHECK(out, "a document changes its element only");
}
static void domainTrip(PF &pf)
{
    unsigned f = param("format", -1) < 0 ? choice("format", 3) : (unsigned)param("format");
    int l = (int)param("leaf", -1);
    if (l < 0) l = (int)choice("leaf", NL);
    others(pf, false);
    put(pf, where(l), anyValue(pf, l, f));
    B mine = bytes(pf, BLOCK);
    CHECK(pf.createDomain("D", err) && pf.addConfigurableElementToDomain("D", BLOCK, err) && pf.createConfiguration("D", "c", err), "a domain can be made");
    format(pf, f);
    S doc;
    bool one = maybe("single");
    CHECK(one ? pf.exportSingleDomainXml(doc, "D", true, false, err) : pf.exportDomainsXml(doc, true, false, err), "a domain can be exported");
    observe("document", doc);
    format(pf, param("back", 0));
    CHECK(pf.deleteAllDomains(err), "domains can be deleted");
    format(pf, 0);
    others(pf, true);
    format(pf, param("back", 0));
    if (!(one ? pf.importSingleDomainXml(doc, false, true, false, err) : pf.importDomainsXml(doc, true, false, err))) { pfs_note_str(err.c_str()); pfs_fail("an exported domain is accepted"); }
    CParameterMgrFullConnector::Results r;
    CHECK(pf.restoreConfiguration("D", "c", r), "a configuration can be restored");
    CHECK(same(canon(BLOCK, bytes(pf, BLOCK)), canon(BLOCK, mine)), "an exported domain brings back the settings it was made of");
    REACH("restored");
}
static void rep(S &t, const S &a, const S &b)
{
    size_t p = t.find(a);
    if (p == S::npos) { pfs_note_str(t.c_str()); pfs_fail("harness: the text to replace is there"); }
    t.replace(p, a.size(), b);
}
static void faulty(PF &pf)
{
    others(pf, false);
    S T = maybe("whole") ? SUB : BLOCK, doc;
    { Handle h(pf, T); CHECK(h->getAsXML(doc, err), "settings can be read as a document"); }
    others(pf, true);
    B before = bytes(pf, SUB);
    bool ok = false;
    S v;
    switch (choice("fault", 14)) {
    case 0: v = symText("byte", 1); ASSUME((v[0] > ' ') & (v[0] <= '~') & (v[0] != '<') & (v[0] != '>') & (v[0] != '&')); rep(doc, ">12<", ">1" + v + "<"); ok = (v[0] >= '0') & (v[0] <= '9'); break;
    case 1: v = symText("byte", 1); ASSUME((v[0] >= '0') & (v[0] <= '9')); rep(doc, ">100<", ">25" + v + "<"); ok = true; break; // nine bits: up to 511
    case 2: rep(doc, ">100<", ">512<"); break;
    case 3: rep(doc, ">top<", ">nosuch<"); break;
    case 4: rep(doc, ">one<", ">toolong<"); break;
    case 5: v = symText("byte", 2); ASSUME((v[0] >= '0') & (v[0] <= '9') & (v[1] >= '0') & (v[1] <= '9')); rep(doc, ">1 2 3<", ">1 2 327" + v + "<"); ok = (v[0] < '6') | ((v[0] == '6') & (v[1] <= '7')); break;
    case 6: rep(doc, ">1 2 3<", ">1 2 3 4<"); break;
    case 7: rep(doc, "<BooleanParameter Name=\"b\">1</BooleanParameter>", ""); break;
    case 8: rep(doc, "<BooleanParameter Name=\"b\">", "<BooleanParameter Name=\"bb\">"); break;
    case 9: rep(doc, "<BooleanParameter Name=\"b\">1</BooleanParameter>", "<IntegerParameter Name=\"b\">1</IntegerParameter>"); break;
    case 10: rep(doc, "</ParameterBlock>", "<BooleanParameter Name=\"b\">1</BooleanParameter></ParameterBlock>"); break;
    case 11: doc.resize(doc.size() - 8); break;
    case 12: rep(doc, T == BLOCK ? "Name=\"k\"" : "Name=\"test\"", "Name=\"kk\""); break;
    case 13: { Handle h(pf, T == BLOCK ? SUB : BLOCK); CHECK(h->getAsXML(doc, err), "settings can be read as a document"); break; }
    }
    observe("document", doc);
    err.clear();
    Handle h(pf, T);
    bool got = h->setAsXML(doc, err);
    CHECK(got == ok, "a document is accepted exactly when it matches its element");
    if (got) { REACH("accepted"); return; }
    CHECK(!err.empty(), "a refusal is explained");
    CHECK(same(bytes(pf, SUB), before), "a refused document changes nothing");
    REACH("refused");
}
static void rawBytes(PF &pf)
{
    static const char *const PATH[] = {SUB, BLOCK, "/test/test/k/w", "/test/test/k/w/1", "/test/test/k/v", "/test/test/k/s", "/test/test/k/bits", "/test/test/z", "/test/test/k/bits/hi"};
    others(pf, false);
    B before = bytes(pf, SUB);
    S T = PATH[choice("element", 9)];
    Handle h(pf, T);
    size_t n = h->getSize();
    unsigned d = choice("length", 5);
    size_t len = d == 0 ? n : d == 1 ? n + 2 : d == 2 ? n + 1 : d == 3 ? 0 : 2 * n;
    S raw = symText("bytes", len);
    B b(raw.begin(), raw.end());
    bool ok = h->setAsBytes(b, err);
    CHECK(ok == (len == n), "bytes are accepted exactly when there are as many as the element's size");
    B now = bytes(pf, SUB);
    if (!ok) { CHECK(!err.empty() && same(now, before), "refused bytes change nothing"); REACH("refused"); return; }
    B got;
    CHECK(h->getAsBytes(got, err), "bytes can be read");
    CHECK(same(got, b), "bytes are read back as set");
    size_t diff = now.size() - n, at = 0; // the area is contiguous: everything before and after is unchanged
    static const size_t AT[] = {0, 1, 22, 24, 16, 10, 26, 32, 26};
    for (int i = 0; i < 9; i++) if (T == PATH[i]) at = AT[i];
    (void)diff;
    int out = 1;
    for (size_t i = 0; i < now.size(); i++) out &= (i >= at && i < at + n) ? now[i] == b[i - at] : now[i] == before[i];
    CHECK(out, "bytes are those of the element's area, in order, and nothing else changes");
    REACH("accepted");
}
extern "C" void harness_main()
{
    Cfg c;
    c.instances = "<IntegerParameter Name='n' Size='8' Signed='false'/><ParameterBlock Name='k'>"
        "<IntegerParameter Name='i' Size='8' Signed='true' Min='-100' Max='100'/><BooleanParameter Name='b'/>"
        "<EnumParameter Name='e' Size='8'><ValuePair Literal='low' Numerical='-2'/><ValuePair Literal='mid' Numerical='3'/><ValuePair Literal='top' Numerical='100'/></EnumParameter>"
        "<FixedPointParameter Name='x' Size='16' Integral='3' Fractional='4'/><FloatingPointParameter Name='f' Size='32' Min='-1000' Max='1000'/><StringParameter Name='s' MaxLength='5'/>"
        "<IntegerParameter Name='v' Size='16' Signed='true' ArrayLength='3'/><ParameterBlock Name='w' ArrayLength='2'><IntegerParameter Name='c' Size='16' Signed='false'/></ParameterBlock>"
        "<BitParameterBlock Name='bits' Size='16'><BitParameter Name='lo' Pos='0' Size='5'/><BitParameter Name='hi' Pos='5' Size='9'/></BitParameterBlock>"
        "<EnumParameter Name='g' Size='32'><ValuePair Literal='deep' Numerical='-2147483648'/><ValuePair Literal='neg' Numerical='-7'/><ValuePair Literal='zero' Numerical='0'/><ValuePair Literal='high' Numerical='2147483647'/></EnumParameter>"
        "</ParameterBlock><IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    switch (param("mode", 0)) {
    case 0: trip(pf, false); break;
    case 1: trip(pf, true); break;
    case 2: domainTrip(pf); break;
    case 3: faulty(pf); break;
    case 4: rawBytes(pf); break;
    case 5: { // only rogue elements
        others(pf, false);
        static const char *const IN[] = {BLOCK, "/test/test/k/i", "/test/test/k/w/0"}, *const ASK[] = {SUB, BLOCK, "/test/test/k/i", "/test/test/k/w", "/test/test/k/w/0", "/test/test/k/w/0/c", "/test/test/k/v", "/test/test/z", "/test"};
        S in = IN[choice("owned", 3)], T = ASK[choice("asked", 9)];
        CHECK(pf.createDomain("D", err) && pf.addConfigurableElementToDomain("D", in, err), "a domain can be made");
        bool own = in == T || S(T + "/") == in.substr(0, T.size() + 1) || S(in + "/") == T.substr(0, in.size() + 1);
        if (maybe("untuned")) CHECK(pf.tuning(false), "tuning mode can be switched off");
        Handle h(pf, T);
        CHECK(h->isRogue() == !own, "an element is rogue exactly when no domain holds it, part of it or what it is part of");
        B b = bytes(pf, T), before = bytes(pf, SUB);
        S doc;
        CHECK(h->getAsXML(doc, err), "settings can be read as a document");
        for (auto &x : b) x = 0;
        err.clear();
        if (maybe("bytes")) CHECK(h->setAsBytes(b, err) == !own, "settings can be set through a handle exactly on rogue elements");
        else CHECK(h->setAsXML(doc, err) == !own, "settings can be set through a handle exactly on rogue elements");
        if (own) { CHECK(!err.empty() && same(before, bytes(pf, SUB)), "a refusal is explained and changes nothing"); REACH("refused"); }
        else REACH("accepted");
        break;
    }
    }
}
