// C02: an enumeration takes exactly its literals and declared numbers, reads back the literal, refuses all else without effect
#include "fw.hpp"
using namespace fw;
static const char *P = "/test/test/p";
static S pair(const S &l, int64_t n) { return "<ValuePair Literal='" + l + "' Numerical='" + itoa64(n) + "'/>"; }
extern "C" size_t pfs_fmt_uint(char *, uint64_t, unsigned, int);
extern "C" void harness_main()
{
    unsigned size = param("size", 8), mode = param("mode", 0);
    int64_t tmax = (1ll << (size - 1)) - 1, tmin = -tmax - 1;
    // four declared pairs; "dup" repeats a number, "far" may lie outside the size
    const char *L[5] = {"ab", "B", "low", "dup", "far"};
    int64_t N[5] = {param("n0", 5), param("n1", -3), param("n2", tmax), param("n3", 5), param("n4", tmin)};
    if (param("symnum", 0)) {
        N[0] = (int64_t)(int32_t)(sym("n0", size) << (32 - size)) >> (32 - size);
        N[1] = (int64_t)(int32_t)(sym("n1", size) << (32 - size)) >> (32 - size);
        N[2] = 7;
    }
    Cfg c;
    c.instances = "<IntegerParameter Name='a' Size='8' Signed='false'/><EnumParameter Name='p' Size='" + itoa64(size) + "'>";
    for (int i = 0; i < 5; i++) c.instances += pair(L[i], N[i]);
    c.instances += "</EnumParameter><IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    CHECK(sameBytes(pf.get(P), "ab"), "initial value is the first declared literal");
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    CHECK(pf.set(P, "low"), "a declared literal is accepted");
    S start = pf.get(P);
    Handle h(pf, P);
    int64_t v = 0;
    bool ok, in = false, known = true;
    uint64_t u = 0;
    uint64_t mask = size == 32 ? 0xffffffffull : (1ull << size) - 1;
    int32_t before = 0;
    S e;
    CHECK(h->getAsSignedInteger(before, e) & (before == N[2]), "a literal stores its declared number");
    if (mode == 0 || mode == 2) {
        v = mode == 0 ? (int64_t)sym("v", 64) : (int64_t)(int32_t)sym("v", 32);
        if (mode == 0) ASSUME((v >= -99999999999) & (v <= 99999999999));
        for (int i = 0; i < 5; i++) in |= (v == N[i]);
        in = in & (v >= tmin) & (v <= tmax);
        if (mode == 0)
            ok = pf.set(P, itoa64(v));
        else {
            CHECK(pf.tuning(false), "tuning mode can be switched off");
            ok = h->setAsSignedInteger((int32_t)v, e);
            CHECK(pf.tuning(true), "tuning mode can be switched on");
        }
    } else if (mode == 1) {
        size_t k = 1 + choice("length", 4);
        S t = symText("t", k);
        int letters = 1;
        for (size_t i = 0; i < k; i++) letters &= (((t[i] | 32) >= 'a') & ((t[i] | 32) <= 'z')) | (t[i] == '_') | (t[i] == ' ') | (t[i] == '.');
        ASSUME(letters);
        for (int i = 4; i >= 0; i--)
            if (sameBytes(t, L[i])) { in = true; v = N[i]; }
        if (in) in = (v >= tmin) & (v <= tmax);
        ok = pf.set(P, t);
    } else if (mode == 3) {
        u = sym("v", size);
        v = (int64_t)(u << (64 - size)) >> (64 - size);
        for (int i = 0; i < 5; i++) in |= (v == N[i]);
        char b[40];
        size_t n = pfs_fmt_uint(b, u, 16, 0);
        pf.setValueSpace(true);
        ok = pf.set(P, S("0x") + S(b, n));
        pf.setValueSpace(false);
    } else {
        known = false;
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        unsigned w = choice("kind", 4);
        if (w == 0) ok = h->setAsDouble(asDouble(sym("v", 64)), e);
        else if (w == 1) ok = h->setAsBoolean(sym("v", 1), e);
        else if (w == 2) ok = h->setAsInteger((uint32_t)sym("v", 32), e);
        else ok = h->setAsString("low ", e);
        CHECK(pf.tuning(true), "tuning mode can be switched on");
    }
    (void)known;
    pfs_observe("ok", ok);
    CHECK(ok == in, "accepted exactly when it is a declared literal or number that fits");
    int32_t si = 0;
    CHECK(h->getAsSignedInteger(si, e), "the number can be read");
    std::vector<uint8_t> by;
    CHECK(h->getAsBytes(by, e) & (by.size() == size / 8), "bytes can be read");
    uint64_t le = 0;
    for (size_t i = 0; i < by.size(); i++) le |= (uint64_t)by[i] << (8 * i);
    if (ok) {
        REACH("accepted");
        CHECK((si == v) & (le == ((uint64_t)v & mask)), "the declared number is stored in the declared size");
        S after = pf.get(P);
        observe("after", after);
        int first = 0, found = 0;
        for (int i = 0; i < 5; i++) {
            int hit = (N[i] == v) & !found;
            if (hit) first = i;
            found |= hit;
        }
        CHECK(sameBytes(after, L[first]), "reads back as the literal of that number");
        // raw views
        pf.setValueSpace(true);
        pf.setOutputRawFormat(true);
        S hx = pf.get(P);
        observe("hex", hx);
        int good = hx.size() == 2 + size / 4;
        if (good) {
            good &= (hx[0] == '0') & (hx[1] == 'x');
            for (unsigned i = 0; i < size / 4; i++) {
                unsigned d = (unsigned)((uint64_t)v >> (size - 4 - 4 * i)) & 15;
                good &= hx[2 + i] == (char)(d < 10 ? '0' + d : 'A' + d - 10);
            }
        }
        CHECK(good, "raw hexadecimal text shows all bits of the stored number");
        CHECK(pf.set(P, hx), "raw hexadecimal text can be set back");
        pf.setOutputRawFormat(false);
        S dc = pf.get(P);
        observe("dec", dc);
        CHECK(pf.set(P, dc), "raw decimal text can be set back");
        pf.setValueSpace(false);
        CHECK(sameBytes(pf.get(P), after), "setting back what was read changes nothing");
    } else {
        REACH("rejected");
        CHECK((si == before) & sameBytes(pf.get(P), start), "a rejected set changes nothing");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
}
