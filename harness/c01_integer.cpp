// C01: integer parameters accept exactly their range, store exactly, reject without effect
#include "fw.hpp"
using namespace fw;
static S range(unsigned size, bool sg, const S &lo, const S &hi)
{
    return "<IntegerParameter Name='a' Size='8' Signed='false'/><IntegerParameter Name='p' Size='" + itoa64(size) + "' Signed='" + (sg ? "true" : "false") +
           "' Min='" + lo + "' Max='" + hi + "'/><IntegerParameter Name='z' Size='16' Signed='true'/>";
}
static const char *P = "/test/test/p";
extern "C" void harness_main()
{
    unsigned size = param("size", 8);
    bool sg = param("signed", 0);
    unsigned mode = param("mode", 0);
    int64_t lo, hi, tmin = sg ? -(1ll << (size - 1)) : 0, tmax = sg ? (1ll << (size - 1)) - 1 : (1ll << size) - 1;
    if (param("symrange", 0)) {
        lo = sg ? (int64_t)(int32_t)(sym("min", size) << (32 - size)) >> (32 - size) : (int64_t)sym("min", size);
        hi = sg ? (int64_t)(int32_t)(sym("max", size) << (32 - size)) >> (32 - size) : (int64_t)sym("max", size);
        ASSUME(lo <= hi);
    } else {
        lo = param("min", 0);
        hi = param("max", 100);
    }
    Cfg c;
    c.instances = range(size, sg, itoa64(lo), itoa64(hi));
    PF pf(c);
    pf.upTuning();
    // a fresh tree holds the lower bound
    S before = pf.get(P);
    CHECK(sameBytes(before, itoa64(lo)), "initial value is the lower bound");
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    // move away from the initial value so that a lost update and a rejected one look different
    int64_t start = hi;
    CHECK(pf.set(P, itoa64(start)), "the upper bound is accepted");
    before = itoa64(start);
    bool ok, in;
    if (mode >= 2) CHECK(pf.tuning(false), "tuning mode can be switched off"); // typed writes belong to the platform
    int64_t v;
    Handle h(pf, P);
    if (mode == 0) { // decimal text
        int64_t lim = param("lim", 100000);
        v = (int64_t)sym("v", 64);
        ASSUME((v >= -lim) & (v <= lim));
        in = (v >= lo) & (v <= hi);
        ok = pf.set(P, itoa64(v));
    } else if (mode == 1) { // hexadecimal text: the bit pattern of the parameter
        uint64_t u = sym("v", size + 4);
        v = sg ? (int64_t)(u << (64 - size)) >> (64 - size) : (int64_t)u;
        in = (u <= (uint64_t)((1ull << size) - 1)) & (v >= lo) & (v <= hi);
        char b[40];
        extern size_t fmtHex(char *, uint64_t);
        size_t n = fmtHex(b, u);
        ok = pf.set(P, S("0x") + S(b, n));
    } else if (mode == 2) { // unsigned handle
        uint32_t u = (uint32_t)sym("v", 32);
        v = u;
        in = (v >= lo) & (v <= hi);
        S e;
        ok = h->setAsInteger(u, e);
    } else if (mode == 3) { // signed handle
        int32_t u = (int32_t)sym("v", 32);
        v = u;
        in = (v >= lo) & (v <= hi);
        S e;
        ok = h->setAsSignedInteger(u, e);
    } else { // kinds of value an integer without adaptation does not take
        S e;
        v = 0;
        in = false;
        ok = mode == 4 ? h->setAsDouble(asDouble(sym("v", 64)), e) : h->setAsBoolean(sym("v", 1), e);
    }
    if (mode >= 2) CHECK(pf.tuning(true), "tuning mode can be switched on");
    pfs_observe("ok", ok);
    CHECK(ok == in, "accepted exactly when the value is in range");
    bool text = !param("notext", 0);
    S after = ok && !text ? S() : pf.get(P);
    observe("after", after);
    if (ok) {
        REACH("accepted");
        if (text) CHECK(sameBytes(after, itoa64(v)), "reads back as the value that was set");
        S e;
        uint32_t ui = 0;
        int32_t si = 0;
        bool g1 = h->getAsInteger(ui, e), g2 = h->getAsSignedInteger(si, e);
        CHECK(g1 & (ui == ((uint64_t)v & ((1ull << size) - 1))), "unsigned read gives the stored bits");
        int32_t sx = (int32_t)((uint64_t)v << (32 - size)) >> (32 - size);
        CHECK(g2 & (si == sx), "signed read gives the stored value");
        std::vector<uint8_t> by;
        CHECK(h->getAsBytes(by, e), "bytes can be read");
        uint64_t le = 0;
        for (size_t i = 0; i < by.size(); i++) le |= (uint64_t)by[i] << (8 * i);
        CHECK((by.size() == size / 8) & (le == ((uint64_t)v & ((1ull << size) - 1))), "stored bytes are the little-endian value of the declared size");
        if (param("raw", 0)) {
            pf.setValueSpace(true);
            pf.setOutputRawFormat(true);
            S hx = pf.get(P);
            static const char H[] = "0123456789ABCDEF";
            int good = hx.size() == 2 + size / 4;
            if (good) {
                good &= (hx[0] == '0') & (hx[1] == 'x');
                for (unsigned i = 0; i < size / 4; i++) {
                    unsigned d = (unsigned)((uint64_t)v >> (size - 4 - 4 * i)) & 15;
                    good &= hx[2 + i] == (char)(d < 10 ? '0' + d : 'A' + d - 10);
                }
            }
            CHECK(good, "raw hexadecimal text shows all bits of the stored value");
            bool back = pf.set(P, hx);
            pf.setOutputRawFormat(false);
            ui = ~ui;
            CHECK(back & h->getAsInteger(ui, e) & (ui == ((uint64_t)v & ((1ull << size) - 1))), "raw hexadecimal text can be set back");
            pf.setValueSpace(false);
        }
    } else {
        REACH("rejected");
        CHECK(sameBytes(after, before), "a rejected set changes nothing");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
    (void)tmin;
    (void)tmax;
}
extern "C" size_t pfs_fmt_uint(char *, uint64_t, unsigned, int);
size_t fmtHex(char *b, uint64_t v) { return pfs_fmt_uint(b, v, 16, 0); }
