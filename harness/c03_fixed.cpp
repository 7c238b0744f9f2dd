// C03: Qn.m fixed point: range, rounding to the nearest step, exact read back, raw view
#include "fw.hpp"
#include <sstream>
using namespace fw;
static const char *P = "/test/test/p";
extern "C" size_t pfs_fmt_uint(char *, uint64_t, unsigned, int);
extern "C" void harness_main()
{
    unsigned size = param("size", 16), n = param("n", 3), m = param("m", 4), mode = param("mode", 0);
    unsigned just = size - (n + m + 1);
    Cfg c;
    c.instances = "<IntegerParameter Name='a' Size='8' Signed='false'/><FixedPointParameter Name='p' Size='" + itoa64(size) + "' Integral='" + itoa64(n) +
                  "' Fractional='" + itoa64(m) + "'/><IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    double step = 1.0 / (double)(1ull << m), hi = (double)((1ull << (n + m)) - 1) * step, lo = -(double)(1ull << (n + m)) * step;
    CHECK(pf.set(P, dtoa(step)), "one step is accepted");
    Handle h(pf, P);
    S e;
    bool ok, in;
    double d = 0;
    int64_t raw = 0;
    uint64_t mask = size == 32 ? 0xffffffffull : (1ull << size) - 1;
    auto stored = [&]() {
        std::vector<uint8_t> by;
        CHECK(h->getAsBytes(by, e) & (by.size() == size / 8), "bytes can be read");
        uint64_t le = 0;
        for (size_t i = 0; i < by.size(); i++) le |= (uint64_t)by[i] << (8 * i);
        return (int64_t)(le << (64 - size)) >> (64 - size);
    };
    int64_t start = stored();
    CHECK(start == (int64_t)1 << just, "one step is stored left justified");
    if (mode <= 1) {
        d = asDouble(sym("d", 64));
        if (mode == 0) { ASSUME((d - d == 0)); }
        in = (d >= lo) & (d <= hi);
        if (mode == 0)
            ok = pf.set(P, dtoa(d));
        else {
            CHECK(pf.tuning(false), "tuning mode can be switched off");
            ok = h->setAsDouble(d, e);
            CHECK(pf.tuning(true), "tuning mode can be switched on");
        }
    } else if (mode == 4) { // other kinds of value
        in = false;
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        unsigned w = choice("kind", 3);
        if (w == 0) ok = h->setAsInteger((uint32_t)sym("v", 32), e);
        else if (w == 1) ok = h->setAsBoolean(sym("v", 1), e);
        else ok = h->setAsSignedInteger((int32_t)sym("v", 32), e);
        CHECK(pf.tuning(true), "tuning mode can be switched on");
    } else {
        pf.setValueSpace(true);
        if (mode == 2) { // raw hexadecimal
            uint64_t u = sym("v", size + (size < 32 ? 4 : 0));
            raw = (int64_t)(u << (64 - size)) >> (64 - size);
            in = u <= mask;
            char b[40];
            size_t k = pfs_fmt_uint(b, u, 16, 0);
            ok = pf.set(P, S("0x") + S(b, k));
        } else { // raw decimal
            raw = (int64_t)sym("v", 64);
            ASSUME((raw >= -99999999999) & (raw <= 99999999999));
            in = (raw >= -(1ll << (size - 1))) & (raw <= (1ll << (size - 1)) - 1);
            ok = pf.set(P, itoa64(raw));
        }
        pf.setValueSpace(false);
    }
    pfs_observe("ok", ok);
    CHECK(ok == in, "accepted exactly when the value is in range");
    int64_t st = stored();
    pfs_observe("stored", st & mask);
    if (ok) {
        REACH("accepted");
        int64_t k = st >> just;
        CHECK((k >= -(1ll << (n + m))) & (k <= (1ll << (n + m)) - 1), "the stored value is in range");
        if (mode <= 1) {
            double x = d * (double)(1ull << m), kd = (double)(int32_t)k, a = x - kd;
            CHECK((a <= 0.5) & (a >= -0.5), "stored value is the nearest step");
            CHECK((st & (((int64_t)1 << just) - 1)) == 0, "stored left justified");
        } else
            CHECK(st == raw, "raw text sets the bits it spells");
        double g = 0;
        CHECK(h->getAsDouble(g, e), "the number can be read");
        double exact = (double)(int32_t)k / (double)(1ull << m);
        CHECK(g == exact, "reads as the value of the stored step");
        // what is read can be set back
        S text = pf.get(P);
        CHECK(pf.set(P, text), "the text that is read can be set back");
        int64_t st2 = stored();
        CHECK((st2 >> just) == k, "setting back what was read keeps the value");
        if (mode >= 2 || param("rawview", 1)) {
        pf.setValueSpace(true);
        S rawText = pf.get(P);
        CHECK(sameBytes(rawText, itoa64(st2)), "raw decimal text is the stored bits");
        pf.setOutputRawFormat(true);
        S hx = pf.get(P);
        int good = hx.size() == 2 + size / 4;
        if (good) {
            good &= (hx[0] == '0') & (hx[1] == 'x');
            for (unsigned i = 0; i < size / 4; i++) {
                unsigned x = (unsigned)((uint64_t)st2 >> (size - 4 - 4 * i)) & 15;
                good &= hx[2 + i] == (char)(x < 10 ? '0' + x : 'A' + x - 10);
            }
        }
        CHECK(good, "raw hexadecimal text shows all bits of the stored value");
        CHECK(pf.set(P, hx), "raw hexadecimal text can be set back");
        CHECK(stored() == st2, "setting back the raw text keeps the bits");
        CHECK(pf.set(P, rawText), "raw decimal text can be set back");
        CHECK(stored() == st2, "setting back the raw text keeps the bits");
        pf.setOutputRawFormat(false);
        pf.setValueSpace(false);
        }
    } else {
        REACH("rejected");
        CHECK(st == start, "a rejected set changes nothing");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
}
