// C04: floating point parameters: finite values of the declared range only, stored bit-exactly
#include "fw.hpp"
using namespace fw;
static const char *P = "/test/test/p";
extern "C" size_t pfs_fmt_uint(char *, uint64_t, unsigned, int);
static S ftoa9(float v)
{
    char b[600];
    return S(b, pfs_fmt_double(b, (double)v, 'g', 9, 0));
}
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0), rng = param("range", 0);
    // declared ranges: everything, a positive interval, a negative one, one around zero
    const char *R[4] = {"", " Min='0.25' Max='1000.5'", " Min='-3e10' Max='-0.0078125'", " Min='-1.5' Max='2.75'"};
    const float L[4] = {-std::numeric_limits<float>::max(), 0.25f, -3e10f, -1.5f}, H[4] = {std::numeric_limits<float>::max(), 1000.5f, -0.0078125f, 2.75f};
    const float ST[4] = {0.5f, 0.5f, -0.5f, 0.5f};
    float lo = L[rng], hi = H[rng];
    Cfg c;
    c.instances = S("<IntegerParameter Name='a' Size='8' Signed='false'/><FloatingPointParameter Name='p' Size='32'") + R[rng] +
                  "/><IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    CHECK(pf.set(P, ftoa9(ST[rng])), "a value of the range is accepted");
    Handle h(pf, P);
    S e;
    bool ok, in = false;
    float f = 0;
    uint32_t bits = 0;
    auto stored = [&]() {
        std::vector<uint8_t> by;
        CHECK(h->getAsBytes(by, e) & (by.size() == 4), "bytes can be read");
        uint32_t le = 0;
        for (size_t i = 0; i < by.size(); i++) le |= (uint32_t)by[i] << (8 * i);
        return le;
    };
    uint32_t start = stored();
    CHECK(start == bitsOf(ST[rng]), "stored as an IEEE single");
    if (mode == 0) { // text of any single, special values included
        f = asFloat((uint32_t)sym("f", 32));
        if (choice("special", 2)) {
            const char *T[6] = {"nan", "inf", "-inf", "1e39", "-4e38", "0x10"};
            ok = pf.set(P, T[choice("which", 6)]);
        } else {
            ASSUME(f - f == 0);
            in = (f >= lo) & (f <= hi);
            ok = pf.set(P, ftoa9(f));
        }
    } else if (mode == 5) { // real text read back: some values with full mantissas
        const uint32_t B[10] = {0x3f9e0652, 0x477fffff, 0x4b7ffffd, 0x00000001, 0x7f7ffffe, 0xbfb504f3, 0x38d1b717, 0x4effffff, 0xc2f6e979, 0x3e4ccccd};
        f = asFloat(B[choice("f", 10)]);
        in = (f >= lo) & (f <= hi);
        ok = pf.set(P, ftoa9(f));
    } else if (mode == 1) { // typed access with any double
        double d = asDouble(sym("d", 64));
        if ((d >= -(double)std::numeric_limits<float>::max()) & (d <= (double)std::numeric_limits<float>::max())) {
            f = (float)d;
            in = (f >= lo) & (f <= hi);
        }
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        ok = h->setAsDouble(d, e);
        CHECK(pf.tuning(true), "tuning mode can be switched on");
    } else if (mode == 2 || mode == 3) { // raw text: the 32 bits
        uint64_t u = sym("u", 34);
        f = asFloat((uint32_t)u);
        in = (u <= 0xffffffffull) & (f - f == 0) & (f >= lo) & (f <= hi);
        char b[40];
        size_t k = pfs_fmt_uint(b, u, mode == 2 ? 16 : 10, 0);
        pf.setValueSpace(true);
        ok = pf.set(P, (mode == 2 ? S("0x") : S()) + S(b, k));
        pf.setValueSpace(false);
    } else {
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        unsigned w = choice("kind", 3);
        if (w == 0) ok = h->setAsInteger((uint32_t)sym("v", 32), e);
        else if (w == 1) ok = h->setAsBoolean(sym("v", 1), e);
        else ok = h->setAsSignedInteger((int32_t)sym("v", 32), e);
        CHECK(pf.tuning(true), "tuning mode can be switched on");
    }
    pfs_observe("ok", ok);
    CHECK(ok == in, "accepted exactly when finite and in range");
    bits = bitsOf(f);
    uint32_t st = stored();
    pfs_observe("stored", st);
    if (ok) {
        REACH("accepted");
        CHECK(st == bits, "the single precision value is stored bit-exactly");
        double g = 0;
        CHECK(h->getAsDouble(g, e), "the number can be read");
        CHECK(g == (double)f, "reads as the stored value");
        pf.setValueSpace(true);
        pf.setOutputRawFormat(true);
        S hx = pf.get(P);
        CHECK(pf.set(P, hx), "raw hexadecimal text can be set back");
        CHECK(stored() == st, "setting back the raw text keeps the bits");
        if (mode != 2) {
            pf.setOutputRawFormat(false);
            S dc = pf.get(P);
            CHECK(pf.set(P, dc), "raw decimal text can be set back");
            CHECK(stored() == st, "setting back the raw text keeps the bits");
        }
        pf.setOutputRawFormat(false);
        pf.setValueSpace(false);
        if (mode == 5) {
            S text = pf.get(P);
            if (pf.set(P, text)) {
                double g2 = 0;
                CHECK(h->getAsDouble(g2, e), "the number can be read");
                double a = g2 - g, t = 5.2e-6 * g;
                if (t < 0) t = -t;
                if (a < 0) a = -a;
                CHECK(a <= t, "the real text is good to six digits");
            }
        }
    } else {
        REACH("rejected");
        CHECK(st == start, "a rejected set changes nothing");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
}
