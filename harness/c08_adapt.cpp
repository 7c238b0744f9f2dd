// C08: integer parameters with an adaptation: the formula, its inverse, the range
#include "fw.hpp"
#include <cmath>
using namespace fw;
static const char *P = "/test/test/p";
struct Layout
{
    const char *type, *adapt;
    int64_t lo, hi;
    unsigned size;
    double num, den;
    int off;
    double base; // of the logarithm; 0: linear
    double floor;
};
static const double NONE = -1e30;
static const Layout LAYOUT[] = {
    {"Size='32' Signed='true'", "<LinearAdaptation/>", -2147483648ll, 2147483647, 32, 1, 1, 0, 0, NONE},
    {"Size='32' Signed='true' Min='-1440' Max='300'", "<LinearAdaptation SlopeNumerator='10' SlopeDenominator='100'/>", -1440, 300, 32, 10, 100, 0, 0, NONE},
    {"Size='16' Signed='true'", "<LinearAdaptation SlopeNumerator='2' Offset='-7'/>", -32768, 32767, 16, 2, 1, -7, 0, NONE},
    {"Size='8' Signed='false' Min='3' Max='250'", "<LinearAdaptation SlopeNumerator='49' Offset='3'/>", 3, 250, 8, 49, 1, 3, 0, NONE},
    {"Size='8' Signed='true'", "<LinearAdaptation SlopeNumerator='7' SlopeDenominator='16' Offset='5'/>", -128, 127, 8, 7, 16, 5, 0, NONE},
    {"Size='8' Signed='false'", "<LinearAdaptation SlopeNumerator='-4' SlopeDenominator='0.5' Offset='100'/>", 0, 255, 8, -4, 0.5, 100, 0, NONE},
    {"Size='32' Signed='false'", "<LinearAdaptation SlopeNumerator='0.25' Offset='-2147483648'/>", 0, 4294967295ll, 32, 0.25, 1, INT32_MIN, 0, NONE},
    {"Size='16' Signed='true' Min='-144' Max='30'", "<LogarithmicAdaptation LogarithmBase='10' SlopeNumerator='20' FloorValue='-144'/>", -144, 30, 16, 20, 1, 0, 10, -144},
    {"Size='8' Signed='true' Min='-100' Max='40'", "<LogarithmicAdaptation LogarithmBase='2' Offset='4'/>", -100, 40, 8, 1, 1, 4, 2, NONE},
    {"Size='8' Signed='false' Max='60'", "<LogarithmicAdaptation LogarithmBase='0.5' SlopeNumerator='-10' SlopeDenominator='2' Offset='1' FloorValue='1'/>", 0, 60, 8, -10, 2, 1, 0.5, 1},
    {"Size='8' Signed='true'", "<LinearAdaptation SlopeDenominator='3' Offset='5'/>", -128, 127, 8, 1, 3, 5, 0, NONE},
    {"Size='16' Signed='false' Min='100' Max='400'", "<LinearAdaptation SlopeNumerator='0.1' SlopeDenominator='0.7' Offset='-3'/>", 100, 400, 16, 0.1, 0.7, -3, 0, NONE},
};
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0), li = param("layout", 0);
    const Layout &l = LAYOUT[li];
    unsigned len = param("array", 0), at = len ? 1 : 0;
    Cfg c;
    c.instances = S("<IntegerParameter Name='a' Size='8' Signed='false'/><IntegerParameter Name='p' ") + (len ? "ArrayLength='3' " : "") + l.type + ">" + l.adapt + "</IntegerParameter><IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    S path = S(P) + (len ? "/1" : "");
    CHECK(pf.set(path, itoa64(l.hi)), "the upper bound is accepted");
    CHECK(pf.tuning(false), "tuning mode can be switched off");
    Handle h(pf, P);
    S e;
    auto stored = [&]() {
        std::vector<uint8_t> by;
        CHECK(h->getAsBytes(by, e) & (by.size() == (len ? 3 : 1) * l.size / 8), "bytes can be read");
        uint64_t v = 0;
        for (unsigned i = 0; i < l.size / 8; i++) v |= (uint64_t)by[at * l.size / 8 + i] << 8 * i;
        return l.lo < 0 ? (int64_t)(v << (64 - l.size)) >> (64 - l.size) : (int64_t)v;
    };
    auto put = [&](double d) {
        if (!len) return h->setAsDouble(d, e);
        std::vector<double> v;
        if (!h->getAsDoubleArray(v, e)) return false;
        v[1] = d;
        return h->setAsDoubleArray(v, e);
    };
    auto get = [&](double &d) {
        if (!len) return h->getAsDouble(d, e);
        std::vector<double> v;
        if (!h->getAsDoubleArray(v, e) || v.size() != 3) return false;
        d = v[1];
        return true;
    };
    auto store = [&](int64_t raw) {
        if (len) {
            std::vector<uint8_t> by;
            CHECK(h->getAsBytes(by, e), "bytes can be read");
            for (unsigned i = 0; i < l.size / 8; i++) by[l.size / 8 + i] = (uint8_t)((uint64_t)raw >> 8 * i);
            return h->setAsBytes(by, e);
        }
        return l.lo < 0 ? h->setAsSignedInteger((int32_t)raw, e) : h->setAsInteger((uint32_t)raw, e);
    };
    if (len) store(l.lo), CHECK(stored() == l.lo, "bytes can be set");
    if (mode == 0) { // stored value -> user value -> stored value
        int64_t raw;
        if (l.base != 0 || param("each", 0)) raw = l.lo + choice("raw", (unsigned)(l.hi - l.lo + 1));
        else {
            uint64_t u = sym("raw", l.size);
            raw = l.lo < 0 ? (int64_t)(u << (64 - l.size)) >> (64 - l.size) : (int64_t)u;
        }
        ASSUME((raw >= l.lo) & (raw <= l.hi) & ((double)raw >= l.floor));
        CHECK(store(raw), "a value of the range is accepted as it is");
        CHECK(stored() == raw, "integer accesses are not adapted");
        double d = 0;
        CHECK(get(d), "the adapted value can be read");
        double lin = (double)(raw - l.off) * l.den / l.num;
        double want = l.base != 0 ? exp(lin * log(l.base)) : lin;
        if (l.base != 0) CHECK(std::fabs(d - want) <= want * 1e-12, "the value read is the inverse of the adaptation");
        else CHECK(d == want, "the value read is the inverse of the adaptation");
        CHECK(store(l.lo), "a value of the range is accepted as it is");
        if (param("back", 1)) {
        CHECK(put(d), "the value read is accepted back");
        int64_t now = stored();
        if (now != raw) pfs_note_str("stored value differs");
        CHECK(now == raw, "the value read and set back is the stored one");
        }
        REACH("round");
    } else { // any value
        int64_t before = stored();
        double v;
        if (l.base != 0) {
            const double V[] = {0, 1, 10, 2, 0.001, 1e-7, 1e-8, 1e12, 31.6, 31.7, 1e300, 1e-300, 1024.5, 90.5, 90.6, 1.41, 1.42, HUGE_VAL, -1, -HUGE_VAL, NAN};
            v = V[choice("v", sizeof V / sizeof *V)];
        } else v = asDouble(sym("v", 64));
        double x = (l.base != 0 ? log(v) / log(l.base) : v) * l.num / l.den;
        bool ok = put(v);
        int64_t now = stored();
        if (l.base != 0 && l.floor != NONE && x + l.off < l.floor - 0.5) {
            CHECK(ok & (now == (int64_t)l.floor), "the floor is stored for what is below it");
            REACH("floored");
        } else if (ok) {
            double r = (double)(now - l.off);
            CHECK((now >= l.lo) & (now <= l.hi), "only values of the range are stored");
            CHECK((x >= r - 0.5) & (x <= r + 0.5), "the nearest integer of the adapted value is stored");
            REACH("accepted");
        } else {
            CHECK(!(x >= (double)(l.lo - l.off)) | !(x <= (double)(l.hi - l.off)), "a value whose image is in the range is accepted");
            CHECK(now == before, "a refused value changes nothing");
            CHECK(!e.empty(), "a refusal is explained");
            REACH("rejected");
        }
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "neighbours keep their values");
}
