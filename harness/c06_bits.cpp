// C06: bit fields: range, and writes touch only the bits of the field
#include "fw.hpp"
using namespace fw;
extern "C" size_t pfs_fmt_uint(char *, uint64_t, unsigned, int);
static S field(const S &n, unsigned pos, unsigned size, const S &max)
{
    return "<BitParameter Name='" + n + "' Pos='" + itoa64(pos) + "' Size='" + itoa64(size) + "'" + (max.empty() ? S() : " Max='" + max + "'") + "/>";
}
extern "C" void harness_main()
{
    unsigned bs = param("bs", 16), mode = param("mode", 0), pos = param("pos", 3), size = param("size", 5);
    if (param("symlayout", 0)) {
        pos = choice("pos", bs);
        size = 1 + choice("size", bs - pos);
    }
    uint64_t all = bs == 64 ? ~0ull : (1ull << bs) - 1;
    uint64_t full = size == 64 ? ~0ull : (1ull << size) - 1, max = full;
    S maxText;
    if (param("max", 0)) { max = (uint64_t)param("max"); maxText = std::to_string((unsigned long long)max); }
    if (param("symmax", 0)) {
        max = sym("max", 64);
        ASSUME(max <= full);
        char b[40];
        maxText = S(b, pfs_fmt_uint(b, max, 10, 0));
    }
    Cfg c;
    c.instances = "<IntegerParameter Name='a' Size='8' Signed='false'/><BitParameterBlock Name='b' Size='" + itoa64(bs) + "'>";
    if (pos) c.instances += field("lo", 0, pos, "");
    c.instances += field("f", pos, size, maxText);
    if (pos + size < bs) c.instances += field("hi", pos + size, bs - pos - size, "");
    c.instances += "</BitParameterBlock><IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    const char *P = "/test/test/b/f";
    CHECK(sameBytes(pf.get(P), "0"), "a field starts at zero");
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    Handle blk(pf, "/test/test/b"), h(pf, P);
    S e;
    // any previous content of the block, through its byte image
    uint64_t init = sym("init", bs > 64 ? 64 : bs);
    uint64_t mask = (size == 64 ? ~0ull : full) << pos;
    ASSUME(((init & mask) >> pos) <= max);
    std::vector<uint8_t> by(bs / 8);
    for (unsigned i = 0; i < bs / 8; i++) by[i] = (uint8_t)(init >> (8 * i));
    CHECK(pf.tuning(false), "tuning mode can be switched off");
    bool loaded = blk->setAsBytes(by, e) || (pf.tuning(true) && blk->setAsBytes(by, e));
    CHECK(loaded, "the byte image of the block can be set");
    auto stored = [&]() {
        std::vector<uint8_t> o;
        CHECK(blk->getAsBytes(o, e) & (o.size() == bs / 8), "bytes can be read");
        uint64_t le = 0;
        for (size_t i = 0; i < o.size() && i < 8; i++) le |= (uint64_t)o[i] << (8 * i);
        return le;
    };
    CHECK(stored() == init, "the byte image of the block is what was set");
    bool ok, in;
    uint64_t v = 0;
    if (mode == 0 || mode == 1) { // decimal / hexadecimal text
        v = sym("v", 64);
        if (param("vbits", 64) < 64) ASSUME(v < (1ull << param("vbits", 64)));
        in = v <= max;
        char b[40];
        size_t k = pfs_fmt_uint(b, v, mode ? 16 : 10, 0);
        CHECK(pf.tuning(true), "tuning mode can be switched on");
        ok = pf.set(P, (mode ? S("0x") : S()) + S(b, k));
    } else if (mode == 2) {
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        v = sym("v", 32);
        in = v <= max;
        ok = h->setAsInteger((uint32_t)v, e);
    } else if (mode == 3) {
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        v = sym("v", 1);
        in = (size == 1) & (v <= max);
        ok = h->setAsBoolean(v, e);
    } else if (mode == 4) { // other typed calls
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        in = false;
        ok = choice("kind", 2) ? h->setAsDouble(asDouble(sym("v", 64)), e) : h->setAsSignedInteger((int32_t)sym("v", 32), e);
    } else { // texts that spell no number
        in = false;
        CHECK(pf.tuning(true), "tuning mode can be switched on");
        size_t k = choice("length", 4);
        S t = symText("t", k);
        int bad = 1;
        for (size_t i = 0; i < k; i++) bad &= (t[i] > ' ') & (t[i] < 127) & !((t[i] >= '0') & (t[i] <= '9')) & (t[i] != '+') & (t[i] != '-');
        ASSUME(bad);
        const char *T[7] = {"", "1x", "0x", "-0", "1 1", " -1", "+-1"};
        unsigned w = choice("form", 8);
        ok = pf.set(P, w < 7 ? S(T[w]) : t);
    }
    pfs_observe("ok", ok);
    CHECK(ok == in, "accepted exactly when the value is in range");
    uint64_t now = stored();
    pfs_observe("stored", now);
    if (ok) {
        REACH("accepted");
        CHECK(now == (((init & ~mask) | (v << pos)) & all), "only the bits of the field change");
        uint32_t r = 0;
        CHECK(h->getAsInteger(r, e) & (r == (uint32_t)v), "reads as the value that was set");
        if (param("text", 1)) {
            CHECK(pf.tuning(true), "tuning mode can be switched on");
            char b[40];
            size_t k = pfs_fmt_uint(b, v, 10, 0);
            S t = pf.get(P);
            observe("text", t);
            CHECK(sameBytes(t, S(b, k)), "reads back as the value that was set");
            pf.setValueSpace(true);
            pf.setOutputRawFormat(true);
            S hx = pf.get(P);
            CHECK(pf.set(P, hx), "raw hexadecimal text can be set back");
            CHECK(stored() == now, "setting back the raw text keeps the bits");
        }
    } else {
        REACH("rejected");
        CHECK(now == init, "a rejected set changes nothing");
    }
    pf.setValueSpace(false);
    pf.setOutputRawFormat(false);
    if (pos && pos <= 32) {
        Handle l(pf, "/test/test/b/lo");
        uint32_t x = 0;
        CHECK(l->getAsInteger(x, e) & (x == (uint32_t)(init & ((1ull << pos) - 1))), "the field below is untouched");
    }
    if (pos + size < bs && bs - pos - size <= 32) {
        Handle l(pf, "/test/test/b/hi");
        uint32_t x = 0;
        CHECK(l->getAsInteger(x, e) & (x == (uint32_t)(init >> (pos + size))), "the field above is untouched");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
}
