// C05: booleans take 0 and 1 only; strings take any text up to their length and give it back
#include "fw.hpp"
using namespace fw;
static const char *P = "/test/test/p";
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0);
    bool str = mode >= 10;
    unsigned len = param("len", 4);
    Cfg c;
    c.instances = "<IntegerParameter Name='a' Size='8' Signed='false'/>";
    c.instances += str ? "<StringParameter Name='p' MaxLength='" + itoa64(len) + "'/>" : S("<BooleanParameter Name='p'/>");
    c.instances += "<IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    Handle h(pf, P);
    S e;
    bool ok = false, in = false;
    auto bytes = [&]() {
        std::vector<uint8_t> by;
        CHECK(h->getAsBytes(by, e), "bytes can be read");
        return by;
    };
    if (!str) {
        CHECK(sameBytes(pf.get(P), "0"), "a boolean starts false");
        bool start = maybe("start");
        CHECK(pf.set(P, start ? "1" : "0"), "0 and 1 are accepted");
        bool v = false;
        if (mode == 0) {
            size_t k = choice("length", 5);
            S t = symText("t", k);
            for (size_t i = 0; i < k; i++) ASSUME(t[i] != 0);
            bool t1 = sameBytes(t, "1") | sameBytes(t, "0x1"), t0 = sameBytes(t, "0") | sameBytes(t, "0x0");
            in = t1 | t0;
            v = t1;
            if (maybe("raw")) pf.setValueSpace(true);
            ok = pf.set(P, t);
            pf.setValueSpace(false);
        } else {
            CHECK(pf.tuning(false), "tuning mode can be switched off");
            if (mode == 1) {
                v = sym("v", 1);
                in = true;
                ok = h->setAsBoolean(v, e);
            } else if (mode == 2) {
                uint32_t u = (uint32_t)sym("v", 32);
                v = u;
                in = u <= 1;
                ok = h->setAsInteger(u, e);
            } else
                ok = choice("kind", 2) ? h->setAsDouble(asDouble(sym("v", 64)), e) : h->setAsSignedInteger((int32_t)sym("v", 32), e);
            CHECK(pf.tuning(true), "tuning mode can be switched on");
        }
        pfs_observe("ok", ok);
        CHECK(ok == in, "accepted exactly when it is 0 or 1");
        bool now = ok ? v : start, b = !now;
        if (ok) REACH("accepted"); else REACH("rejected");
        uint32_t u = 7;
        CHECK(h->getAsBoolean(b, e) & (b == now), "reads as the value that was set");
        CHECK(h->getAsInteger(u, e) & (u == (now ? 1u : 0u)), "reads as 0 or 1");
        std::vector<uint8_t> by = bytes();
        CHECK((by.size() == 1) & (by[0] == (now ? 1 : 0)), "stored as one byte, 0 or 1");
        S t = pf.get(P);
        CHECK(t.size() == 1 && t[0] == (now ? '1' : '0'), "reads back as the value that was set");
        pf.setValueSpace(true);
        pf.setOutputRawFormat(true);
        S hx = pf.get(P);
        CHECK(hx.size() == 3 && (hx[0] == '0') & (hx[1] == 'x') & (hx[2] == (now ? '1' : '0')), "raw hexadecimal text is 0x0 or 0x1");
        CHECK(pf.set(P, hx), "raw hexadecimal text can be set back");
        pf.setValueSpace(false);
        pf.setOutputRawFormat(false);
        CHECK(sameBytes(pf.get(P), t), "setting back what was read changes nothing");
    } else {
        CHECK(pf.get(P).empty(), "a string starts empty");
        S before;
        if (maybe("before")) {
            before = symText("before", len);
            for (size_t i = 0; i < len; i++) ASSUME(before[i] != 0);
            CHECK(pf.set(P, before), "a text of the declared length is accepted");
        }
        CHECK(sameBytes(pf.get(P), before), "reads back as the text that was set");
        size_t k = choice("length", len + 3);
        S t = symText("t", k), r;
        for (size_t i = 0; i < k; i++) ASSUME(t[i] != 0);
        in = k <= len;
        if (mode == 10)
            ok = pf.set(P, t);
        else {
            CHECK(pf.tuning(false), "tuning mode can be switched off");
            if (mode == 11)
                ok = h->setAsString(t, e);
            else {
                in = false;
                unsigned w = choice("kind", 4);
                if (w == 0) ok = h->setAsInteger((uint32_t)sym("v", 32), e);
                else if (w == 1) ok = h->setAsBoolean(sym("v", 1), e);
                else if (w == 2) ok = h->setAsSignedInteger((int32_t)sym("v", 32), e);
                else ok = h->setAsDouble(asDouble(sym("v", 64)), e);
            }
            CHECK(pf.tuning(true), "tuning mode can be switched on");
        }
        pfs_observe("ok", ok);
        CHECK(ok == in, "accepted exactly when it fits the declared length");
        if (ok) REACH("accepted"); else REACH("rejected");
        const S &now = ok ? t : before;
        r = pf.get(P);
        observe("text", r);
        CHECK(sameBytes(r, now), "reads back as the text that was set");
        CHECK(h->getAsString(r, e) && sameBytes(r, now), "the typed read gives the text that was set");
        std::vector<uint8_t> by = bytes();
        CHECK(by.size() == len + 1, "the stored size is the declared length and a terminator");
        int good = 1;
        for (size_t i = 0; i < now.size(); i++) good &= by[i] == (uint8_t)now[i];
        good &= by[now.size()] == 0;
        CHECK(good, "stored bytes are the text and a terminator");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
}
