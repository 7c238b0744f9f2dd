// C07: arrays: element access, partial writes from an index, whole-array access, all or nothing
#include "fw.hpp"
using namespace fw;
static const int N = 3;
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0), kind = param("kind", 0);
    Cfg c;
    S attr = " Name='p' ArrayLength='3'", body;
    // element kinds: signed integer -5..7, boolean, enumeration, unsigned 16 bit integer
    if (kind == 0) body = "<IntegerParameter" + attr + " Size='8' Signed='true' Min='-5' Max='7'/>";
    if (kind == 1) body = "<BooleanParameter" + attr + "/>";
    if (kind == 2) body = "<EnumParameter" + attr + " Size='8'><ValuePair Literal='low' Numerical='-2'/><ValuePair Literal='mid' Numerical='3'/><ValuePair Literal='top' Numerical='100'/></EnumParameter>";
    if (kind == 3) body = "<IntegerParameter" + attr + " Size='16' Signed='false' Min='3' Max='50000'/>";
    if (kind == 4) body = "<FixedPointParameter" + attr + " Size='16' Integral='3' Fractional='4'/>";
    if (kind == 5) body = "<FloatingPointParameter" + attr + " Size='32' Min='-10' Max='1000'/>";
    c.instances = "<IntegerParameter Name='a' Size='8' Signed='false'/>" + body + "<IntegerParameter Name='z' Size='16' Signed='true'/>";
    PF pf(c);
    pf.upTuning();
    const S P = "/test/test/p";
    CHECK(pf.set("/test/test/a", "165") & pf.set("/test/test/z", "-12345"), "neighbours accept their values");
    Handle h(pf, P);
    S e;
    CHECK(h->isArray() & (h->getArrayLength() == N), "the declared length is reported");
    const char *INIT[6] = {"-5 -5 -5", "0 0 0", "low low low", "3 3 3", "0.0000 0.0000 0.0000", "0 0 0"};
    CHECK(sameBytes(pf.get(P), INIT[kind]), "every element starts at the default of its type");
    auto join = [](const S *v) { return v[0] + " " + v[1] + " " + v[2]; };
    if (mode == 0) { // text
        const char *OLD[4][3] = {{"1", "2", "3"}, {"1", "0", "1"}, {"mid", "low", "top"}, {"10", "200", "3000"}};
        S model[3];
        for (int i = 0; i < N; i++) model[i] = OLD[kind][i];
        CHECK(pf.set(P, join(model)), "a whole array of valid values is accepted");
        unsigned k = choice("count", N + 2), from = choice("from", N + 3); // from: none, 0..2, 3, not a number
        int bad = 0;
        S t;
        S v[4];
        unsigned sep = param("sep", 9) < 4 ? param("sep") : choice("separator", 4);
        const char *SEP[4] = {" ", ",", ", ", "\n\t"};
        for (unsigned i = 0; i < k; i++) {
            S n = S("v") + (char)('0' + i);
            if (kind == 0) {
                int64_t x = (int64_t)sym(n.c_str(), 64);
                ASSUME((x >= -9) & (x <= 9));
                bad |= (x < -5) | (x > 7);
                v[i] = itoa64(x);
            } else if (kind == 3) {
                uint64_t x = 10000 + sym(n.c_str(), 16); // five digits
                bad |= x > 50000;
                v[i] = itoa64(x);
            } else {
                static const char *W1[3] = {"0", "1", "2"}, *W2[3] = {"low", "100", "none"};
                unsigned x = choice(n.c_str(), 3);
                bad |= x == 2;
                v[i] = kind == 1 ? W1[x] : W2[x];
            }
            t += (i ? S(SEP[sep]) : S(sep == 3 ? " " : "")) + v[i];
            if (kind == 2 && v[i] == "100") v[i] = "top";
        }
        if (sep == 3) t += " ";
        S p = P;
        unsigned at = 0;
        if (from == N + 2) {
            const char *T[3] = {"x", "1x", "1/0"};
            p += S("/") + T[choice("index", 3)];
            bad = 1;
        } else if (from) {
            at = from - 1;
            p += "/" + itoa64(at);
        }
        bool ok = pf.set(p, t), in = !bad & (at + k <= N) & !(from && at >= N);
        pfs_observe("ok", ok);
        CHECK(ok == in, "accepted exactly when every value is valid and all fit");
        if (ok) {
            REACH("accepted");
            for (unsigned i = 0; i < k && at + i < N; i++) model[at + i] = v[i];
        } else
            REACH("rejected");
        S now = pf.get(P);
        observe("now", now);
        CHECK(sameBytes(now, join(model)), ok ? "exactly the addressed elements change" : "a rejected set changes nothing");
        for (int i = 0; i < N; i++) CHECK(sameBytes(pf.get(P + "/" + itoa64(i)), model[i]), "each element reads alone");
        S dummy;
        CHECK(!pf.get(P + "/3", dummy), "an index past the end is refused");
    } else { // typed arrays
        CHECK(pf.tuning(false), "tuning mode can be switched off");
        unsigned k = choice("count", N + 2);
        std::vector<S> names;
        for (unsigned i = 0; i < k; i++) names.push_back(S("v") + (char)('0' + i));
        bool ok = false;
        int bad = k != N;
        if (kind == 0 || kind == 2) {
            std::vector<int32_t> old{kind ? 100 : 1, kind ? -2 : 2, 3}, v, g;
            CHECK(h->setAsSignedIntegerArray(old, e), "a whole array of valid values is accepted");
            for (unsigned i = 0; i < k; i++) {
                v.push_back((int32_t)sym(names[i].c_str(), 32));
                bad |= kind ? !((v[i] == -2) | (v[i] == 3) | (v[i] == 100)) : ((v[i] < -5) | (v[i] > 7));
            }
            ok = h->setAsSignedIntegerArray(v, e);
            CHECK(ok == !bad, "accepted exactly when every value is valid and all fit");
            CHECK(h->getAsSignedIntegerArray(g, e) & (g.size() == N), "the whole array can be read");
            int same = 1;
            for (int i = 0; i < N; i++) same &= g[i] == (ok ? v[i] : old[i]);
            CHECK(same, ok ? "reads back as the values that were set" : "a rejected set changes nothing");
        } else if (kind == 1) {
            std::vector<bool> old{true, false, true}, v, g;
            CHECK(h->setAsBooleanArray(old, e), "a whole array of valid values is accepted");
            for (unsigned i = 0; i < k; i++) v.push_back(maybe(names[i].c_str()));
            ok = h->setAsBooleanArray(v, e);
            CHECK(ok == !bad, "accepted exactly when every value is valid and all fit");
            CHECK(h->getAsBooleanArray(g, e) & (g.size() == N), "the whole array can be read");
            int same = 1;
            for (int i = 0; i < N; i++) same &= g[i] == (ok ? v[i] : old[i]);
            CHECK(same, ok ? "reads back as the values that were set" : "a rejected set changes nothing");
        } else if (kind == 3) {
            std::vector<uint32_t> old{10, 200, 3000}, v, g;
            CHECK(h->setAsIntegerArray(old, e), "a whole array of valid values is accepted");
            for (unsigned i = 0; i < k; i++) {
                v.push_back((uint32_t)sym(names[i].c_str(), 32));
                bad |= (v[i] < 3) | (v[i] > 50000);
            }
            ok = h->setAsIntegerArray(v, e);
            CHECK(ok == !bad, "accepted exactly when every value is valid and all fit");
            CHECK(h->getAsIntegerArray(g, e) & (g.size() == N), "the whole array can be read");
            int same = 1;
            for (int i = 0; i < N; i++) same &= g[i] == (ok ? v[i] : old[i]);
            CHECK(same, ok ? "reads back as the values that were set" : "a rejected set changes nothing");
        } else {
            std::vector<double> old{0.5, 1.25, -3}, v, g;
            CHECK(h->setAsDoubleArray(old, e), "a whole array of valid values is accepted");
            for (unsigned i = 0; i < k; i++) {
                double d = kind == 5 ? (double)asFloat((uint32_t)sym(names[i].c_str(), 32)) : (double)(int16_t)sym(names[i].c_str(), 16) / 16.0;
                v.push_back(d);
                bad |= kind == 5 ? !((d >= -10) & (d <= 1000)) : !((d >= -8) & (d <= 127.0 / 16));
            }
            ok = h->setAsDoubleArray(v, e);
            CHECK(ok == !bad, "accepted exactly when every value is valid and all fit");
            CHECK(h->getAsDoubleArray(g, e) & (g.size() == N), "the whole array can be read");
            int same = 1;
            for (int i = 0; i < N; i++) same &= g[i] == (ok ? v[i] : old[i]);
            CHECK(same, ok ? "reads back as the values that were set" : "a rejected set changes nothing");
        }
        if (ok) REACH("accepted"); else REACH("rejected");
        uint32_t u;
        std::vector<S> sv;
        Handle sc(pf, "/test/test/z");
        std::vector<int32_t> iv(1, 5), none;
        CHECK(!h->setAsInteger(3, e) & !h->getAsInteger(u, e), "an array is not a scalar");
        CHECK(!sc->setAsSignedIntegerArray(iv, e) & !sc->getAsSignedIntegerArray(iv, e) & !sc->setAsSignedIntegerArray(none, e), "a scalar is not an array");
        CHECK(!sc->setAsStringArray(sv, e) & !sc->getAsStringArray(sv, e), "a scalar is not an array of texts");
        CHECK(pf.tuning(true), "tuning mode can be switched on");
    }
    CHECK(sameBytes(pf.get("/test/test/a"), "165") & sameBytes(pf.get("/test/test/z"), "-12345"), "other parameters are untouched");
}
