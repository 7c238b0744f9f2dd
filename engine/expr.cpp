#include "expr.h"
#include <cmath>
#include <cstring>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <cfenv>

std::vector<SymInfo> gSyms;
uint32_t newSym(const std::string &name, unsigned w)
{
    gSyms.push_back({name, w});
    return gSyms.size() - 1;
}

// ---------------------------------------------------------------- symbol sets
static std::map<std::vector<uint32_t>, SymSet *> gSets;
static const SymSet *internSet(std::vector<uint32_t> v)
{
    auto it = gSets.find(v);
    if (it != gSets.end()) return it->second;
    auto *s = new SymSet{v, (uint32_t)gSets.size()};
    gSets[v] = s;
    return s;
}
static const SymSet *emptySet()
{
    static const SymSet *s = internSet({});
    return s;
}
static std::unordered_map<uint64_t, const SymSet *> gUnion;
static const SymSet *unite(const SymSet *a, const SymSet *b)
{
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = gUnion.find(key);
    if (it != gUnion.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    return gUnion[key] = internSet(std::move(r));
}

// ---------------------------------------------------------------- hash consing
static std::vector<Expr *> gTab(1 << 16, nullptr);
static size_t gCount = 0;
size_t exprCount() { return gCount; }
static inline uint64_t mix(uint64_t h)
{
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
static uint64_t hashOf(K k, unsigned w, unsigned aux, E a, E b, E c, u128 v)
{
    uint64_t h = (uint64_t)k * 1315423911u + w * 2654435761u + aux * 97;
    h = mix(h ^ (uint64_t)v);
    h = mix(h ^ (uint64_t)(v >> 64));
    h = mix(h + (a ? a->id + 1 : 0));
    h = mix(h * 3 + (b ? b->id + 1 : 0));
    h = mix(h * 5 + (c ? c->id + 1 : 0));
    return h;
}
static std::vector<char *> gArena;
static size_t gArenaPos = 0, gArenaCap = 0;
static E mkRaw(K k, unsigned w, unsigned aux = 0, E a = nullptr, E b = nullptr, E c = nullptr,
               u128 v = 0)
{
    uint64_t h = hashOf(k, w, aux, a, b, c, v);
    size_t i = h & (gTab.size() - 1);
    for (Expr *e = gTab[i]; e; e = e->next)
        if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c &&
            e->v == v)
            return e;
    if (gCount > gTab.size() * 2) {
        std::vector<Expr *> nt(gTab.size() * 4, nullptr);
        for (Expr *e : gTab)
            while (e) {
                Expr *n = e->next;
                size_t j = hashOf(e->k, e->w, e->aux, e->a, e->b, e->c, e->v) & (nt.size() - 1);
                e->next = nt[j];
                nt[j] = e;
                e = n;
            }
        gTab.swap(nt);
        i = h & (gTab.size() - 1);
    }
    if (gArenaPos + sizeof(Expr) > gArenaCap) {
        gArenaCap = sizeof(Expr) * 4096;
        gArena.push_back((char *)aligned_alloc(16, gArenaCap));
        gArenaPos = 0;
    }
    Expr *e = new (gArena.back() + gArenaPos) Expr();
    gArenaPos += sizeof(Expr);
    e->k = k;
    e->w = w;
    e->aux = aux;
    e->a = a;
    e->b = b;
    e->c = c;
    e->v = v;
    e->id = gCount++;
    e->hasFp = k >= K::FAdd || (a && a->hasFp) || (b && b->hasFp) || (c && c->hasFp);
    if (k == K::Sym)
        e->syms = internSet({(uint32_t)v});
    else {
        const SymSet *s = emptySet();
        if (a) s = unite(s, a->syms);
        if (b) s = unite(s, b->syms);
        if (c) s = unite(s, c->syms);
        e->syms = s;
    }
    e->next = gTab[i];
    gTab[i] = e;
    return e;
}

E mkConst(u128 v, unsigned w) { return mkRaw(K::Const, w, 0, nullptr, nullptr, nullptr, v & maskW(w)); }
E mkSym(uint32_t id, unsigned w) { return mkRaw(K::Sym, w, 0, nullptr, nullptr, nullptr, id); }

// ---------------------------------------------------------------- concrete semantics
static double asD(u128 v)
{
    uint64_t x = (uint64_t)v;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
static float asF(u128 v)
{
    uint32_t x = (uint32_t)v;
    float d;
    memcpy(&d, &x, 4);
    return d;
}
static u128 ofD(double d)
{
    uint64_t x;
    memcpy(&x, &d, 8);
    return x;
}
static u128 ofF(float d)
{
    uint32_t x;
    memcpy(&x, &d, 4);
    return x;
}

u128 fpOp(K k, u128 a, u128 b, unsigned wa, unsigned w, unsigned aux)
{
    bool d = wa == 64;
    switch (k) {
    case K::FAdd: return d ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
    case K::FSub: return d ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
    case K::FMul: return d ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
    case K::FDiv: return d ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
    case K::FRem: return d ? ofD(fmod(asD(a), asD(b))) : ofF(fmodf(asF(a), asF(b)));
    case K::FOeq: return d ? asD(a) == asD(b) : asF(a) == asF(b);
    case K::FOlt: return d ? asD(a) < asD(b) : asF(a) < asF(b);
    case K::FOle: return d ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case K::FUno: return d ? (asD(a) != asD(a) || asD(b) != asD(b)) : (asF(a) != asF(a) || asF(b) != asF(b));
    case K::FToS: {
        double x = d ? asD(a) : (double)asF(a);
        if (w <= 32) {
            // cvttsd2si r32 for w==32; narrower: via 32
            if (!(x > -2147483649.0 && x < 2147483648.0)) return (u128)0x80000000u & maskW(w);
            return (u128)(i128)(int32_t)x & maskW(w);
        }
        if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return ((u128)1 << 63) & maskW(w);
        return (u128)(i128)(int64_t)x & maskW(w);
    }
    case K::FToU: {
        double x = d ? asD(a) : (double)asF(a);
        if (w < 32) {
            if (!(x > -2147483649.0 && x < 2147483648.0)) return (u128)0x80000000u & maskW(w);
            return (u128)(i128)(int32_t)x & maskW(w);
        }
        if (w == 32) {
            // cvttsd2si r64, truncated
            if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0;
            return (u128)(i128)(int64_t)x & maskW(32);
        }
        // x86-64 clang lowering: signed conversion, and conversion of (x - 2^63), blended on sign
        auto cvt = [](double y) -> uint64_t {
            if (!(y >= -9223372036854775808.0 && y < 9223372036854775808.0)) return 1ull << 63;
            return (uint64_t)(int64_t)y;
        };
        uint64_t lo = cvt(x), hi = cvt(x - 9223372036854775808.0);
        return lo | (hi & (uint64_t)((int64_t)lo >> 63));
    }
    case K::SToF: {
        i128 x = sextW(a, wa);
        return w == 64 ? ofD((double)x) : ofF((float)x);
    }
    case K::UToF: return w == 64 ? ofD((double)a) : ofF((float)a);
    case K::FExt: return ofD((double)asF(a));
    case K::FTrunc: return ofF((float)asD(a));
    case K::FRound: {
        if (d) {
            double x = asD(a);
            switch (aux) {
            case 0: return ofD(round(x));
            case 1: return ofD(nearbyint(x));
            case 2: return ofD(floor(x));
            case 3: return ofD(ceil(x));
            default: return ofD(trunc(x));
            }
        }
        float x = asF(a);
        switch (aux) {
        case 0: return ofF(roundf(x));
        case 1: return ofF(nearbyintf(x));
        case 2: return ofF(floorf(x));
        case 3: return ofF(ceilf(x));
        default: return ofF(truncf(x));
        }
    }
    case K::FSqrt: return d ? ofD(sqrt(asD(a))) : ofF(sqrtf(asF(a)));
    case K::Uf1: {
        double x = d ? asD(a) : (double)asF(a), r = 0;
        switch (aux) {
        case 0: r = log(x); break;
        case 1: r = exp(x); break;
        case 2: r = log10(x); break;
        case 3: r = log2(x); break;
        case 4: r = exp2(x); break;
        }
        return d ? ofD(r) : ofF((float)r);
    }
    case K::Uf2: {
        double x = d ? asD(a) : (double)asF(a), y = d ? asD(b) : (double)asF(b), r = 0;
        if (aux == 0) r = pow(x, y);
        return d ? ofD(r) : ofF((float)r);
    }
    default: return 0;
    }
}

static u128 binOp(K k, u128 a, u128 b, unsigned w)
{
    u128 m = maskW(w);
    switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b == 0 ? m : (a / b) & m;
    case K::URem: return b == 0 ? a : (a % b) & m;
    case K::SDiv: {
        i128 x = sextW(a, w), y = sextW(b, w);
        if (y == 0) return (x < 0 ? 1 : m) & m;
        if (y == -1) return (u128)(-x) & m;
        return (u128)(x / y) & m;
    }
    case K::SRem: {
        i128 x = sextW(a, w), y = sextW(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: {
        i128 x = sextW(a, w);
        unsigned s = b >= w ? w - 1 : (unsigned)b;
        return (u128)(x >> s) & m;
    }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextW(a, w) < sextW(b, w);
    case K::Sle: return sextW(a, w) <= sextW(b, w);
    default: return 0;
    }
}

static uint32_t gEpoch = 0;
Model *newModel(const Model *base)
{
    auto *m = new Model();
    if (base) m->vals = base->vals;
    m->epoch = ++gEpoch;
    return m;
}

u128 evalE(E e, const Model &m)
{
    if (e->k == K::Const) return e->v;
    if (e->evEpoch == m.epoch) return e->evVal;
    u128 r;
    switch (e->k) {
    case K::Sym: r = m.get((uint32_t)e->v) & maskW(e->w); break;
    case K::Ite: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    case K::Concat: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    case K::Extract: r = (evalE(e->a, m) >> e->aux) & maskW(e->w); break;
    case K::ZExt: r = evalE(e->a, m); break;
    case K::SExt: r = (u128)sextW(evalE(e->a, m), e->a->w) & maskW(e->w); break;
    default:
        if (e->k >= K::FAdd)
            r = fpOp(e->k, evalE(e->a, m), e->b ? evalE(e->b, m) : 0, e->a->w, e->w, e->aux);
        else
            r = binOp(e->k, evalE(e->a, m), evalE(e->b, m), e->a->w);
    }
    e->evEpoch = m.epoch;
    e->evVal = r;
    return r;
}

// ---------------------------------------------------------------- known zero bits
static u128 knownZero(E e)
{
    if (e->kzDone) return e->kz;
    u128 r = 0, m = maskW(e->w);
    switch (e->k) {
    case K::Const: r = ~e->v & m; break;
    case K::ZExt: r = (knownZero(e->a) | ~maskW(e->a->w)) & m; break;
    case K::Concat: r = (knownZero(e->a) << e->b->w) | knownZero(e->b); break;
    case K::Extract: r = (knownZero(e->a) >> e->aux) & m; break;
    case K::And: r = knownZero(e->a) | knownZero(e->b); break;
    case K::Or: case K::Xor: r = knownZero(e->a) & knownZero(e->b); break;
    case K::Ite: r = knownZero(e->b) & knownZero(e->c); break;
    case K::Shl:
        if (isC(e->b) && e->b->v < e->w) r = ((knownZero(e->a) << (unsigned)e->b->v) | maskW((unsigned)e->b->v)) & m;
        break;
    case K::URem:
        if (isC(e->b) && e->b->v) { unsigned n = 0; u128 x = e->b->v - 1; while (x) { n++; x >>= 1; } r = m & ~maskW(n); }
        break;
    case K::UDiv:
        if (isC(e->b) && e->b->v) {
            u128 mx = (~knownZero(e->a) & m) / e->b->v;
            // upper bound of a is value with all unknown bits set
            unsigned n = 0; while (mx) { n++; mx >>= 1; }
            r = m & ~maskW(n);
        }
        break;
    case K::Add: {
        u128 ma = ~knownZero(e->a) & m, mb = ~knownZero(e->b) & m;
        unsigned na = 0, nb = 0;
        while (ma) { na++; ma >>= 1; }
        while (mb) { nb++; mb >>= 1; }
        unsigned n = std::max(na, nb) + 1;
        if (n < e->w) r = m & ~maskW(n);
        break;
    }
    case K::Mul: {
        u128 ma = ~knownZero(e->a) & m, mb = ~knownZero(e->b) & m;
        unsigned na = 0, nb = 0;
        while (ma) { na++; ma >>= 1; }
        while (mb) { nb++; mb >>= 1; }
        if (na + nb < e->w) r = m & ~maskW(na + nb);
        break;
    }
    default: break;
    }
    e->kz = r;
    e->kzDone = true;
    return r;
}

// ---------------------------------------------------------------- constructors with simplification
E mkNot(E a) { return mkBin(K::Xor, a, mkConst(1, 1)); }

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case K::Const: return mkConst(a->v >> lo, w);
    case K::Extract: return mkExtract(a->a, a->aux + lo, w);
    case K::Concat: {
        unsigned lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo >= a->a->w) return mkConst(0, w);
        return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K::SExt:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
        return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K::And: case K::Or: case K::Xor:
        return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case K::Ite:
        if (isC(a->b) || isC(a->c))
            return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    u128 kz = knownZero(a);
    if (((kz >> lo) & maskW(w)) == maskW(w)) return mkConst(0, w);
    return mkRaw(K::Extract, w, lo, a);
}

E mkConcat(E hi, E lo)
{
    if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, hi->w + lo->w);
    if (isC(hi, 0)) return mkZExt(lo, hi->w + lo->w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->a, lo->aux, hi->w + lo->w);
    if (hi->k == K::Extract && hi->a == lo && hi->aux == lo->w)
        return mkExtract(hi->a, 0, hi->w + lo->w);
    // concat(x, concat(y,z)) where x,y merge
    if (lo->k == K::Concat) {
        E y = lo->a;
        if (hi->k == K::Extract && y->k == K::Extract && hi->a == y->a && hi->aux == y->aux + y->w)
            return mkConcat(mkExtract(hi->a, y->aux, hi->w + y->w), lo->b);
        if (isC(hi) && isC(y)) return mkConcat(mkConst((hi->v << y->w) | y->v, hi->w + y->w), lo->b);
    }
    if (hi->k == K::Concat) {
        E y = hi->b;
        if (lo->k == K::Extract && y->k == K::Extract && lo->a == y->a && y->aux == lo->aux + lo->w)
            return mkConcat(hi->a, mkExtract(lo->a, lo->aux, lo->w + y->w));
        if (isC(lo) && isC(y)) return mkConcat(hi->a, mkConst((y->v << lo->w) | lo->v, lo->w + y->w));
    }
    if (hi->k == K::ZExt) // concat(zext(x), lo) = zext(concat(x, lo))
        return mkZExt(mkConcat(hi->a, lo), hi->w + lo->w);
    // sign bytes: concat(sext-high part, x): recognise extract of sext handled by mkExtract(SExt)
    return mkRaw(K::Concat, hi->w + lo->w, 0, hi, lo);
}

E mkZExt(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkConst(a->v, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    return mkRaw(K::ZExt, w, 0, a);
}

E mkSExt(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkConst((u128)sextW(a->v, a->w), w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if ((knownZero(a) >> (a->w - 1)) & 1) return mkZExt(a, w);
    return mkRaw(K::SExt, w, 0, a);
}

E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (c->k == K::Xor && isC(c->b, 1)) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return mkNot(c);
        if (isC(a, 1)) return mkBin(K::Or, c, b);
        if (isC(a, 0)) return mkBin(K::And, mkNot(c), b);
        if (isC(b, 0)) return mkBin(K::And, c, a);
        if (isC(b, 1)) return mkBin(K::Or, mkNot(c), a);
        if (a == c) return mkBin(K::Or, c, b);
        if (b == c) return mkBin(K::And, c, a);
    }
    if (a->k == K::Ite && a->a == c) return mkIte(c, a->b, b);
    if (b->k == K::Ite && b->a == c) return mkIte(c, a, b->c);
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (b->k == K::Ite && b->b == a) return mkIte(mkBin(K::Or, c, b->a), a, b->c);
    return mkRaw(K::Ite, a->w, 0, c, a, b);
}

static bool contiguousRuns(u128 v, unsigned w, std::vector<std::pair<unsigned, unsigned>> &runs)
{ // runs of ones: (lo, len)
    unsigned i = 0;
    while (i < w) {
        if ((v >> i) & 1) {
            unsigned j = i;
            while (j < w && ((v >> j) & 1)) j++;
            runs.push_back({i, j - i});
            i = j;
        } else
            i++;
    }
    return true;
}

static E andMask(E a, u128 m)
{
    std::vector<std::pair<unsigned, unsigned>> runs;
    contiguousRuns(m, a->w, runs);
    E r = nullptr;
    unsigned pos = 0;
    auto push = [&](E x) {
        r = r ? mkConcat(x, r) : x;
        pos += x->w;
    };
    for (auto &p : runs) {
        if (p.first > pos) push(mkConst(0, p.first - pos));
        push(mkExtract(a, p.first, p.second));
    }
    if (pos < a->w) push(mkConst(0, a->w - pos));
    return r;
}

static int log2c(u128 v)
{
    if (v == 0 || (v & (v - 1))) return -1;
    int n = 0;
    while (v > 1) {
        v >>= 1;
        n++;
    }
    return n;
}

static unsigned effWidth(E e)
{ // number of low bits possibly nonzero
    u128 m = ~knownZero(e) & maskW(e->w);
    unsigned n = 0;
    while (m) {
        n++;
        m >>= 1;
    }
    return n;
}

static E mergeDisjoint(E a, E b)
{ // a|b with disjoint known bits: build concat by segments when cheap
    u128 ua = ~knownZero(a) & maskW(a->w), ub = ~knownZero(b) & maskW(b->w);
    std::vector<std::pair<unsigned, unsigned>> ra, rb;
    contiguousRuns(ua, a->w, ra);
    contiguousRuns(ub, b->w, rb);
    if (ra.size() + rb.size() > 6) return nullptr;
    E r = nullptr;
    unsigned pos = 0;
    auto push = [&](E x) {
        r = r ? mkConcat(x, r) : x;
        pos += x->w;
    };
    size_t i = 0, j = 0;
    while (i < ra.size() || j < rb.size()) {
        bool useA = j >= rb.size() || (i < ra.size() && ra[i].first < rb[j].first);
        auto p = useA ? ra[i++] : rb[j++];
        if (p.first > pos) push(mkConst(0, p.first - pos));
        push(mkExtract(useA ? a : b, p.first, p.second));
    }
    if (pos < a->w) push(mkConst(0, a->w - pos));
    return r;
}

E mkBin(K k, E a, E b)
{
    unsigned w = a->w;
    if (k >= K::Eq && k <= K::Sle) return mkCmp(k, a, b);
    if (isC(a) && isC(b)) return mkConst(binOp(k, a->v, b->v, w), w);
    switch (k) {
    case K::Add: case K::Mul: case K::And: case K::Or: case K::Xor:
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        break;
    default: break;
    }
    u128 m = maskW(w);
    switch (k) {
    case K::Add:
        if (isC(b, 0)) return a;
        if (w == 1) return mkBin(K::Xor, a, b);
        if (isC(b)) {
            if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(a->b->v + b->v, w));
            if (a->k == K::Ite && isC(a->b) && isC(a->c))
                return mkIte(a->a, mkConst(a->b->v + b->v, w), mkConst(a->c->v + b->v, w));
        } else {
            if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
            if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
            if (a->k == K::Sub && a->b == b) return a->a;
            if (b->k == K::Sub && b->b == a) return b->a;
            if ((knownZero(a) | knownZero(b)) == m) return mkBin(K::Or, a, b);
        }
        break;
    case K::Sub:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(K::Add, a, mkConst(-b->v, w));
        if (a->k == K::Add && a->a == b) return a->b;
        if (a->k == K::Add && a->b == b) return a->a;
        if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
        if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst(-b->b->v, w));
        break;
    case K::Mul:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b)) {
            int n = log2c(b->v);
            if (n > 0) return mkBin(K::Shl, a, mkConst(n, w));
        }
        break;
    case K::UDiv:
        if (isC(b, 1)) return a;
        if (isC(b)) {
            int n = log2c(b->v);
            if (n > 0) return mkBin(K::LShr, a, mkConst(n, w));
            unsigned ew = effWidth(a);
            if (b->v) {
                if (maskW(ew) < b->v) return mkConst(0, w);
                if (ew < w && ew > 0) return mkZExt(mkBin(K::UDiv, mkExtract(a, 0, ew), mkConst(b->v, ew)), w);
            }
        }
        break;
    case K::URem:
        if (isC(b, 1)) return mkConst(0, w);
        if (isC(b)) {
            int n = log2c(b->v);
            if (n > 0) return mkZExt(mkExtract(a, 0, n), w);
            unsigned ew = effWidth(a);
            if (b->v) {
                if (maskW(ew) < b->v) return a;
                if (ew < w && ew > 0) return mkZExt(mkBin(K::URem, mkExtract(a, 0, ew), mkConst(b->v, ew)), w);
            }
        }
        break;
    case K::SDiv:
    case K::SRem:
        if (isC(b, 1)) return k == K::SDiv ? a : mkConst(0, w);
        if (((knownZero(a) >> (w - 1)) & 1) && ((knownZero(b) >> (w - 1)) & 1))
            return mkBin(k == K::SDiv ? K::UDiv : K::URem, a, b);
        break;
    case K::And:
        if (a == b) return a;
        if (isC(b, 0)) return b;
        if (isC(b) && b->v == m) return a;
        if (w == 1) {
            if (a->k == K::Xor && isC(a->b, 1) && a->a == b) return mkConst(0, 1);
            if (b->k == K::Xor && isC(b->b, 1) && b->a == a) return mkConst(0, 1);
            if (a->k == K::And && (a->a == b || a->b == b)) return a;
            if (b->k == K::And && (b->a == a || b->b == a)) return b;
            break;
        }
        if (isC(b)) return andMask(a, b->v);
        if ((knownZero(a) | knownZero(b)) == m) return mkConst(0, w);
        break;
    case K::Or:
        if (a == b) return a;
        if (isC(b, 0)) return a;
        if (isC(b) && b->v == m) return b;
        if (w == 1) {
            if (a->k == K::Xor && isC(a->b, 1) && a->a == b) return mkConst(1, 1);
            if (b->k == K::Xor && isC(b->b, 1) && b->a == a) return mkConst(1, 1);
            if (a->k == K::Or && (a->a == b || a->b == b)) return a;
            if (b->k == K::Or && (b->a == a || b->b == a)) return b;
            break;
        }
        if ((knownZero(a) | knownZero(b)) == m) {
            E r = mergeDisjoint(a, b);
            if (r) return r;
        }
        break;
    case K::Xor:
        if (a == b) return mkConst(0, w);
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(a->b->v ^ b->v, w));
        if (w == 1 && isC(b, 1)) {
            switch (a->k) {
            case K::Ult: return mkCmp(K::Ule, a->b, a->a);
            case K::Ule: return mkCmp(K::Ult, a->b, a->a);
            case K::Slt: return mkCmp(K::Sle, a->b, a->a);
            case K::Sle: return mkCmp(K::Slt, a->b, a->a);
            default: break;
            }
        }
        break;
    case K::Shl:
        if (isC(b)) {
            if (b->v == 0) return a;
            if (b->v >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->v;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K::LShr:
        if (isC(b)) {
            if (b->v == 0) return a;
            if (b->v >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->v;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::AShr:
        if (isC(b)) {
            if (b->v == 0) return a;
            unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    // push ops with constant through Ite of constants
    if (isC(b) && a->k == K::Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkConst(binOp(k, a->b->v, b->v, w), w), mkConst(binOp(k, a->c->v, b->v, w), w));
    if (isC(a) && b->k == K::Ite && isC(b->b) && isC(b->c))
        return mkIte(b->a, mkConst(binOp(k, a->v, b->b->v, w), w), mkConst(binOp(k, a->v, b->c->v, w), w));
    return mkRaw(k, w, 0, a, b);
}

E mkCmp(K k, E a, E b)
{
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkConst(binOp(k, a->v, b->v, w), 1);
    if (a == b) return mkConst(k == K::Eq || k == K::Ule || k == K::Sle, 1);
    u128 m = maskW(w);
    if (k == K::Eq) {
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        if (w == 1) {
            if (isC(b)) return b->v ? a : mkNot(a);
            return mkNot(mkBin(K::Xor, a, b));
        }
        if (isC(b)) {
            u128 c = b->v;
            if (c & knownZero(a)) return mkConst(0, 1);
            switch (a->k) {
            case K::Add:
                if (isC(a->b)) return mkCmp(K::Eq, a->a, mkConst(c - a->b->v, w));
                break;
            case K::Xor:
                if (isC(a->b)) return mkCmp(K::Eq, a->a, mkConst(c ^ a->b->v, w));
                break;
            case K::ZExt: return mkCmp(K::Eq, a->a, mkConst(c, a->a->w));
            case K::SExt: {
                u128 t = c & maskW(a->a->w);
                if (((u128)sextW(t, a->a->w) & m) != c) return mkConst(0, 1);
                return mkCmp(K::Eq, a->a, mkConst(t, a->a->w));
            }
            case K::Concat:
                return mkAnd1(mkCmp(K::Eq, a->a, mkConst(c >> a->b->w, a->a->w)),
                              mkCmp(K::Eq, a->b, mkConst(c, a->b->w)));
            case K::Ite:
                if (isC(a->b) && isC(a->c)) {
                    bool x = a->b->v == c, y = a->c->v == c;
                    if (x && y) return mkConst(1, 1);
                    if (x) return a->a;
                    if (y) return mkNot(a->a);
                    return mkConst(0, 1);
                }
                if (isC(a->b) || isC(a->c))
                    return mkIte(a->a, mkCmp(K::Eq, a->b, b), mkCmp(K::Eq, a->c, b));
                break;
            case K::Sub:
                if (c == 0) return mkCmp(K::Eq, a->a, a->b);
                break;
            case K::Or:
                if (c == 0) return mkAnd1(mkCmp(K::Eq, a->a, b), mkCmp(K::Eq, a->b, b));
                break;
            default: break;
            }
        } else {
            if (a->k == K::ZExt && b->k == K::ZExt) {
                unsigned n = std::max(a->a->w, b->a->w);
                return mkCmp(K::Eq, mkZExt(a->a, n), mkZExt(b->a, n));
            }
            if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkCmp(K::Eq, a->a, b->a);
            if (a->k == K::Add && isC(a->b) && b->k == K::Add && isC(b->b))
                return mkCmp(K::Eq, a->a, mkBin(K::Add, b->a, mkConst(b->b->v - a->b->v, w)));
            if (a->k == K::Add && (a->a == b)) return mkCmp(K::Eq, a->b, mkConst(0, w));
            if (b->k == K::Add && (b->a == a)) return mkCmp(K::Eq, b->b, mkConst(0, w));
            if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
                return mkAnd1(mkCmp(K::Eq, a->a, b->a), mkCmp(K::Eq, a->b, b->b));
        }
        return mkRaw(K::Eq, 1, 0, a, b);
    }
    if (w == 1) {
        switch (k) {
        case K::Ult: return mkAnd1(mkNot(a), b);
        case K::Ule: return mkOr1(mkNot(a), b);
        case K::Slt: return mkAnd1(a, mkNot(b));
        default: return mkOr1(a, mkNot(b));
        }
    }
    if (k == K::Ult || k == K::Ule) {
        if (k == K::Ult && isC(b, 0)) return mkConst(0, 1);
        if (k == K::Ult && isC(b, 1)) return mkCmp(K::Eq, a, mkConst(0, w));
        if (k == K::Ule && isC(b) && b->v == m) return mkConst(1, 1);
        if (k == K::Ule && isC(b)) return mkCmp(K::Ult, a, mkConst(b->v + 1, w));
        if (k == K::Ule && isC(a, 0)) return mkConst(1, 1);
        if (k == K::Ule && isC(a)) return mkCmp(K::Ult, mkConst(a->v - 1, w), b);
        if (k == K::Ult && isC(a) && a->v == m) return mkConst(0, 1);
        if (k == K::Ult && isC(a, 0)) return mkNot(mkCmp(K::Eq, b, mkConst(0, w)));
        if (isC(b)) { // a < c (only Ult here)
            unsigned ew = effWidth(a);
            if (maskW(ew) < b->v) return mkConst(1, 1);
            if (ew < w) return mkCmp(k, mkExtract(a, 0, ew), mkConst(b->v, ew));
        }
        if (isC(a)) { // c < b
            unsigned ew = effWidth(b);
            if (maskW(ew) <= a->v) return mkConst(0, 1);
            if (ew < w) return mkCmp(k, mkConst(a->v, ew), mkExtract(b, 0, ew));
        }
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned n = std::max(a->a->w, b->a->w);
            return mkCmp(k, mkZExt(a->a, n), mkZExt(b->a, n));
        }
        if (a->k == K::Ite && isC(b) && isC(a->b) && isC(a->c))
            return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
        if (b->k == K::Ite && isC(a) && isC(b->b) && isC(b->c))
            return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
        return mkRaw(k, 1, 0, a, b);
    }
    // signed
    bool na = (knownZero(a) >> (w - 1)) & 1, nb = (knownZero(b) >> (w - 1)) & 1;
    if (na && nb) return mkCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
    u128 smax = m >> 1, smin = (m >> 1) + 1;
    if (k == K::Sle && isC(b)) {
        if (b->v == smax) return mkConst(1, 1);
        return mkCmp(K::Slt, a, mkConst(b->v + 1, w));
    }
    if (k == K::Sle && isC(a)) {
        if (a->v == smin) return mkConst(1, 1);
        return mkCmp(K::Slt, mkConst(a->v - 1, w), b);
    }
    if (k == K::Slt && isC(b)) {
        if (b->v == smin) return mkConst(0, 1);
        if (na && (b->v >> (w - 1))) return mkConst(0, 1);
    }
    if (k == K::Slt && isC(a)) {
        if (a->v == smax) return mkConst(0, 1);
        if (nb && (a->v >> (w - 1))) return mkConst(1, 1);
    }
    if (k == K::Slt && a->k == K::SExt && isC(b)) {
        i128 c = sextW(b->v, w);
        unsigned n = a->a->w;
        i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
        if (c > hi) return mkConst(1, 1);
        if (c <= lo) return mkConst(0, 1);
        return mkCmp(K::Slt, a->a, mkConst((u128)c, n));
    }
    if (k == K::Slt && b->k == K::SExt && isC(a)) {
        i128 c = sextW(a->v, w);
        unsigned n = b->a->w;
        i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
        if (c >= hi) return mkConst(0, 1);
        if (c < lo) return mkConst(1, 1);
        return mkCmp(K::Slt, mkConst((u128)c, n), b->a);
    }
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    if (a->k == K::Ite && isC(b) && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
    if (b->k == K::Ite && isC(a) && isC(b->b) && isC(b->c))
        return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
    return mkRaw(k, 1, 0, a, b);
}

// exponent e when c is the double 2^e with |e| <= 200
static bool pow2Double(E c, int &e)
{
    if (!isC(c) || c->w != 64) return false;
    uint64_t u = (uint64_t)c->v;
    if (u & 0x800fffffffffffffull) return false;
    e = (int)(u >> 52) - 1023;
    return e >= -200 && e <= 200;
}
static E dblConst(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    return mkConst(u, 64);
}
// x as integer * 2^e, the integer at most 53 bits wide
static bool scaledInt(E x, E &i, bool &sgn, int &e)
{
    e = 0;
    if (x->w != 64) return false;
    if (x->k == K::FMul && pow2Double(x->b, e)) x = x->a;
    else if (x->k == K::FMul) return false;
    if ((x->k != K::SToF && x->k != K::UToF) || x->a->w > 53) return false;
    i = x->a;
    sgn = x->k == K::SToF;
    return true;
}
// comparison of integer * 2^e with a constant
static E cmpScaled(K k, E i, bool sgn, int e, double c, bool constLeft)
{
    E wide = sgn ? mkSExt(i, 64) : mkZExt(i, 64);
    if (c != c) return mkConst(0, 1);
    double q = ldexp(c, -e);
    const double big = 4e18;
    if (k == K::FOeq) {
        if (q != floor(q) || q > big || q < -big) return mkConst(0, 1);
        return mkCmp(K::Eq, wide, mkConst((u128)(uint64_t)(int64_t)q, 64));
    }
    if (q > big) return mkConst(constLeft ? 0 : 1, 1);
    if (q < -big) return mkConst(constLeft ? 1 : 0, 1);
    auto I = [](double d) { return mkConst((u128)(uint64_t)(int64_t)d, 64); };
    if (!constLeft) return k == K::FOlt ? mkCmp(K::Slt, wide, I(ceil(q))) : mkCmp(K::Sle, wide, I(floor(q)));
    return k == K::FOlt ? mkCmp(K::Slt, I(floor(q)), wide) : mkCmp(K::Sle, I(ceil(q)), wide);
}
E mkFp(K k, E a, E b, unsigned w, unsigned aux)
{
    if (isC(a) && (!b || isC(b))) return mkConst(fpOp(k, a->v, b ? b->v : 0, a->w, w, aux), w);
    // Exactness-preserving simplifications
    if ((k == K::SToF || k == K::UToF)) {
        if (a->k == K::ZExt) return mkFp(K::UToF, a->a, nullptr, w, 0);
        if (k == K::SToF && a->k == K::SExt) return mkFp(K::SToF, a->a, nullptr, w, 0);
    }
    if (k == K::FTrunc && a->k == K::FExt) return a->a; // float->double->float (NaN payload aside)
    if (k == K::FRound) {
        // rounding an integer-valued conversion of <= 53 bits is the identity
        if ((a->k == K::SToF || a->k == K::UToF)) return a;
        if (a->k == K::FRound) return a;
    }
    if ((k == K::FToS || k == K::FToU) && (a->k == K::SToF || a->k == K::UToF)) {
        unsigned prec = a->w == 64 ? 53 : 24;
        unsigned iw = a->a->w;
        if (iw <= prec && iw < 64) {
            bool sgn = a->k == K::SToF;
            // fits in the destination?
            if (k == K::FToS && (sgn ? iw <= w : iw < w)) return sgn ? mkSExt(a->a, w) : mkZExt(a->a, w);
            if (k == K::FToU && !sgn && iw <= w) return mkZExt(a->a, w);
        }
    }
    if (k == K::FAdd || k == K::FMul) {
        if (isC(a)) std::swap(a, b);
    }
    if (w == 64 || k == K::FOlt || k == K::FOle || k == K::FOeq) {
        int e1, e2, e3;
        E i1, i2;
        bool s1, s2;
        // dividing by a power of two is multiplying by its reciprocal
        if (k == K::FDiv && pow2Double(b, e1)) return mkFp(K::FMul, a, dblConst(ldexp(1, -e1)), 64, 0);
        if (k == K::FMul && pow2Double(b, e1) && a->k == K::FMul && scaledInt(a, i1, s1, e2)) {
            if (e1 + e2 == 0) return a->a;
            if (abs(e1 + e2) <= 200) return mkFp(K::FMul, a->a, dblConst(ldexp(1, e1 + e2)), 64, 0);
        }
        if (k == K::FMul && pow2Double(b, e3) && e3 == 0) return a;
        if (k == K::FOlt || k == K::FOle || k == K::FOeq) {
            bool l = a->w == 64 && scaledInt(a, i1, s1, e1), r = b->w == 64 && scaledInt(b, i2, s2, e2);
            auto D = [](E c) { double d; uint64_t u = (uint64_t)c->v; memcpy(&d, &u, 8); return d; };
            if (l && isC(b)) return cmpScaled(k, i1, s1, e1, D(b), false);
            if (r && isC(a)) return cmpScaled(k, i2, s2, e2, D(a), true);
            if (l && r && e1 == e2) {
                E x = s1 ? mkSExt(i1, 64) : mkZExt(i1, 64), y = s2 ? mkSExt(i2, 64) : mkZExt(i2, 64);
                return mkCmp(k == K::FOeq ? K::Eq : k == K::FOlt ? K::Slt : K::Sle, x, y);
            }
        }
    }
    return mkRaw(k, w, aux, a, b);
}

std::string exprStr(E e, int depth)
{
    static const char *n[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
        "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext",
        "fadd", "fsub", "fmul", "fdiv", "frem", "foeq", "folt", "fole", "funo", "ftos", "ftou", "stof", "utof", "fext",
        "ftrunc", "fround", "fsqrt", "uf1", "uf2"};
    if (e->k == K::Const) {
        char buf[64];
        snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->v, e->w);
        return buf;
    }
    if (e->k == K::Sym) return gSyms[(size_t)e->v].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + n[(int)e->k];
    if (e->k == K::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    if (e->k == K::ZExt || e->k == K::SExt) s += std::to_string(e->w);
    for (E x : {e->a, e->b, e->c})
        if (x) s += " " + exprStr(x, depth - 1);
    return s + ")";
}
u128 knownZeroBits(E e) { return knownZero(e); }
