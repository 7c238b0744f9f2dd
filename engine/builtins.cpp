// Built-in functions of the executor: harness interface, C runtime, intrinsics, C++ ABI.
#include "pf.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

std::unordered_map<std::string, Builtin> gBuiltins;
#define BI(name) static int name(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
#define UNUSED (void)I; (void)s; (void)in; (void)ci; (void)a; (void)ret

static Val vE(E e)
{
    Val v;
    if (e->w > 64) v.e = e;
    else v = Val(e);
    return v;
}
static std::string strArg(Interp &I, State &s, const Val &v) { return I.cstr(s, I.u64c(s, v)); }
static E nz(const Val &v, unsigned w) { return mkNot(mkCmp(K::Eq, toE(v, w), mkConst(0, w))); }

static void assumeE(Interp &I, State &s, E c)
{
    if (isC(c)) {
        if (!c->v) I.endPath(End::Assume);
        return;
    }
    if (!evalE(c, *s.model)) {
        Model *m = nullptr;
        Res r = solve(s.cons, c, s.model.get(), &m, false);
        if (r == Res::Unsat) I.endPath(End::Assume);
        if (r == Res::Unknown) I.incompletePath(s, "solver-unknown-at-assume");
        s.model.reset(m);
    }
    I.addCons(s, c);
}
// fresh symbol whose value in the current model is v
static E freshSym(State &s, const std::string &name, unsigned w, u128 v)
{
    uint32_t id = newSym(name, w);
    E e = mkSym(id, w);
    if (v) {
        Model *m = newModel(s.model.get());
        if (m->vals.size() <= id) m->vals.resize(id + 1, 0);
        m->vals[id] = v;
        s.model.reset(m);
    }
    return e;
}

// ------------------------------------------------------------ harness interface
BI(b_sym)
{
    UNUSED;
    std::string n = strArg(I, s, a[0]);
    unsigned w = I.u64c(s, a[1]);
    E e = mkSym(newSym(n, w), w);
    s.inputs.push_back({n, w, e, false, 0});
    ret = Val(mkZExt(e, 64));
    return 0;
}
BI(b_sym_bytes)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), n = I.u64c(s, a[1]);
    std::string nm = strArg(I, s, a[2]);
    for (uint64_t i = 0; i < n; i++) {
        E e = mkSym(newSym(nm + "[" + std::to_string(i) + "]", 8), 8);
        s.inputs.push_back({nm + "[" + std::to_string(i) + "]", 8, e, false, 0});
        I.storeC(s, p + i, Val(e), 8);
    }
    return 0;
}
BI(b_choice)
{
    UNUSED;
    // a symbol below n, decided by forking; the symbol is created once and found again on re-execution
    std::string n = strArg(I, s, a[0]);
    uint64_t k = I.u64c(s, a[1]);
    E e;
    if (s.pendingChoice) e = s.pendingChoice;
    else {
        if (k <= 1) {
            s.inputs.push_back({n, 32, nullptr, true, 0});
            ret = Val((uint64_t)0);
            return 0;
        }
        e = mkSym(newSym(n, 32), 32);
        I.addCons(s, mkCmp(K::Ult, e, mkConst(k, 32)));
        s.pendingChoice = e;
    }
    uint64_t v = I.concretize(s, e);
    s.pendingChoice = nullptr;
    s.inputs.push_back({n, 32, e, true, v});
    ret = Val(v);
    return 0;
}
BI(b_assume) { UNUSED; assumeE(I, s, nz(a[0], 32)); return 0; }
BI(b_check) { UNUSED; I.check(s, nz(a[0], 32), strArg(I, s, a[1])); return 0; }
BI(b_reach) { UNUSED; s.reached.push_back(strArg(I, s, a[0])); return 0; }
BI(b_fail) { UNUSED; I.violation(s, "check", strArg(I, s, a[0]), ""); return 0; }
BI(b_observe)
{
    UNUSED;
    ObsRec o;
    o.name = strArg(I, s, a[0]);
    E e = toE(a[1], 64);
    for (int i = 0; i < 8; i++) o.bytes.push_back(mkExtract(e, i * 8, 8));
    s.obs.push_back(o);
    return 0;
}
BI(b_observe_bytes)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[1]), n = I.u64c(s, a[2]);
    ObsRec o;
    o.name = strArg(I, s, a[0]);
    for (uint64_t i = 0; i < n; i++) o.bytes.push_back(I.byteAt(s, p + i));
    s.obs.push_back(o);
    return 0;
}
BI(b_concretize) { UNUSED; ret = Val(I.u64c(s, a[0])); return 0; }
BI(b_is_symbolic) { UNUSED; ret = Val((uint64_t)(a[0].e != nullptr)); return 0; }
BI(b_one) { UNUSED; ret = Val(1ull); return 0; }
BI(b_zero) { UNUSED; ret = Val((uint64_t)0); return 0; }
BI(b_nop) { UNUSED; return 0; }
BI(b_param)
{
    UNUSED;
    auto it = I.opt.params.find(strArg(I, s, a[0]));
    ret = it == I.opt.params.end() ? a[1] : Val((uint64_t)strtoll(it->second.c_str(), nullptr, 0));
    return 0;
}
BI(b_note)
{
    UNUSED;
    fprintf(stderr, "note: %s %s\n", strArg(I, s, a[0]).c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : std::to_string((int64_t)a[1].c).c_str());
    return 0;
}
BI(b_note_str)
{
    UNUSED;
    fprintf(stderr, "note: %s\n", strArg(I, s, a[0]).c_str());
    return 0;
}
BI(b_unmodelled) { UNUSED; I.incompletePath(s, "unmodelled: " + strArg(I, s, a[0])); return 0; }
BI(b_locks) { UNUSED; uint64_t n = 0; for (auto &m : s.mutexes) n += m.second; ret = Val(n); return 0; }
BI(b_watch) { UNUSED; uint64_t p = I.u64c(s, a[0]); s.watch = p ? objOf(p) : 0; s.watchWrites = false; return 0; }
BI(b_watch_writes) { UNUSED; s.watchAddr = I.u64c(s, a[0]); s.watchSize = I.u64c(s, a[1]); s.watch = objOf(s.watchAddr); s.watchWrites = true; return 0; }

// is the whole buffer concrete under the path condition?
BI(b_buf_symbolic)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), n = I.u64c(s, a[1]);
    bool sy = false;
    for (uint64_t i = 0; i < n && !sy; i++) sy = !isC(I.byteAt(s, p + i));
    ret = Val((uint64_t)sy);
    return 0;
}

// ------------------------------------------------------------ number formatting
// size_t pfs_fmt_uint(char *buf, uint64_t v, unsigned base, int upper)
// digits of an unsigned value; forks on the number of digits only.  Decimal digits of a symbolic value are
// fresh characters tied to it by  value = sum of digit * 10^i  (which determines them uniquely).
BI(b_fmt_uint)
{
    UNUSED;
    uint64_t buf = I.u64c(s, a[0]);
    unsigned base = I.u64c(s, a[2]);
    bool up = I.u64c(s, a[3]);
    if (!a[1].e) {
        char t[72];
        int n = 0;
        uint64_t v = a[1].c;
        do { int d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v);
        for (int i = 0; i < n; i++) I.storeC(s, buf + i, Val((uint64_t)(uint8_t)t[n - 1 - i]), 8);
        ret = Val((uint64_t)n);
        return 0;
    }
    E v = a[1].e;
    // number of digits
    unsigned n = 1;
    u128 lim = base;
    while (lim <= (u128)~0ull) {
        if (I.forkOn(s, mkCmp(K::Ult, v, mkConst(lim, 64)))) break;
        lim *= base;
        n++;
    }
    if (base == 16 || base == 8 || base == 2) {
        unsigned b = base == 16 ? 4 : base == 8 ? 3 : 1;
        for (unsigned i = 0; i < n; i++) {
            unsigned lo = (n - 1 - i) * b;
            E d = lo + b <= 64 ? mkExtract(v, lo, b) : mkExtract(v, lo, 64 - lo);
            E d8 = mkZExt(d, 8);
            E c = mkIte(mkCmp(K::Ult, d8, mkConst(10, 8)), mkBin(K::Add, d8, mkConst('0', 8)), mkBin(K::Add, d8, mkConst((up ? 'A' : 'a') - 10, 8)));
            I.storeC(s, buf + i, Val(c), 8);
        }
    } else {
        // a number already printed on this path (or one that provably equals it) has the same digits
        for (auto &d : s.decs) {
            bool same = d.v == v;
            if (!same && d.digits.size() == n && evalE(d.v, *s.model) == evalE(v, *s.model))
                same = solve(s.cons, mkNot(mkCmp(K::Eq, d.v, v)), s.model.get(), nullptr, true) == Res::Unsat;
            if (same) {
                for (unsigned i = 0; i < n; i++) I.storeC(s, buf + i, Val(d.digits[i]), 8);
                ret = Val((uint64_t)n);
                return 0;
            }
        }
        uint64_t cv = (uint64_t)evalE(v, *s.model);
        char t[32];
        snprintf(t, sizeof t, "%llu", (unsigned long long)cv);
        unsigned W = n <= 18 ? 64 : 128;
        E acc = mkConst(0, W);
        std::vector<E> ch;
        for (unsigned i = 0; i < n; i++) {
            E c = freshSym(s, "digit", 8, (uint8_t)t[i]);
            ch.push_back(c);
        }
        for (unsigned i = 0; i < n; i++) {
            I.addCons(s, mkCmp(K::Ule, mkConst(i == 0 && n > 1 ? '1' : '0', 8), ch[i]));
            I.addCons(s, mkCmp(K::Ule, ch[i], mkConst('9', 8)));
            E d = mkBin(K::Sub, mkZExt(ch[i], W), mkConst('0', W));
            acc = mkBin(K::Add, mkBin(K::Mul, acc, mkConst(10, W)), d);
        }
        I.addCons(s, mkCmp(K::Eq, mkZExt(v, W), acc));
        s.decs.push_back({v, ch});
        for (unsigned i = 0; i < n; i++) I.storeC(s, buf + i, Val(ch[i]), 8);
    }
    ret = Val((uint64_t)n);
    return 0;
}
// int pfs_dec_lookup(const char *p, size_t n, uint64_t *out): the number whose decimal text these very bytes are
BI(b_dec_lookup)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), n = I.u64c(s, a[1]), out = I.u64c(s, a[2]);
    ret = Val((uint64_t)0);
    if (s.decs.empty() || !n || n > 20) return 0;
    std::vector<E> b;
    for (uint64_t i = 0; i < n; i++) b.push_back(I.byteAt(s, p + i));
    for (auto &d : s.decs)
        if (d.digits == b) {
            I.storeC(s, out, vE(d.v), 64);
            ret = Val((uint64_t)1);
            break;
        }
    return 0;
}
// How exact the text of v printed with this kind and precision is.
static int textClass(Interp &I, State &s, E v, int kind, int prec)
{
    if (kind == 'g' || kind == 'e') {
        int d = kind == 'e' ? prec + 1 : prec;
        if (d >= 17) return 0;
        if (v->k == K::FExt && d >= 9) return 1;
        return 2;
    }
    if (kind != 'f') return 2;
    // k / 2^m has m decimals
    if ((v->k == K::FDiv || v->k == K::FMul) && isC(v->b) && (v->a->k == K::SToF || v->a->k == K::UToF)) {
        double c;
        uint64_t u = (uint64_t)v->b->v;
        memcpy(&c, &u, 8);
        if (v->k == K::FMul) c = 1 / c;
        int ex;
        if (c > 0 && frexp(c, &ex) == 0.5 && ex - 1 <= prec && v->a->a->w <= 53) return 0;
    }
    if (v->k == K::SToF || v->k == K::UToF) return 0;
    if (prec <= 50) {
        double c = ldexp(1.0, prec), lim = 1e15;
        uint64_t cu, lu;
        memcpy(&cu, &c, 8);
        memcpy(&lu, &lim, 8);
        E sc = mkFp(K::FMul, v, mkConst(cu, 64), 64, 0);
        E r = mkFp(K::FRound, sc, nullptr, 64, 1);
        E ab = mkBin(K::And, sc, mkConst(~0ull >> 1, 64));
        E bad = mkNot(mkAnd1(mkFp(K::FOeq, sc, r, 1, 0), mkFp(K::FOlt, ab, mkConst(lu, 64), 1, 0)));
        Model *m = nullptr;
        Res q = solve(s.cons, bad, s.model.get(), &m, false);
        if (m) delete m;
        if (q == Res::Unsat) return 0;
    }
    return 2;
}
// size_t pfs_parse_token(const char *p, double *out, int asFloat): the value a printed symbolic number reads back as
BI(b_parse_token)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), out = I.u64c(s, a[1]);
    bool flt = I.u64c(s, a[2]);
    size_t idx = 0;
    for (int i = 1; i < 5; i++) idx = idx * 10 + (I.concretize(s, I.byteAt(s, p + i)) - '0');
    if (idx >= s.dblTokens.size()) I.incompletePath(s, "unknown number token");
    auto t = s.dblTokens[idx];
    ret = Val(6ull);
    if (t.cls == 0 || (t.cls == 1 && flt)) { I.storeC(s, out, Val(t.v), 64); return 0; }
    // rounded digits: some number within half a unit of the last printed place
    double eps = 0.5001 * pow(10.0, (t.kind | 32) == 'f' ? -t.prec : (t.kind | 32) == 'e' ? -t.prec : 1 - t.prec);
    uint64_t eu;
    memcpy(&eu, &eps, 8);
    E r = mkSym(newSym("text-of-double", 64), 64);
    E M = mkConst(~0ull >> 1, 64);
    E dist = mkBin(K::And, mkFp(K::FSub, r, t.v, 64, 0), M);
    E bound = mkConst(eu, 64);
    if ((t.kind | 32) != 'f') bound = mkFp(K::FMul, bound, mkBin(K::And, t.v, M), 64, 0);
    // dist <= bound
    E c = mkNot(mkOr1(mkFp(K::FOlt, bound, dist, 1, 0), mkFp(K::FUno, dist, bound, 1, 0)));
    I.addCons(s, c);
    Model *m = newModel(s.model.get());
    if (m->vals.size() <= r->v) m->vals.resize((size_t)r->v + 1);
    m->vals[(size_t)r->v] = evalE(t.v, *m);
    s.model.reset(m);
    if (!evalE(c, *m)) I.incompletePath(s, "text of a number that is not finite");
    I.storeC(s, out, Val(r), 64);
    return 0;
}
// size_t pfs_fmt_double(char *buf /*>=512*/, double v, int kind /*'g','f','e'*/, int prec, int flags)
BI(b_fmt_double)
{
    UNUSED;
    uint64_t buf = I.u64c(s, a[0]);
    char t[600];
    int n;
    if (!a[1].e) {
        double d;
        memcpy(&d, &a[1].c, 8);
        char f[16];
        int k = 0;
        f[k++] = '%';
        unsigned fl = I.u64c(s, a[4]);
        if (fl & 1) f[k++] = '#';
        if (fl & 2) f[k++] = '+';
        f[k++] = '.'; f[k++] = '*'; f[k++] = (char)I.u64c(s, a[2]); f[k] = 0;
        n = snprintf(t, sizeof t, f, (int)I.u64c(s, a[3]), d);
    } else {
        // a symbolic number prints as an opaque token; what it reads back as depends on the digits it was given
        int kind = (int)I.u64c(s, a[2]), prec = (int)I.u64c(s, a[3]);
        size_t idx = 0;
        while (idx < s.dblTokens.size() && !(s.dblTokens[idx].v == a[1].e && s.dblTokens[idx].kind == kind && s.dblTokens[idx].prec == prec)) idx++;
        if (idx == s.dblTokens.size()) s.dblTokens.push_back({a[1].e, kind, prec, textClass(I, s, a[1].e, kind | 32, prec)});
        n = snprintf(t, sizeof t, "\x01%04zu\x02", idx);
    }
    for (int i = 0; i < n; i++) I.storeC(s, buf + i, Val((uint64_t)(uint8_t)t[i]), 8);
    ret = Val((uint64_t)n);
    return 0;
}
// size_t pfs_parse_double(const char *p, size_t n, double *out): 0 when not a number; accepts what num_get/strtod would
BI(b_parse_double)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), n = I.u64c(s, a[1]), out = I.u64c(s, a[2]);
    std::string t;
    for (uint64_t i = 0; i < n && i < 400; i++) {
        E b = I.byteAt(s, p + i);
        if (!isC(b)) {
            uint64_t v = I.concretize(s, b);
            t += (char)v;
        } else t += (char)b->v;
    }
    char *e;
    double d = strtod(t.c_str(), &e);
    uint64_t r;
    memcpy(&r, &d, 8);
    I.storeC(s, out, Val(r), 64);
    ret = Val((uint64_t)(e - t.c_str()));
    return 0;
}

// ------------------------------------------------------------ memory
BI(b_malloc) { UNUSED; uint64_t n = I.u64c(s, a[0]); ret = Val(addrOf(I.alloc(s, n, 2))); return 0; }
static int badAlloc(Interp &I, State &s)
{
    auto it = I.byName.find("_ZSt17__throw_bad_allocv");
    if (it == I.byName.end() || !it->second->defined) I.incompletePath(s, "std::bad_alloc");
    std::vector<Val> none;
    I.pushCall(s, it->second, none, -1, nullptr, nullptr);
    return 1;
}
BI(b_new)
{
    UNUSED;
    if (a[0].e) {
        // an allocation whose size depends on the input: ask whether it can be huge
        if (I.forkOn(s, mkCmp(K::Ult, mkConst(1u << 26, 64), a[0].e))) {
            return badAlloc(I, s);
        }
    } else if (a[0].c > (1u << 26))
        return badAlloc(I, s);
    uint64_t n = I.u64c(s, a[0]);
    ret = Val(addrOf(I.alloc(s, n, 2)));
    return 0;
}
BI(b_calloc)
{
    UNUSED;
    uint64_t n = I.u64c(s, a[0]) * I.u64c(s, a[1]);
    uint32_t id = I.alloc(s, n, 2);
    memset(s.mem.writable(id)->data, 0, n);
    ret = Val(addrOf(id));
    return 0;
}
static void doFree(Interp &I, State &s, uint64_t p)
{
    if (!p) return;
    Obj *o = p >= (1ull << 32) ? s.mem.get(objOf(p)) : nullptr;
    if (!o) I.violation(s, "memory", "memory: free of an invalid pointer", hexU128(p));
    if (!o->alive) I.violation(s, "memory", "memory: double free", hexU128(p));
    if ((uint32_t)p || o->kind != 2) I.violation(s, "memory", "memory: free of a non-heap pointer", hexU128(p));
    I.release(s, objOf(p));
}
BI(b_free) { UNUSED; doFree(I, s, I.u64c(s, a[0])); return 0; }
BI(b_realloc)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), n = I.u64c(s, a[1]);
    uint32_t id = I.alloc(s, n, 2);
    if (p) {
        Obj *o = I.checkAccess(s, p, 0, false);
        I.copyMem(s, addrOf(id), p, std::min<uint64_t>(n, o->size));
        doFree(I, s, p);
    }
    ret = Val(addrOf(id));
    return 0;
}
BI(b_memcpy)
{
    UNUSED;
    uint64_t n = I.u64c(s, a[2]), d = I.u64c(s, a[0]), f = I.u64c(s, a[1]);
    I.copyMem(s, d, f, n);
    ret = Val(d);
    return 0;
}
BI(b_memset)
{
    UNUSED;
    uint64_t n = I.u64c(s, a[2]), d = I.u64c(s, a[0]);
    ret = Val(d);
    if (!n) return 0;
    I.checkAccess(s, d, n, true);
    Val v = a[1];
    if (v.e && v.e->w > 8) v = Val(mkExtract(v.e, 0, 8));
    else if (!v.e) v.c &= 255;
    if (!v.e) {
        Obj *o = s.mem.writable(objOf(d));
        memset(o->data + (uint32_t)d, (int)v.c, n);
        if (o->sym) memset(o->sym + (uint32_t)d, 0, n * sizeof(E));
    } else
        for (uint64_t i = 0; i < n; i++) I.storeC(s, d + i, v, 8);
    return 0;
}
BI(b_memcmp)
{
    UNUSED;
    uint64_t n = I.u64c(s, a[2]);
    uint64_t p = I.u64c(s, a[0]), q = I.u64c(s, a[1]);
    if (!n) { ret = Val((uint64_t)0); return 0; }
    I.checkAccess(s, p, n, false);
    I.checkAccess(s, q, n, false);
    std::vector<std::pair<E, E>> v;
    E r = mkConst(0, 32);
    bool ended = false;
    for (uint64_t i = 0; i < n && !ended; i++) {
        E x = I.byteAt(s, p + i), y = I.byteAt(s, q + i);
        if (x == y) continue;
        if (isC(x) && isC(y)) {
            r = mkConst((uint64_t)(x->v < y->v ? -1 : 1), 32);
            ended = true;
            break;
        }
        v.push_back({x, y});
    }
    for (size_t i = v.size(); i-- > 0;)
        r = mkIte(mkCmp(K::Eq, v[i].first, v[i].second), r, mkIte(mkCmp(K::Ult, v[i].first, v[i].second), mkConst((u128)(uint32_t)-1, 32), mkConst(1, 32)));
    ret = vE(r);
    return 0;
}
BI(b_strlen)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    uint64_t i = 0;
    while (true) {
        E b = I.byteAt(s, p + i);
        if (isC(b)) {
            if (!b->v) break;
        } else if (I.forkOn(s, mkCmp(K::Eq, b, mkConst(0, 8))))
            break;
        i++;
    }
    ret = Val(i);
    return 0;
}
BI(b_memchr)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), n = I.u64c(s, a[2]);
    E c = toE(a[1], 32);
    c = mkExtract(c, 0, 8);
    for (uint64_t i = 0; i < n; i++)
        if (I.forkOn(s, mkCmp(K::Eq, I.byteAt(s, p + i), c))) { ret = Val(p + i); return 0; }
    ret = Val((uint64_t)0);
    return 0;
}
BI(b_strchr)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    E c = mkExtract(toE(a[1], 32), 0, 8);
    for (uint64_t i = 0;; i++) {
        E b = I.byteAt(s, p + i);
        if (I.forkOn(s, mkCmp(K::Eq, b, c))) { ret = Val(p + i); return 0; }
        if (I.forkOn(s, mkCmp(K::Eq, b, mkConst(0, 8)))) { ret = Val((uint64_t)0); return 0; }
    }
}
BI(b_strcmp)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]), q = I.u64c(s, a[1]);
    bool lim = a.size() > 2;
    uint64_t n = lim ? I.u64c(s, a[2]) : ~0ull;
    for (uint64_t i = 0; i < n; i++) {
        E x = I.byteAt(s, p + i), y = I.byteAt(s, q + i);
        if (!I.forkOn(s, mkCmp(K::Eq, x, y))) {
            bool lt = I.forkOn(s, mkCmp(K::Ult, x, y));
            ret = Val((uint64_t)(uint32_t)(lt ? -1 : 1));
            return 0;
        }
        if (I.forkOn(s, mkCmp(K::Eq, x, mkConst(0, 8)))) break;
    }
    ret = Val((uint64_t)0);
    return 0;
}
BI(b_strcpy)
{
    UNUSED;
    uint64_t d = I.u64c(s, a[0]), q = I.u64c(s, a[1]);
    bool lim = a.size() > 2;
    uint64_t n = lim ? I.u64c(s, a[2]) : ~0ull, len = 0;
    while (len < n && !I.forkOn(s, mkCmp(K::Eq, I.byteAt(s, q + len), mkConst(0, 8)))) len++;
    I.copyMem(s, d, q, len);
    if (!lim) I.storeC(s, d + len, Val((uint64_t)0), 8);
    else for (uint64_t i = len; i < n; i++) I.storeC(s, d + i, Val((uint64_t)0), 8);
    ret = Val(d);
    return 0;
}

// ------------------------------------------------------------ integer intrinsics
#define W1 (ci.argw[0])
template <int op> static int b_minmax(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    E x = toE(a[0], W1), y = toE(a[1], W1);
    E c = op == 0 ? mkCmp(K::Ult, y, x) : op == 1 ? mkCmp(K::Ult, x, y) : op == 2 ? mkCmp(K::Slt, y, x) : mkCmp(K::Slt, x, y);
    ret = vE(mkIte(c, x, y));
    return 0;
}
BI(b_abs)
{
    UNUSED;
    E x = toE(a[0], W1);
    ret = vE(mkIte(mkCmp(K::Slt, x, mkConst(0, W1)), mkBin(K::Sub, mkConst(0, W1), x), x));
    return 0;
}
BI(b_bswap)
{
    UNUSED;
    E x = toE(a[0], W1), r = nullptr;
    for (unsigned i = 0; i < W1; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
    ret = vE(r);
    return 0;
}
BI(b_ctpop)
{
    UNUSED;
    E x = toE(a[0], W1), r = mkConst(0, W1);
    for (unsigned i = 0; i < W1; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(x, i, 1), W1));
    ret = vE(r);
    return 0;
}
BI(b_ctlz)
{
    UNUSED;
    E x = toE(a[0], W1), r = mkConst(W1, W1);
    for (unsigned i = 0; i < W1; i++) r = mkIte(mkExtract(x, i, 1), mkConst(W1 - 1 - i, W1), r);
    ret = vE(r);
    return 0;
}
BI(b_cttz)
{
    UNUSED;
    E x = toE(a[0], W1), r = mkConst(W1, W1);
    for (unsigned i = W1; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, W1), r);
    ret = vE(r);
    return 0;
}
template <bool left> static int b_fsh(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = W1;
    E x = toE(a[0], w), y = toE(a[1], w), k = mkBin(K::URem, toE(a[2], w), mkConst(w, w));
    E inv = mkBin(K::Sub, mkConst(w, w), k);
    E r = left ? mkBin(K::Or, mkBin(K::Shl, x, k), mkBin(K::LShr, y, inv)) : mkBin(K::Or, mkBin(K::LShr, y, k), mkBin(K::Shl, x, inv));
    ret = vE(mkIte(mkCmp(K::Eq, k, mkConst(0, w)), left ? x : y, r));
    return 0;
}
// {result, overflow}
template <int op, bool sg> static int b_ovf(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = W1, W = op == 2 ? 2 * w : w + 1;
    if (W > 128) I.incompletePath(s, "overflow intrinsic wider than 64");
    E x = toE(a[0], w), y = toE(a[1], w);
    E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
    K k = op == 0 ? K::Add : op == 1 ? K::Sub : K::Mul;
    E r = mkBin(k, X, Y);
    E lo = mkExtract(r, 0, w);
    E back = sg ? mkSExt(lo, W) : mkZExt(lo, W);
    ret = vE(lo);
    Frame &f = I.top(s);
    f.slots[in.dst + 1] = vE(mkNot(mkCmp(K::Eq, back, r)));
    return 0;
}
template <int op, bool sg> static int b_sat(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = W1, W = w + 2;
    E x = toE(a[0], w), y = toE(a[1], w);
    E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
    E r = mkBin(op == 0 ? K::Add : K::Sub, X, Y);
    u128 hi = sg ? maskW(w - 1) : maskW(w);
    u128 lo = sg ? (u128)0 - ((u128)1 << (w - 1)) : 0;
    E L = mkConst(lo & maskW(W), W), H = mkConst(hi, W);
    r = mkIte(mkCmp(K::Slt, r, L), L, mkIte(mkCmp(K::Slt, H, r), H, r));
    ret = vE(mkExtract(r, 0, w));
    return 0;
}
// i32 llvm.ucmp/scmp are newer than LLVM 18
BI(b_objectsize) { UNUSED; ret = Val(in.w == 64 ? ~0ull : 0xffffffffull); return 0; }
BI(b_first) { UNUSED; ret = a[0]; return 0; }
BI(b_memcpy_chk) { return b_memcpy(I, s, in, ci, a, ret); }

// ------------------------------------------------------------ floating point
static unsigned fw(const CallInfo &ci) { return ci.argw[0]; }
BI(b_fabs) { UNUSED; unsigned w = fw(ci); ret = vE(mkBin(K::And, toE(a[0], w), mkConst(maskW(w - 1), w))); return 0; }
template <int mode> static int b_fround(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = fw(ci);
    ret = vE(mkFp(K::FRound, toE(a[0], w), nullptr, w, mode));
    return 0;
}
BI(b_sqrt) { UNUSED; unsigned w = fw(ci); ret = vE(mkFp(K::FSqrt, toE(a[0], w), nullptr, w, 0)); return 0; }
BI(b_copysign)
{
    UNUSED;
    unsigned w = fw(ci);
    ret = vE(mkBin(K::Or, mkBin(K::And, toE(a[0], w), mkConst(maskW(w - 1), w)), mkBin(K::And, toE(a[1], w), mkConst((u128)1 << (w - 1), w))));
    return 0;
}
BI(b_fmuladd)
{
    UNUSED;
    unsigned w = fw(ci);
    ret = vE(mkFp(K::FAdd, mkFp(K::FMul, toE(a[0], w), toE(a[1], w), w, 0), toE(a[2], w), w, 0));
    return 0;
}
template <int mx> static int b_fminmax(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = fw(ci);
    E x = toE(a[0], w), y = toE(a[1], w);
    E lt = mx ? mkFp(K::FOlt, y, x, 1, 0) : mkFp(K::FOlt, x, y, 1, 0);
    E xn = mkFp(K::FUno, x, x, 1, 0), yn = mkFp(K::FUno, y, y, 1, 0);
    ret = vE(mkIte(xn, y, mkIte(yn, x, mkIte(lt, x, y))));
    return 0;
}
template <int id> static int b_uf1(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = fw(ci);
    ret = vE(mkFp(K::Uf1, toE(a[0], w), nullptr, w, id));
    return 0;
}
template <int id> static int b_uf2(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = fw(ci);
    ret = vE(mkFp(K::Uf2, toE(a[0], w), toE(a[1], w), w, id));
    return 0;
}
template <int mode> static int b_lround(Interp &I, State &s, const Inst &in, const CallInfo &ci, std::vector<Val> &a, Val &ret)
{
    UNUSED;
    unsigned w = fw(ci);
    ret = vE(mkFp(K::FToS, mkFp(K::FRound, toE(a[0], w), nullptr, w, mode), nullptr, in.w ? in.w : 64, 0));
    return 0;
}
// llvm.is.fpclass(x, mask)
BI(b_isfpclass)
{
    UNUSED;
    unsigned w = fw(ci);
    unsigned m = I.u64c(s, a[1]);
    E x = toE(a[0], w);
    unsigned eb = w == 64 ? 11 : 8, mb = w - eb - 1;
    E sg = mkExtract(x, w - 1, 1), ex = mkExtract(x, mb, eb), mn = mkExtract(x, 0, mb);
    E exMax = mkCmp(K::Eq, ex, mkConst(maskW(eb), eb)), ex0 = mkCmp(K::Eq, ex, mkConst(0, eb)), mn0 = mkCmp(K::Eq, mn, mkConst(0, mb));
    E quiet = mkExtract(x, mb - 1, 1);
    E r = mkConst(0, 1);
    auto add = [&](unsigned bit, E c) { if (m & bit) r = mkOr1(r, c); };
    E nan = mkAnd1(exMax, mkNot(mn0)), inf = mkAnd1(exMax, mn0), zero = mkAnd1(ex0, mn0), sub = mkAnd1(ex0, mkNot(mn0)), nor = mkAnd1(mkNot(exMax), mkNot(ex0));
    add(1, mkAnd1(nan, mkNot(quiet)));
    add(2, mkAnd1(nan, quiet));
    add(4, mkAnd1(inf, sg)); add(8, mkAnd1(nor, sg)); add(16, mkAnd1(sub, sg)); add(32, mkAnd1(zero, sg));
    add(64, mkAnd1(zero, mkNot(sg))); add(128, mkAnd1(sub, mkNot(sg))); add(256, mkAnd1(nor, mkNot(sg))); add(512, mkAnd1(inf, mkNot(sg)));
    ret = Val(r);
    return 0;
}

// ------------------------------------------------------------ exceptions
BI(b_exc_alloc)
{
    UNUSED;
    uint32_t id = I.alloc(s, I.u64c(s, a[0]), 3);
    ret = Val(addrOf(id));
    return 0;
}
BI(b_exc_free) { UNUSED; I.release(s, objOf(I.u64c(s, a[0]))); return 0; }
BI(b_throw)
{
    UNUSED;
    uint64_t e = I.u64c(s, a[0]);
    ExcInfo x;
    x.ti = I.u64c(s, a[1]);
    x.dtor = I.u64c(s, a[2]);
    s.excs[e] = x;
    I.throwExc(s, e);
    return 1;
}
BI(b_begin_catch)
{
    UNUSED;
    uint64_t e = I.u64c(s, a[0]);
    s.excs[e].handlers++;
    s.excs[e].rethrown = false;
    s.caught.push_back(e);
    ret = Val(s.excs[e].adj);
    return 0;
}
BI(b_end_catch)
{
    UNUSED;
    if (s.caught.empty()) return 0;
    uint64_t e = s.caught.back();
    s.caught.pop_back();
    auto &x = s.excs[e];
    if (--x.handlers == 0 && !x.rethrown) {
        uint64_t d = x.dtor;
        s.excs.erase(e);
        if (d) {
            Fn *f = I.fnAt(d);
            if (f && f->defined) {
                // run the destructor; the storage itself is leaked by the model
                std::vector<Val> av{Val(e)};
                I.pushCall(s, f, av, -1, nullptr, nullptr);
                return 1;
            }
        }
    }
    return 0;
}
BI(b_rethrow)
{
    UNUSED;
    if (s.caught.empty()) I.violation(s, "abort", "rethrow without an exception (std::terminate)", "");
    uint64_t e = s.caught.back();
    s.excs[e].rethrown = true;
    I.throwExc(s, e);
    return 1;
}
BI(b_get_exc) { UNUSED; uint64_t e = I.u64c(s, a[0]); ret = Val(s.excs[e].adj); return 0; }
BI(b_typeid_for) { UNUSED; ret = Val((uint64_t)I.typeId(I.u64c(s, a[0]))); return 0; }
BI(b_uncaught) { UNUSED; ret = Val((uint64_t)0); return 0; }

// most derived type of an object
static uint64_t dynType(Interp &I, State &s, uint64_t p, int64_t &top)
{
    uint64_t vp = I.loadC(s, p, 64).c;
    top = (int64_t)I.loadC(s, vp - 16, 64).c;
    return I.loadC(s, vp - 8, 64).c;
}
BI(b_dyncast)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    uint64_t src = a[1].c, dst = a[2].c;
    if (!p) { ret = Val((uint64_t)0); return 0; }
    int64_t top;
    uint64_t ti = dynType(I, s, p, top);
    uint64_t whole = p + top, adj = 0;
    (void)src;
    ret = Val(I.findBase(s, ti, dst, whole, adj) ? adj : 0ull);
    return 0;
}

// ------------------------------------------------------------ process control
BI(b_assert_fail)
{
    UNUSED;
    std::string m = strArg(I, s, a[0]);
    I.violation(s, "abort", "assertion failure", m);
    return 0;
}
BI(b_abort) { UNUSED; I.violation(s, "abort", "abort", ""); return 0; }
BI(b_terminate) { UNUSED; I.violation(s, "abort", "std::terminate", ""); return 0; }
BI(b_pure) { UNUSED; I.violation(s, "abort", "pure virtual call", ""); return 0; }
BI(b_trap) { UNUSED; I.violation(s, "abort", "trap", ""); return 0; }
BI(b_exit) { UNUSED; I.violation(s, "abort", "exit called", ""); return 0; }

BI(b_guard_acquire)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    Val v = I.loadC(s, p, 8);
    if (v.c & 1) { ret = Val((uint64_t)0); return 0; }
    ret = Val(1ull);
    return 0;
}
BI(b_guard_release) { UNUSED; I.storeC(s, I.u64c(s, a[0]), Val(1ull), 8); return 0; }

// ------------------------------------------------------------ mutexes (single thread; misuse is a violation)
static bool recursiveMutex(Interp &I, State &s, uint64_t p) { return I.loadC(s, p + 16, 32).c == 1; }
BI(b_mlock)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    int &n = s.mutexes[p];
    if (n && !recursiveMutex(I, s, p)) I.violation(s, "lock", "lock: self deadlock on a mutex", "");
    n++;
    ret = Val((uint64_t)0);
    return 0;
}
BI(b_mtrylock)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    int &n = s.mutexes[p];
    if (n && !recursiveMutex(I, s, p)) { ret = Val(16ull); return 0; }
    n++;
    ret = Val((uint64_t)0);
    return 0;
}
BI(b_munlock)
{
    UNUSED;
    uint64_t p = I.u64c(s, a[0]);
    auto it = s.mutexes.find(p);
    if (it == s.mutexes.end()) I.violation(s, "lock", "lock: unlock of a mutex that is not held", "");
    if (--it->second == 0) s.mutexes.erase(it);
    ret = Val((uint64_t)0);
    return 0;
}
BI(b_dlsym)
{
    UNUSED;
    std::string n = strArg(I, s, a[1]);
    if (n == "ParameterFrameworkPluginEntryPointMagicV1") n = "harness_plugin_entry"; // the replay library forwards to it
    auto it = I.byName.find(n);
    ret = Val(it != I.byName.end() && it->second->defined ? it->second->addr : 0ull);
    return 0;
}

void initBuiltins()
{
    auto &g = gBuiltins;
    g["pfs_sym"] = b_sym; g["pfs_sym_bytes"] = b_sym_bytes; g["pfs_choice_"] = b_choice; g["pfs_assume_"] = b_assume;
    g["pfs_check_"] = b_check; g["pfs_reach"] = b_reach; g["pfs_fail"] = b_fail; g["pfs_observe"] = b_observe;
    g["pfs_observe_bytes"] = b_observe_bytes; g["pfs_concretize"] = b_concretize; g["pfs_is_symbolic"] = b_is_symbolic;
    g["pfs_engine"] = b_one; g["atexit"] = b_zero; g["pfs_param"] = b_param; g["pfs_note"] = b_note; g["pfs_note_str"] = b_note_str;
    g["pfs_unmodelled"] = b_unmodelled; g["pfs_locks_held"] = b_locks; g["pfs_watch"] = b_watch; g["pfs_watch_writes"] = b_watch_writes; g["pfs_buf_symbolic"] = b_buf_symbolic;
    g["pfs_fmt_uint"] = b_fmt_uint; g["pfs_dec_lookup"] = b_dec_lookup; g["pfs_fmt_double"] = b_fmt_double; g["pfs_parse_double"] = b_parse_double;
    g["pfs_dlsym"] = b_dlsym; g["pfs_parse_token"] = b_parse_token;

    g["malloc"] = b_malloc; g["free"] = b_free; g["calloc"] = b_calloc; g["realloc"] = b_realloc;
    g["_Znwm"] = b_new; g["_Znam"] = b_new; g["_ZdlPv"] = b_free; g["_ZdaPv"] = b_free; g["_ZdlPvm"] = b_free; g["_ZdaPvm"] = b_free;
    g["_ZnwmRKSt9nothrow_t"] = b_malloc; g["_ZnamRKSt9nothrow_t"] = b_malloc; g["_ZdlPvRKSt9nothrow_t"] = b_free;
    g["memcpy"] = b_memcpy; g["memmove"] = b_memcpy; g["memset"] = b_memset; g["memcmp"] = b_memcmp; g["bcmp"] = b_memcmp;
    g["strlen"] = b_strlen; g["memchr"] = b_memchr; g["strchr"] = b_strchr; g["strcmp"] = b_strcmp; g["strncmp"] = b_strcmp;
    g["strcpy"] = b_strcpy; g["strncpy"] = b_strcpy;
    g["llvm.memcpy"] = b_memcpy; g["llvm.memmove"] = b_memcpy; g["llvm.memset"] = b_memset; g["llvm.memcpy.inline"] = b_memcpy;
    g["llvm.umax"] = b_minmax<0>; g["llvm.umin"] = b_minmax<1>; g["llvm.smax"] = b_minmax<2>; g["llvm.smin"] = b_minmax<3>;
    g["llvm.abs"] = b_abs; g["llvm.bswap"] = b_bswap; g["llvm.ctpop"] = b_ctpop; g["llvm.ctlz"] = b_ctlz; g["llvm.cttz"] = b_cttz;
    g["llvm.fshl"] = b_fsh<true>; g["llvm.fshr"] = b_fsh<false>;
    g["llvm.uadd.with.overflow"] = b_ovf<0, false>; g["llvm.sadd.with.overflow"] = b_ovf<0, true>;
    g["llvm.usub.with.overflow"] = b_ovf<1, false>; g["llvm.ssub.with.overflow"] = b_ovf<1, true>;
    g["llvm.umul.with.overflow"] = b_ovf<2, false>; g["llvm.smul.with.overflow"] = b_ovf<2, true>;
    g["llvm.uadd.sat"] = b_sat<0, false>; g["llvm.sadd.sat"] = b_sat<0, true>; g["llvm.usub.sat"] = b_sat<1, false>; g["llvm.ssub.sat"] = b_sat<1, true>;
    g["llvm.objectsize"] = b_objectsize; g["llvm.is.constant"] = b_zero; g["llvm.threadlocal.address"] = b_first;
    g["llvm.expect"] = b_first; g["llvm.launder.invariant.group"] = b_first; g["llvm.strip.invariant.group"] = b_first;
    g["llvm.stacksave"] = b_zero; g["llvm.stackrestore"] = b_nop; g["llvm.trap"] = b_trap; g["llvm.ubsantrap"] = b_trap;
    g["llvm.va_start"] = b_nop; g["llvm.va_end"] = b_nop;
    g["llvm.fabs"] = b_fabs; g["fabs"] = b_fabs; g["fabsf"] = b_fabs;
    g["llvm.round"] = b_fround<0>; g["round"] = b_fround<0>; g["roundf"] = b_fround<0>;
    g["llvm.rint"] = b_fround<1>; g["llvm.nearbyint"] = b_fround<1>; g["rint"] = b_fround<1>; g["nearbyint"] = b_fround<1>; g["llvm.roundeven"] = b_fround<1>;
    g["llvm.floor"] = b_fround<2>; g["floor"] = b_fround<2>; g["floorf"] = b_fround<2>;
    g["llvm.ceil"] = b_fround<3>; g["ceil"] = b_fround<3>; g["ceilf"] = b_fround<3>;
    g["llvm.trunc"] = b_fround<4>; g["trunc"] = b_fround<4>; g["truncf"] = b_fround<4>;
    g["llvm.sqrt"] = b_sqrt; g["sqrt"] = b_sqrt; g["llvm.copysign"] = b_copysign; g["copysign"] = b_copysign;
    g["llvm.fmuladd"] = b_fmuladd; g["llvm.minnum"] = b_fminmax<0>; g["llvm.maxnum"] = b_fminmax<1>; g["fmin"] = b_fminmax<0>; g["fmax"] = b_fminmax<1>;
    g["log"] = b_uf1<0>; g["exp"] = b_uf1<1>; g["log10"] = b_uf1<2>; g["log2"] = b_uf1<3>; g["exp2"] = b_uf1<4>;
    g["llvm.log"] = b_uf1<0>; g["llvm.exp"] = b_uf1<1>; g["llvm.log10"] = b_uf1<2>; g["llvm.log2"] = b_uf1<3>; g["llvm.exp2"] = b_uf1<4>;
    g["pow"] = b_uf2<0>; g["llvm.pow"] = b_uf2<0>;
    g["lround"] = b_lround<0>; g["lrint"] = b_lround<1>; g["llvm.lround"] = b_lround<0>; g["llvm.llround"] = b_lround<0>; g["llvm.lrint"] = b_lround<1>;
    g["llvm.is.fpclass"] = b_isfpclass;

    g["__cxa_allocate_exception"] = b_exc_alloc; g["__cxa_free_exception"] = b_exc_free; g["__cxa_throw"] = b_throw;
    g["__cxa_begin_catch"] = b_begin_catch; g["__cxa_end_catch"] = b_end_catch; g["__cxa_rethrow"] = b_rethrow;
    g["__cxa_get_exception_ptr"] = b_get_exc; g["llvm.eh.typeid.for"] = b_typeid_for; g["__dynamic_cast"] = b_dyncast;
    g["_ZSt18uncaught_exceptionv"] = b_uncaught; g["_ZSt19uncaught_exceptionsv"] = b_uncaught;
    g["__assert_fail"] = b_assert_fail; g["abort"] = b_abort; g["_ZSt9terminatev"] = b_terminate; g["__cxa_pure_virtual"] = b_pure;
    g["exit"] = b_exit; g["_exit"] = b_exit; g["__clang_call_terminate"] = b_terminate;
    g["__cxa_atexit"] = b_zero; g["__cxa_guard_acquire"] = b_guard_acquire; g["__cxa_guard_release"] = b_guard_release; g["__cxa_guard_abort"] = b_nop;
    g["pthread_mutex_lock"] = b_mlock; g["pthread_mutex_unlock"] = b_munlock; g["pthread_mutex_trylock"] = b_mtrylock;
    g["pthread_mutex_init"] = b_zero; g["pthread_mutex_destroy"] = b_zero;
    g["_ZNSt8ios_base4InitC1Ev"] = b_nop; g["_ZNSt8ios_base4InitD1Ev"] = b_nop;
    g["_ZSt21ios_base_library_initv"] = b_nop;
}
