#include "pf.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <stdexcept>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

std::string hexU128(u128 v)
{
    char b[40];
    if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
    return b;
}
std::string jsonEsc(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

Val binVal(BinK k, const Val &a, const Val &b, unsigned w)
{
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, m = w == 64 ? ~0ull : (1ull << w) - 1;
        auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
        switch (k) {
        case B_Add: return (x + y) & m;
        case B_Sub: return (x - y) & m;
        case B_Mul: return (x * y) & m;
        case B_UDiv: return y ? x / y : 0;
        case B_URem: return y ? x % y : 0;
        case B_SDiv: if (!y) return 0ull; if (sx(y) == -1) return (0 - x) & m; return (uint64_t)(sx(x) / sx(y)) & m;
        case B_SRem: if (!y) return 0ull; if (sx(y) == -1) return 0ull; return (uint64_t)(sx(x) % sx(y)) & m;
        case B_And: return x & y;
        case B_Or: return x | y;
        case B_Xor: return x ^ y;
        // shifts by >= width follow the x86 machine (poison in IR)
        case B_Shl: return (x << (y & (w > 32 ? 63 : 31))) & m;
        case B_LShr: return x >> (y & (w > 32 ? 63 : 31));
        case B_AShr: return (uint64_t)(sx(x) >> (y & (w > 32 ? 63 : 31))) & m;
        }
    }
    E x = toE(a, w), y = toE(b, w);
    if (k >= B_Shl && !isC(y) && (w == 32 || w == 64)) y = mkBin(K::And, y, mkConst(w - 1, w));
    static const K t[] = {K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::And, K::Or, K::Xor, K::Shl, K::LShr, K::AShr};
    return Val(mkBin(t[k], x, y));
}

Fn *Interp::fnAt(uint64_t addr)
{
    if (addr < 0x7f0000000000ull) return nullptr;
    uint64_t i = (addr - 0x7f0000000000ull) / 16;
    if ((addr & 15) || i >= fns.size()) return nullptr;
    return fns[i];
}

// ---------------------------------------------------------------- state
State *Interp::clone(State &s)
{
    nForks++;
    return new State(s);
}
Frame &Interp::top(State &s)
{
    Ref<Frame> &r = s.frames.back();
    if (r->rc > 1) {
        Frame *n = new Frame(*r.p);
        n->rc = 0;
        r = Ref<Frame>(n);
    }
    return *r.p;
}
void Interp::addCons(State &s, E c)
{
    if (isC(c)) return;
    if (c->k == K::And && c->w == 1) {
        addCons(s, c->a);
        addCons(s, c->b);
        return;
    }
    // not(a or b) -> not a, not b
    if (c->k == K::Xor && isC(c->b, 1) && c->a->k == K::Or) {
        addCons(s, mkNot(c->a->a));
        addCons(s, mkNot(c->a->b));
        return;
    }
    s.cons.push_back(c);
}
bool Interp::forkOn(State &s, E cond)
{
    if (isC(cond)) return cond->v;
    bool v = evalE(cond, *s.model);
    E mine = v ? cond : mkNot(cond), other = mkNot(mine);
    for (size_t i = s.cons.size(), n = 0; i-- > 0 && n < 8; n++)
        if (s.cons[i] == mine) return v;
    Model *m = nullptr;
    Res r = solve(s.cons, other, s.model.get(), &m, false);
    if (r == Res::Unsat) return v;
    if (r == Res::Unknown) {
        incomplete["solver-unknown-at-branch"]++;
        addCons(s, mine);
        return v;
    }
    State *o = clone(s);
    addCons(*o, other);
    o->model.reset(m);
    o->depth++;
    s.depth++;
    stack.push_back(o);
    addCons(s, mine);
    return v;
}
uint64_t Interp::concretize(State &s, E e)
{
    if (isC(e)) return (uint64_t)e->v;
    u128 v = evalE(e, *s.model);
    E eq = mkCmp(K::Eq, e, mkConst(v, e->w));
    if (!isC(eq)) {
        Model *m = nullptr;
        Res r = solve(s.cons, mkNot(eq), s.model.get(), &m, false);
        if (r == Res::Unknown)
            incomplete["solver-unknown-at-concretization"]++;
        else if (r == Res::Sat) {
            State *o = clone(s);
            addCons(*o, mkNot(eq));
            o->model.reset(m);
            o->depth++;
            s.depth++;
            stack.push_back(o);
        }
        if (r != Res::Unsat) addCons(s, eq);
    }
    return (uint64_t)v;
}
bool Interp::mayBe(State &s, E cond)
{
    if (isC(cond)) return cond->v;
    if (evalE(cond, *s.model)) return true;
    Model *m = nullptr;
    Res r = solve(s.cons, cond, s.model.get(), &m, false);
    if (m) delete m;
    return r != Res::Unsat;
}
uint64_t Interp::u64c(State &s, const Val &v) { return v.e ? concretize(s, v.e) : v.c; }

std::vector<std::string> Interp::backtrace(State &s)
{
    std::vector<std::string> r;
    for (size_t i = s.frames.size(); i-- > 0;) {
        Frame *f = s.frames[i].p;
        if (!f->fn) continue;
        r.push_back(f->fn->name);
        if (r.size() > 14) break;
    }
    return r;
}
void Interp::recordViolation(State &s, const Model &m, const std::string &kind, const std::string &label, const std::string &detail)
{
    violLabels[label]++;
    if (violLabels[label] > opt.maxViol) return;
    Violation v;
    v.kind = kind;
    v.label = label;
    v.detail = detail;
    v.trace = backtrace(s);
    v.inputs = s.inputs;
    for (auto &i : s.inputs) v.vals.push_back(i.e ? evalE(i.e, m) : i.conc);
    viols.push_back(v);
}
void Interp::endPath(End e)
{
    switch (e) {
    case End::Done: nDone++; break;
    case End::Assume: nAssume++; break;
    case End::Violation: nViol++; break;
    case End::Incomplete: nIncomplete++; break;
    default: break;
    }
    throw PathEnd();
}
void Interp::violation(State &s, const std::string &kind, const std::string &label, const std::string &detail)
{
    recordViolation(s, *s.model, kind, label, detail);
    endPath(End::Violation);
}
void Interp::incompletePath(State &s, const std::string &why)
{
    incomplete[why]++;
    if (getenv("PFSYM_DEBUG") && incomplete[why] < 3) {
        fprintf(stderr, "pfsym: incomplete: %s\n", why.c_str());
        for (auto &t : backtrace(s)) fprintf(stderr, "    %s\n", t.c_str());
    }
    endPath(End::Incomplete);
}
void Interp::check(State &s, E cond, const std::string &label)
{
    checks++;
    checkLabels[label]++;
    if (isC(cond)) {
        checksConst++;
        if (!cond->v) violation(s, "check", label, "");
        return;
    }
    Model *m = nullptr;
    Res r = solve(s.cons, mkNot(cond), s.model.get(), &m, true);
    if (r == Res::Unsat) { checksDischarged++; return; }
    if (r == Res::Unknown) {
        checksUnknown++;
        incomplete["solver-unknown-at-check:" + label]++;
        return;
    }
    recordViolation(s, *m, "check", label, "");
    delete m;
    if (!evalE(cond, *s.model)) {
        Model *m2 = nullptr;
        if (solve(s.cons, cond, s.model.get(), &m2, false) != Res::Sat) endPath(End::Violation);
        s.model.reset(m2);
    }
    addCons(s, cond);
}

// ---------------------------------------------------------------- memory
uint32_t Interp::alloc(State &s, uint64_t size, int kind)
{
    if (size > (256u << 20)) incompletePath(s, "allocation larger than 256 MB");
    Obj *o = new Obj();
    o->size = size;
    o->kind = kind;
    o->data = (uint8_t *)malloc(size ? size : 1);
    memset(o->data, kind == 2 ? 0xBE : 0, size);
    uint32_t id;
    if (kind == 1 && !s.mem.freeStack.empty()) {
        id = s.mem.freeStack.back();
        s.mem.freeStack.pop_back();
    } else
        id = s.mem.next++;
    s.mem.slot(id) = Ref<Obj>(o);
    if (kind == 2) {
        s.liveHeap++;
        if (s.trackHeap) s.heap.insert(id);
    }
    return id;
}
static Obj *deadObj()
{
    static Obj *d = [] { Obj *o = new Obj(); o->alive = false; o->rc = 1; o->data = (uint8_t *)malloc(1); return o; }();
    return d;
}
void Interp::release(State &s, uint32_t id)
{
    Obj *o = s.mem.get(id);
    int kind = o->kind;
    s.mem.slot(id) = Ref<Obj>(deadObj());
    if (kind == 1) s.mem.freeStack.push_back(id);
    if (kind == 2) {
        s.liveHeap--;
        if (s.trackHeap) s.heap.erase(id);
    }
}
Obj *Interp::checkAccess(State &s, uint64_t addr, uint64_t n, bool write)
{
    if (addr < (1ull << 32)) violation(s, "memory", "memory: null or invalid pointer access", hexU128(addr));
    Obj *o = s.mem.get(objOf(addr));
    if (!o) violation(s, "memory", "memory: wild pointer access", hexU128(addr));
    if (!o->alive) violation(s, "memory", "memory: use after free", hexU128(addr));
    uint64_t off = addr & 0xffffffffu;
    if (off + n > o->size)
        violation(s, "memory", "memory: out of bounds access", hexU128(off) + "+" + std::to_string(n) + " of " + std::to_string(o->size));
    if (write && o->ro) violation(s, "memory", "memory: write to constant", hexU128(addr));
    if (s.watch && objOf(addr) == s.watch && n && (!s.watchWrites || (write && addr < s.watchAddr + s.watchSize && s.watchAddr < addr + n))) {
        std::set<uint64_t> held;
        for (auto &m : s.mutexes)
            if (m.second && (!s.watchSeen || s.watchLocks.count(m.first))) held.insert(m.first);
        if (held.empty()) violation(s, "lock", s.watchWrites ? "what configurations say is changed without the lock" : "shared settings are accessed without their lock", "");
        s.watchLocks.swap(held);
        s.watchSeen = true;
    }
    return o;
}
Val Interp::loadC(State &s, uint64_t addr, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj *o = checkAccess(s, addr, n, false);
    uint32_t off = (uint32_t)addr;
    bool sym = false;
    if (o->sym)
        for (unsigned i = 0; i < n; i++)
            if (o->sym[off + i]) { sym = true; break; }
    if (!sym) {
        if (n <= 8) {
            uint64_t v = 0;
            memcpy(&v, o->data + off, n);
            if (w < 64) v &= (1ull << w) - 1;
            return Val(v);
        }
        u128 v = 0;
        memcpy(&v, o->data + off, n);
        Val r;
        r.e = mkConst(v, w);
        return r;
    }
    E e = nullptr;
    for (unsigned i = 0; i < n; i++) {
        E b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8);
        e = e ? mkConcat(b, e) : b;
    }
    if (w != n * 8) e = mkExtract(e, 0, w);
    if (w > 64) { Val r; r.e = e; return r; }
    return Val(e);
}
void Interp::storeC(State &s, uint64_t addr, const Val &v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    checkAccess(s, addr, n, true);
    Obj *o = s.mem.writable(objOf(addr));
    uint32_t off = (uint32_t)addr;
    if (!v.e || isC(v.e)) {
        if (n <= 8) {
            uint64_t x = v.e ? (uint64_t)v.e->v : v.c;
            memcpy(o->data + off, &x, n);
        } else {
            u128 x = v.e ? v.e->v : v.c;
            memcpy(o->data + off, &x, n);
        }
        if (o->sym) memset(o->sym + off, 0, n * sizeof(E));
        return;
    }
    if (!o->sym) o->sym = (E *)calloc(o->size, sizeof(E));
    E e = v.e;
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        E b = mkExtract(e, i * 8, 8);
        if (isC(b)) {
            o->data[off + i] = (uint8_t)b->v;
            o->sym[off + i] = nullptr;
        } else
            o->sym[off + i] = b;
    }
}
// make a symbolic address concrete within one object (forking over objects and offsets)
uint64_t Interp::resolve(State &s, const Val &addr, uint64_t size, bool write)
{
    if (!addr.e) return addr.c;
    return concretize(s, addr.e);
}
static bool objRange(Interp &I, State &s, E addr, unsigned n, bool write, uint64_t &base, Obj *&o)
{
    uint64_t a = (uint64_t)evalE(addr, *s.model);
    o = I.checkAccess(s, a, n, write); // the model is a real witness of a bad access
    base = a & ~0xffffffffull;
    E off = mkBin(K::Sub, addr, mkConst(base, 64));
    E in = mkCmp(K::Ule, off, mkConst(o->size - n, 64));
    return I.forkOn(s, in);
}
Val Interp::load(State &s, const Val &addr, unsigned w)
{
    if (!addr.e) return loadC(s, addr.c, w);
    unsigned n = (w + 7) / 8;
    uint64_t base;
    Obj *o;
    if (!objRange(*this, s, addr.e, n, false, base, o)) incompletePath(s, "symbolic address resolution");
    E off = mkBin(K::Sub, addr.e, mkConst(base, 64));
    unsigned stride = 1;
    u128 kz = knownZeroBits(off);
    while (stride < 16 && (kz & stride)) stride *= 2;
    // low bits fixed to a nonzero constant (e.g. field of a struct array)
    uint64_t cnt = (o->size - n) / stride + 1;
    if (cnt > 520 || w > 64) return loadC(s, concretize(s, addr.e), w);
    E r = nullptr;
    for (uint64_t k = cnt; k-- > 0;) {
        Val v = loadC(s, base + k * stride, w);
        E ve = toE(v, w);
        r = r ? (r == ve ? r : mkIte(mkCmp(K::Eq, off, mkConst(k * stride, 64)), ve, r)) : ve;
    }
    return Val(r);
}
void Interp::store(State &s, const Val &addr, const Val &v, unsigned w)
{
    if (!addr.e) return storeC(s, addr.c, v, w);
    unsigned n = (w + 7) / 8;
    uint64_t base;
    Obj *o;
    if (!objRange(*this, s, addr.e, n, true, base, o)) incompletePath(s, "symbolic address resolution");
    E off = mkBin(K::Sub, addr.e, mkConst(base, 64));
    unsigned stride = 1;
    u128 kz = knownZeroBits(off);
    while (stride < 16 && (kz & stride)) stride *= 2;
    uint64_t cnt = (o->size - n) / stride + 1;
    if (cnt > 64 || w > 64) return storeC(s, concretize(s, addr.e), v, w);
    std::vector<Val> nv;
    for (uint64_t k = 0; k < cnt; k++) {
        Val old = loadC(s, base + k * stride, w);
        nv.push_back(Val(mkIte(mkCmp(K::Eq, off, mkConst(k * stride, 64)), toE(v, w), toE(old, w))));
    }
    if (stride >= n) {
        for (uint64_t k = 0; k < cnt; k++) storeC(s, base + k * stride, nv[k], w);
    } else // overlapping windows
        storeC(s, concretize(s, addr.e), v, w);
}
E Interp::byteAt(State &s, uint64_t addr)
{
    Val v = loadC(s, addr, 8);
    return toE(v, 8);
}
void Interp::copyMem(State &s, uint64_t d, uint64_t src, uint64_t n)
{
    if (!n) return;
    checkAccess(s, src, n, false);
    checkAccess(s, d, n, true);
    Obj *t = s.mem.writable(objOf(d));
    Obj *f = s.mem.get(objOf(src));
    uint32_t od = (uint32_t)d, os = (uint32_t)src;
    memmove(t->data + od, f->data + os, n);
    if (f->sym) {
        if (!t->sym) {
            bool any = false;
            for (uint64_t i = 0; i < n; i++)
                if (f->sym[os + i]) { any = true; break; }
            if (any) t->sym = (E *)calloc(t->size, sizeof(E));
        }
        if (t->sym) memmove(t->sym + od, f->sym + os, n * sizeof(E));
    } else if (t->sym)
        memset(t->sym + od, 0, n * sizeof(E));
}
std::string Interp::cstr(State &s, uint64_t addr, size_t max)
{
    std::string r;
    for (size_t i = 0; i < max; i++) {
        Val v = loadC(s, addr + i, 8);
        uint64_t c = v.e ? (uint64_t)evalE(v.e, *s.model) : v.c;
        if (!c) break;
        r += (char)c;
    }
    return r;
}

// ---------------------------------------------------------------- exceptions
int Interp::typeId(uint64_t ti)
{
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    int n = typeIds.size() + 1;
    return typeIds[ti] = n;
}
bool Interp::findBase(State &s, uint64_t ti, uint64_t want, uint64_t obj, uint64_t &adj)
{
    if (ti == want) { adj = obj; return true; }
    uint64_t vt = loadC(s, ti, 64).c - 16;
    auto nm = globalNames.find(vt);
    if (nm == globalNames.end()) return false;
    if (nm->second == "_ZTVN10__cxxabiv120__si_class_type_infoE")
        return findBase(s, loadC(s, ti + 16, 64).c, want, obj, adj);
    if (nm->second == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        uint64_t cnt = loadC(s, ti + 20, 32).c;
        for (uint64_t i = 0; i < cnt; i++) {
            uint64_t b = loadC(s, ti + 24 + 16 * i, 64).c;
            int64_t of = (int64_t)loadC(s, ti + 32 + 16 * i, 64).c;
            int64_t o = of >> 8;
            uint64_t sub = obj;
            if (of & 1) { // virtual base
                if (obj) {
                    uint64_t vp = loadC(s, obj, 64).c;
                    sub = obj + (int64_t)loadC(s, vp + o, 64).c;
                }
            } else
                sub = obj + o;
            if (findBase(s, b, want, sub, adj)) return true;
        }
    }
    return false;
}
bool Interp::typeMatch(State &s, uint64_t ti, uint64_t catchTi, uint64_t obj, uint64_t &adj)
{
    adj = obj;
    if (catchTi == 0) return true;
    return findBase(s, ti, catchTi, obj, adj);
}
void Interp::throwExc(State &s, uint64_t exc)
{
    uint64_t ti = s.excs[exc].ti;
    auto lpOf = [&](Frame *f) -> const Inst * {
        if (!f->fn) return nullptr;
        const Inst &I = f->fn->code[f->pc];
        if (I.op != O_Invoke) return nullptr;
        const Inst &lp = f->fn->code[((InvokeInfo *)I.x)->unwind.target];
        return lp.op == O_LandingPad ? &lp : nullptr;
    };
    auto sel = [&](Frame *f, const Inst *lp, bool &isCatch, uint64_t &adj) -> int {
        LpInfo *li = (LpInfo *)lp->x;
        isCatch = false;
        for (auto &c : li->clauses) {
            if (!c.isCatch) continue;
            uint64_t ct = c.op >= 0 ? f->slots[c.op].c : f->fn->cpool[~c.op].c;
            if (typeMatch(s, ti, ct, exc, adj)) {
                isCatch = true;
                return typeId(ct);
            }
        }
        return 0;
    };
    bool found = false;
    uint64_t adj = exc;
    for (size_t i = s.frames.size(); i-- > 0 && !found;) {
        const Inst *lp = lpOf(s.frames[i].p);
        bool c;
        if (lp) {
            sel(s.frames[i].p, lp, c, adj);
            if (c) found = true;
        }
    }
    if (!found) {
        auto it = globalNames.find(ti);
        std::string what;
        violation(s, "exception", "uncaught exception", it == globalNames.end() ? "?" : it->second);
    }
    while (true) {
        const Inst *lp = lpOf(s.frames.back().p);
        if (lp) {
            bool c;
            uint64_t a = exc;
            Frame &f = top(s);
            int sl = sel(&f, lp, c, a);
            if (c || ((LpInfo *)lp->x)->cleanup) {
                s.curExc = exc;
                s.curSel = sl;
                s.curAdj = a;
                if (c) s.excs[exc].adj = a;
                takeEdge(s, ((InvokeInfo *)f.fn->code[f.pc].x)->unwind);
                return;
            }
        }
        Frame &f = top(s);
        for (uint32_t o : f.stackObjs) release(s, o);
        s.frames.pop_back();
    }
}

// ---------------------------------------------------------------- calls
void Interp::takeEdge(State &s, const Edge &e)
{
    Frame &f = top(s);
    size_t n = e.moves.size();
    if (n == 1) {
        int o = e.moves[0].second;
        f.slots[e.moves[0].first] = o >= 0 ? f.slots[o] : f.fn->cpool[~o];
    } else if (n) {
        Val buf[64];
        std::vector<Val> big;
        Val *b = buf;
        if (n > 64) { big.resize(n); b = big.data(); }
        for (size_t i = 0; i < n; i++) {
            int o = e.moves[i].second;
            b[i] = o >= 0 ? f.slots[o] : f.fn->cpool[~o];
        }
        for (size_t i = 0; i < n; i++) f.slots[e.moves[i].first] = b[i];
    }
    f.pc = e.target;
}
void Interp::pushCall(State &s, Fn *fn, std::vector<Val> &args, int retDst, const Inst *cs, const CallInfo *ci)
{
    if (!fn->decoded) decode(fn);
    if (s.frames.size() > 2000) violation(s, "memory", "stack overflow (recursion deeper than 2000 frames)", fn->name);
    fn->entered = true;
    Frame *f = new Frame();
    f->fn = fn;
    f->retDst = retDst;
    f->callSite = cs;
    f->slots.resize(fn->nslots);
    for (size_t i = 0; i < fn->nargs && i < args.size(); i++) f->slots[i] = args[i];
    s.frames.push_back(Ref<Frame>(f));
    if (ci)
        for (size_t i = 0; i < ci->byval.size() && i < fn->nargs; i++)
            if (ci->byval[i]) {
                uint32_t id = alloc(s, ci->byval[i], 1);
                f->stackObjs.push_back(id);
                copyMem(s, addrOf(id), f->slots[i].c, ci->byval[i]);
                f->slots[i] = Val(addrOf(id));
            }
}
void Interp::doRet(State &s, const Val *vals, unsigned n)
{
    Frame &f = top(s);
    for (uint32_t o : f.stackObjs) release(s, o);
    int rd = f.retDst;
    s.frames.pop_back();
    Frame &c = top(s);
    if (!c.fn) { // bottom
        if (n) { c.slots.resize(1); c.slots[0] = vals[0]; }
        return;
    }
    const Inst &I = c.fn->code[c.pc];
    if (rd >= 0)
        for (unsigned i = 0; i < n; i++) c.slots[rd + i] = vals[i];
    if (I.op == O_Invoke)
        takeEdge(s, ((InvokeInfo *)I.x)->normal);
    else
        c.pc++;
}
void Interp::doCall(State &s, const Inst &I, const CallInfo &ci)
{
    Frame &f = top(s);
    auto get = [&](int o) -> const Val & { return o >= 0 ? f.slots[o] : f.fn->cpool[~o]; };
    Fn *fn = ci.fn;
    if (!fn) {
        const Val &cv = get(ci.callee);
        uint64_t a = u64c(s, cv);
        fn = fnAt(a);
        if (!fn) violation(s, "memory", "memory: call through invalid function pointer", hexU128(a));
    }
    std::vector<Val> args;
    args.reserve(ci.args.size());
    for (int o : ci.args) args.push_back(get(o));
    if (!fn->biResolved) {
        auto it = gBuiltins.find(fn->name);
        if (it != gBuiltins.end()) fn->bi = it->second;
        else if (fn->name.compare(0, 5, "llvm.") == 0) {
            // intrinsics are registered without their type suffix
            std::string n = fn->name;
            while (true) {
                auto j = gBuiltins.find(n);
                if (j != gBuiltins.end()) { fn->bi = j->second; break; }
                size_t p = n.rfind('.');
                if (p == std::string::npos || p < 5) break;
                n = n.substr(0, p);
            }
        }
        fn->biResolved = true;
    }
    if (fn->bi) {
        Val ret;
        int r = fn->bi(*this, s, I, ci, args, ret);
        // r: 0 = value/none returned, 1 = control already transferred
        if (r == 1) return;
        Frame &g = top(s);
        if (I.dst >= 0) g.slots[I.dst] = ret;
        if (I.op == O_Invoke) takeEdge(s, ((InvokeInfo *)I.x)->normal);
        else g.pc++;
        return;
    }
    if (!fn->defined) incompletePath(s, "unmodelled external function " + fn->name);
    if (opt.traceCalls) fprintf(stderr, "%*s%s\n", (int)s.frames.size(), "", fn->name.c_str());
    pushCall(s, fn, args, I.dst, &I, &ci);
}

// ---------------------------------------------------------------- main loop
void Interp::finishPath(State &s)
{
    for (auto &r : s.reached) reach[r]++;
    // reservoir sample
    sampleSeen++;
    size_t idx = samples.size();
    if (samples.size() >= opt.samples) {
        opt.seed = opt.seed * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t k = (opt.seed >> 33) % sampleSeen;
        if (k >= opt.samples) return;
        idx = k;
    }
    if (!opt.samples) return;
    std::string j = "{\"inputs\":[";
    for (size_t i = 0; i < s.inputs.size(); i++) {
        auto &in = s.inputs[i];
        u128 v = in.e ? evalE(in.e, *s.model) : in.conc;
        j += std::string(i ? "," : "") + "[" + jsonEsc(in.name) + "," + std::to_string(in.w) + ",\"" + hexU128(v) + "\"]";
    }
    j += "],\"obs\":[";
    for (size_t i = 0; i < s.obs.size(); i++) {
        auto &o = s.obs[i];
        std::string h;
        for (E b : o.bytes) {
            char t[4];
            snprintf(t, sizeof t, "%02x", (unsigned)evalE(b, *s.model));
            h += t;
        }
        j += std::string(i ? "," : "") + "[" + jsonEsc(o.name) + ",\"" + h + "\"]";
    }
    j += "],\"constraints\":" + std::to_string(s.cons.size()) + ",\"insts\":" + std::to_string(s.insts) + "}";
    if (idx < samples.size()) samples[idx] = j;
    else samples.push_back(j);
}

void Interp::run(State *sp)
{
    State &s = *sp;
    cur = sp;
    try {
        while (true) {
            if (!s.frames.back()->fn) {
                finishPath(s);
                endPath(End::Done);
            }
            step(s);
        }
    } catch (PathEnd &) {
    }
    totalInsts += s.insts;
    delete sp;
}

void Interp::runAll()
{
    t0 = now();
    State *s = new State();
    s->mem = initMem;
    s->model.reset(newModel(nullptr));
    s->frames.push_back(Ref<Frame>(new Frame()));
    // global constructors then the entry point, run as one call sequence
    auto *boot = new Fn();
    boot->name = "<boot>";
    boot->decoded = boot->defined = true;
    for (uint64_t c : ctors) {
        auto *ci = new CallInfo();
        ci->fn = fnAt(c);
        if (!ci->fn || ci->fn->name == "llvm.global_ctors") continue;
        Inst I;
        I.op = O_Call;
        I.x = ci;
        boot->code.push_back(I);
    }
    auto it = byName.find(opt.entry);
    if (it == byName.end()) { fprintf(stderr, "pfsym: no entry %s\n", opt.entry.c_str()); exit(3); }
    {
        auto *ci = new CallInfo();
        ci->fn = it->second;
        Inst I;
        I.op = O_Call;
        I.x = ci;
        boot->code.push_back(I);
        Inst R;
        R.op = O_Ret;
        boot->code.push_back(R);
    }
    boot->nslots = 1;
    std::vector<Val> none;
    pushCall(*s, boot, none, -1, nullptr, nullptr);
    stack.push_back(s);
    uint64_t paths = 0;
    while (!stack.empty()) {
        State *n = stack.back();
        stack.pop_back();
        run(n);
        paths++;
        if (viols.size() >= 8) break;
        if (paths >= opt.maxPaths) { incomplete["path limit"] += stack.size(); break; }
        if (now() - t0 > opt.maxTime) { if (!stack.empty()) incomplete["time limit (unexplored states)"] += stack.size(); break; }
    }
    if (!stack.empty() && viols.size() >= 8) incomplete["stopped after violations"] += stack.size();
}

void Interp::step(State &s)
{
    // runs until control leaves the fast loop
    Frame *f = &top(s);
    Fn *fn = f->fn;
    const Inst *code = fn->code.data();
    const Val *cp = fn->cpool.data();
    size_t nf = s.frames.size();
#define GET(o) ((o) >= 0 ? f->slots[o] : cp[~(o)])
#define UNSHARE() do { if (f->rc > 1) { f = &top(s); } } while (0)
    uint64_t budget = 20000;
    while (budget--) {
        const Inst &I = code[f->pc];
        s.insts++;
        switch (I.op) {
        case O_Copy: f->slots[I.dst] = GET(I.a); f->pc++; break;
        case O_Bin: {
            const Val &a = GET(I.a), &b = GET(I.b);
            if ((I.sub >= B_UDiv && I.sub <= B_SRem)) {
                if (!b.e) {
                    if (!b.c) violation(s, "arith", "division by zero", "");
                } else {
                    E z = mkCmp(K::Eq, toE(b, I.w), mkConst(0, I.w));
                    if (!isC(z)) {
                        bool isz = forkOn(s, z);
                        UNSHARE();
                        if (isz) violation(s, "arith", "division by zero", "");
                    }
                }
                f->slots[I.dst] = binVal((BinK)I.sub, GET(I.a), GET(I.b), I.w);
            } else
                f->slots[I.dst] = binVal((BinK)I.sub, a, b, I.w);
            f->pc++;
            break;
        }
        case O_ICmp: {
            const Val &a = GET(I.a), &b = GET(I.b);
            unsigned w = I.w;
            if (!a.e && !b.e) {
                uint64_t x = a.c, y = b.c;
                int64_t sx = w == 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w), sy = w == 64 ? (int64_t)y : (int64_t)(y << (64 - w)) >> (64 - w);
                bool r;
                switch (I.sub) {
                case 0: r = x == y; break;
                case 1: r = x != y; break;
                case 2: r = x < y; break;
                case 3: r = x <= y; break;
                case 4: r = x > y; break;
                case 5: r = x >= y; break;
                case 6: r = sx < sy; break;
                case 7: r = sx <= sy; break;
                case 8: r = sx > sy; break;
                default: r = sx >= sy; break;
                }
                f->slots[I.dst] = Val((uint64_t)r);
            } else {
                E x = toE(a, w), y = toE(b, w);
                E r;
                switch (I.sub) {
                case 0: r = mkCmp(K::Eq, x, y); break;
                case 1: r = mkNot(mkCmp(K::Eq, x, y)); break;
                case 2: r = mkCmp(K::Ult, x, y); break;
                case 3: r = mkCmp(K::Ule, x, y); break;
                case 4: r = mkCmp(K::Ult, y, x); break;
                case 5: r = mkCmp(K::Ule, y, x); break;
                case 6: r = mkCmp(K::Slt, x, y); break;
                case 7: r = mkCmp(K::Sle, x, y); break;
                case 8: r = mkCmp(K::Slt, y, x); break;
                default: r = mkCmp(K::Sle, y, x); break;
                }
                f->slots[I.dst] = Val(r);
            }
            f->pc++;
            break;
        }
        case O_CondBr: {
            const Val &c = GET(I.a);
            BrInfo *bi = (BrInfo *)I.x;
            bool v;
            if (!c.e) v = c.c & 1;
            else {
                v = forkOn(s, c.e);
                UNSHARE();
            }
            const Edge &e = v ? bi->t : bi->f;
            if (e.moves.empty()) f->pc = e.target;
            else takeEdge(s, e);
            if (!(s.insts & 1023)) {
                if (s.insts > opt.maxInsts) violation(s, "hang", "does not terminate within the instruction limit", fn->name);
            }
            break;
        }
        case O_Br: {
            const Edge &e = ((BrInfo *)I.x)->t;
            if (e.moves.empty()) f->pc = e.target;
            else takeEdge(s, e);
            if (s.insts > opt.maxInsts) violation(s, "hang", "does not terminate within the instruction limit", fn->name);
            break;
        }
        case O_Switch: {
            const Val &c = GET(I.a);
            SwitchInfo *si = (SwitchInfo *)I.x;
            uint64_t v = c.e ? (uint64_t)evalE(c.e, *s.model) : c.c;
            uint32_t k = 0;
            for (auto &p : si->cases)
                if (p.first == v) { k = p.second; break; }
            if (c.e) {
                E taken = nullptr;
                if (k) {
                    for (auto &p : si->cases)
                        if (p.second == k) {
                            E q = mkCmp(K::Eq, c.e, mkConst(p.first, I.w));
                            taken = taken ? mkOr1(taken, q) : q;
                        }
                } else {
                    taken = mkConst(1, 1);
                    for (auto &p : si->cases) taken = mkAnd1(taken, mkNot(mkCmp(K::Eq, c.e, mkConst(p.first, I.w))));
                }
                bool r = forkOn(s, taken);
                (void)r; // true by construction of the model
                UNSHARE();
            }
            takeEdge(s, si->edges[k]);
            break;
        }
        case O_Load: {
            const Val &p = GET(I.a);
            if (p.e) {
                Val r = load(s, p, I.w);
                UNSHARE();
                f->slots[I.dst] = r;
            } else
                f->slots[I.dst] = loadC(s, p.c, I.w);
            f->pc++;
            break;
        }
        case O_Store: {
            Val p = GET(I.a);
            if (I.imm) p = binVal(B_Add, p, Val((uint64_t)I.imm), 64);
            if (p.e) {
                Val v = GET(I.b);
                store(s, p, v, I.w);
                UNSHARE();
            } else
                storeC(s, p.c, GET(I.b), I.w);
            f->pc++;
            break;
        }
        case O_LoadAgg: {
            Val p = GET(I.a);
            AggInfo *ai = (AggInfo *)I.x;
            uint64_t a = u64c(s, p);
            UNSHARE();
            for (size_t i = 0; i < ai->leaves.size(); i++) f->slots[I.dst + i] = loadC(s, a + ai->leaves[i].off, ai->leaves[i].w);
            f->pc++;
            break;
        }
        case O_Alloca: {
            uint64_t cnt = u64c(s, GET(I.a));
            UNSHARE();
            uint32_t id = alloc(s, I.imm * cnt, 1);
            f->stackObjs.push_back(id);
            f->slots[I.dst] = Val(addrOf(id));
            f->pc++;
            break;
        }
        case O_Gep: {
            Val r = GET(I.a);
            if (I.imm) r = binVal(B_Add, r, Val((uint64_t)I.imm), 64);
            if (I.n) {
                GepInfo *gi = (GepInfo *)I.x;
                for (auto &t : gi->terms) {
                    const Val &v = GET(t.op);
                    Val x;
                    if (!v.e) {
                        int64_t sv = t.w == 64 ? (int64_t)v.c : (int64_t)(v.c << (64 - t.w)) >> (64 - t.w);
                        x = Val((uint64_t)(sv * t.scale));
                    } else {
                        E e = t.w < 64 ? mkSExt(v.e, 64) : t.w > 64 ? mkExtract(v.e, 0, 64) : v.e;
                        x = Val(mkBin(K::Mul, e, mkConst((u128)t.scale, 64)));
                    }
                    r = binVal(B_Add, r, x, 64);
                }
            }
            f->slots[I.dst] = r;
            f->pc++;
            break;
        }
        case O_Trunc: {
            const Val &a = GET(I.a);
            if (!a.e) f->slots[I.dst] = Val(I.w == 64 ? a.c : a.c & ((1ull << I.w) - 1));
            else { E e = mkExtract(a.e, 0, I.w); if (I.w > 64) f->slots[I.dst].e = e; else f->slots[I.dst] = Val(e); }
            f->pc++;
            break;
        }
        case O_ZExt: {
            const Val &a = GET(I.a);
            if (!a.e && I.w <= 64) f->slots[I.dst] = a;
            else { E e = mkZExt(toE(a, I.w2), I.w); if (I.w > 64) { f->slots[I.dst].e = e; } else f->slots[I.dst] = Val(e); }
            f->pc++;
            break;
        }
        case O_SExt: {
            const Val &a = GET(I.a);
            if (!a.e && I.w <= 64) {
                int64_t v = (int64_t)(a.c << (64 - I.w2)) >> (64 - I.w2);
                f->slots[I.dst] = Val(I.w == 64 ? (uint64_t)v : (uint64_t)v & ((1ull << I.w) - 1));
            } else { E e = mkSExt(toE(a, I.w2), I.w); if (I.w > 64) { f->slots[I.dst].e = e; } else f->slots[I.dst] = Val(e); }
            f->pc++;
            break;
        }
        case O_FPTrunc: f->slots[I.dst] = Val(mkFp(K::FTrunc, toE(GET(I.a), I.w2), nullptr, I.w, 0)); f->pc++; break;
        case O_FPExt: f->slots[I.dst] = Val(mkFp(K::FExt, toE(GET(I.a), I.w2), nullptr, I.w, 0)); f->pc++; break;
        case O_FToS: f->slots[I.dst] = Val(mkFp(K::FToS, toE(GET(I.a), I.w2), nullptr, I.w, 0)); f->pc++; break;
        case O_FToU: f->slots[I.dst] = Val(mkFp(K::FToU, toE(GET(I.a), I.w2), nullptr, I.w, 0)); f->pc++; break;
        case O_SToF: f->slots[I.dst] = Val(mkFp(K::SToF, toE(GET(I.a), I.w2), nullptr, I.w, 0)); f->pc++; break;
        case O_UToF: f->slots[I.dst] = Val(mkFp(K::UToF, toE(GET(I.a), I.w2), nullptr, I.w, 0)); f->pc++; break;
        case O_FBin: f->slots[I.dst] = Val(mkFp((K)I.sub, toE(GET(I.a), I.w), toE(GET(I.b), I.w), I.w, 0)); f->pc++; break;
        case O_FNeg: f->slots[I.dst] = Val(mkBin(K::Xor, toE(GET(I.a), I.w), mkConst((u128)1 << (I.w - 1), I.w))); f->pc++; break;
        case O_FCmp: {
            E a = toE(GET(I.a), I.w), b = toE(GET(I.b), I.w);
            E r;
            auto uno = [&] { return mkFp(K::FUno, a, b, 1, 0); };
            auto oeq = [&] { return mkFp(K::FOeq, a, b, 1, 0); };
            auto olt = [&](E x, E y) { return mkFp(K::FOlt, x, y, 1, 0); };
            auto ole = [&](E x, E y) { return mkFp(K::FOle, x, y, 1, 0); };
            switch (I.sub) {
            case 0: r = mkConst(0, 1); break;
            case 1: r = oeq(); break;
            case 2: r = olt(b, a); break;
            case 3: r = ole(b, a); break;
            case 4: r = olt(a, b); break;
            case 5: r = ole(a, b); break;
            case 6: r = mkAnd1(mkNot(oeq()), mkNot(uno())); break;
            case 7: r = mkNot(uno()); break;
            case 8: r = uno(); break;
            case 9: r = mkOr1(oeq(), uno()); break;
            case 10: r = mkNot(ole(a, b)); break;
            case 11: r = mkNot(olt(a, b)); break;
            case 12: r = mkNot(ole(b, a)); break;
            case 13: r = mkNot(olt(b, a)); break;
            case 14: r = mkNot(oeq()); break;
            default: r = mkConst(1, 1); break;
            }
            f->slots[I.dst] = Val(r);
            f->pc++;
            break;
        }
        case O_Select: {
            const Val &c = GET(I.c);
            if (!c.e) f->slots[I.dst] = (c.c & 1) ? GET(I.a) : GET(I.b);
            else if (I.sub) { // pointers: fork
                bool v = forkOn(s, c.e);
                UNSHARE();
                f->slots[I.dst] = v ? GET(I.a) : GET(I.b);
            } else {
                E e = mkIte(c.e, toE(GET(I.a), I.w), toE(GET(I.b), I.w));
                if (I.w > 64) f->slots[I.dst].e = e; else f->slots[I.dst] = Val(e);
            }
            f->pc++;
            break;
        }
        case O_Nop: f->pc++; break;
        case O_Ret: {
            Val buf[16];
            std::vector<Val> big;
            Val *b = buf;
            if (I.n > 16) { big.resize(I.n); b = big.data(); }
            auto *v = (std::vector<int> *)I.x;
            for (uint32_t i = 0; i < I.n; i++) b[i] = GET((*v)[i]);
            doRet(s, b, I.n);
            return;
        }
        case O_Call: {
            doCall(s, I, *(CallInfo *)I.x);
            if (s.frames.size() != nf || s.frames.back()->fn != fn) return;
            UNSHARE();
            f = s.frames.back().p;
            break;
        }
        case O_Invoke: doCall(s, I, ((InvokeInfo *)I.x)->call); return;
        case O_LandingPad:
            f->slots[I.dst] = Val(s.curExc);
            f->slots[I.dst + 1] = Val((uint64_t)(uint32_t)s.curSel);
            f->pc++;
            break;
        case O_Resume: {
            uint64_t e = GET(I.a).c;
            // the frame itself is left
            for (uint32_t o : f->stackObjs) release(s, o);
            s.frames.pop_back();
            throwExc(s, e);
            return;
        }
        case O_AtomicRMW: {
            uint64_t p = u64c(s, GET(I.a));
            UNSHARE();
            Val old = loadC(s, p, I.w), v = GET(I.b), nv;
            switch (I.sub) {
            case 0: nv = v; break;
            case 1: nv = binVal(B_Add, old, v, I.w); break;
            case 2: nv = binVal(B_Sub, old, v, I.w); break;
            case 3: nv = binVal(B_And, old, v, I.w); break;
            case 5: nv = binVal(B_Or, old, v, I.w); break;
            case 6: nv = binVal(B_Xor, old, v, I.w); break;
            default: incompletePath(s, "atomicrmw kind");
            }
            storeC(s, p, nv, I.w);
            f->slots[I.dst] = old;
            f->pc++;
            break;
        }
        case O_CmpXchg: {
            uint64_t p = u64c(s, GET(I.a));
            UNSHARE();
            Val old = loadC(s, p, I.w);
            bool eq = forkOn(s, mkCmp(K::Eq, toE(old, I.w), toE(GET(I.b), I.w)));
            UNSHARE();
            if (eq) storeC(s, p, GET(I.c), I.w);
            f->slots[I.dst] = old;
            f->slots[I.dst + 1] = Val((uint64_t)eq);
            f->pc++;
            break;
        }
        case O_Unreachable: violation(s, "abort", "reached unreachable code", fn->name);
        case O_Unsupported: incompletePath(s, "unsupported instruction: " + *(std::string *)I.x);
        default: incompletePath(s, "unknown opcode");
        }
    }
    if (now() - t0 > opt.maxTime) incompletePath(s, "time limit");
}
