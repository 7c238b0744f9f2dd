#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <bitset>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <unordered_map>

SolverStats gStats;
unsigned gTimeoutMs = 20000;
std::string gDumpDir;

static Z3_context C;
static Z3_sort fp32, fp64;
static Z3_ast rne, rna, rtz, rtp, rtn;
static std::map<std::pair<int, int>, Z3_func_decl> ufs;
static bool gZ3Error = false;

static void onErr(Z3_context c, Z3_error_code e)
{
    gZ3Error = true;
    fprintf(stderr, "pfsym: z3 error %s\n", Z3_get_error_msg(c, e));
}

static void init()
{
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg); // reference counting of terms by the context (never freed)
    Z3_set_error_handler(C, onErr);
    fp32 = Z3_mk_fpa_sort_32(C);
    fp64 = Z3_mk_fpa_sort_64(C);
    rne = Z3_mk_fpa_rne(C);
    rna = Z3_mk_fpa_rna(C);
    rtz = Z3_mk_fpa_rtz(C);
    rtp = Z3_mk_fpa_rtp(C);
    rtn = Z3_mk_fpa_rtn(C);
}

static Z3_ast bv(E e);
static Z3_ast num(u128 v, unsigned w)
{
    Z3_sort s = Z3_mk_bv_sort(C, w);
    if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, s);
    Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), Z3_mk_bv_sort(C, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, 64));
    return Z3_mk_concat(C, hi, lo);
}
static Z3_ast fp(E e)
{
    if (e->z3fp) return (Z3_ast)e->z3fp;
    Z3_ast r;
    Z3_sort s = e->w == 64 ? fp64 : fp32;
    switch (e->k) {
    case K::FAdd: r = Z3_mk_fpa_add(C, rne, fp(e->a), fp(e->b)); break;
    case K::FSub: r = Z3_mk_fpa_sub(C, rne, fp(e->a), fp(e->b)); break;
    case K::FMul: r = Z3_mk_fpa_mul(C, rne, fp(e->a), fp(e->b)); break;
    case K::FDiv: r = Z3_mk_fpa_div(C, rne, fp(e->a), fp(e->b)); break;
    case K::SToF: r = Z3_mk_fpa_to_fp_signed(C, rne, bv(e->a), s); break;
    case K::UToF: r = Z3_mk_fpa_to_fp_unsigned(C, rne, bv(e->a), s); break;
    case K::FExt: case K::FTrunc: r = Z3_mk_fpa_to_fp_float(C, rne, fp(e->a), s); break;
    case K::FRound: {
        Z3_ast m[] = {rna, rne, rtn, rtp, rtz};
        r = Z3_mk_fpa_round_to_integral(C, m[e->aux], fp(e->a));
        break;
    }
    case K::FSqrt: r = Z3_mk_fpa_sqrt(C, rne, fp(e->a)); break;
    case K::Ite: r = Z3_mk_ite(C, Z3_mk_eq(C, bv(e->a), num(1, 1)), fp(e->b), fp(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, bv(e), s); break;
    }
    e->z3fp = r;
    return r;
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static Z3_ast fpc(double d) { return Z3_mk_fpa_numeral_double(C, d, fp64); }
static Z3_ast boolOf(E e);

static Z3_ast uf(E e)
{
    auto key = std::make_pair((int)e->k * 100 + e->aux, (int)e->w);
    auto it = ufs.find(key);
    if (it == ufs.end()) {
        Z3_sort s = Z3_mk_bv_sort(C, e->w);
        Z3_sort d[2] = {s, s};
        std::string n = "uf" + std::to_string(key.first) + "_" + std::to_string(e->w);
        it = ufs.emplace(key, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), e->k == K::Uf2 ? 2 : 1, d, s)).first;
    }
    Z3_ast args[2] = {bv(e->a), e->b ? bv(e->b) : nullptr};
    return Z3_mk_app(C, it->second, e->b ? 2 : 1, args);
}

static Z3_ast boolOfImpl(E e)
{
    switch (e->k) {
    case K::Const: return e->v ? Z3_mk_true(C) : Z3_mk_false(C);
    case K::Eq: return Z3_mk_eq(C, bv(e->a), bv(e->b));
    case K::Ult: return Z3_mk_bvult(C, bv(e->a), bv(e->b));
    case K::Ule: return Z3_mk_bvule(C, bv(e->a), bv(e->b));
    case K::Slt: return Z3_mk_bvslt(C, bv(e->a), bv(e->b));
    case K::Sle: return Z3_mk_bvsle(C, bv(e->a), bv(e->b));
    case K::FOeq: return Z3_mk_fpa_eq(C, fp(e->a), fp(e->b));
    case K::FOlt: return Z3_mk_fpa_lt(C, fp(e->a), fp(e->b));
    case K::FOle: return Z3_mk_fpa_leq(C, fp(e->a), fp(e->b));
    case K::FUno: {
        Z3_ast o[2] = {Z3_mk_fpa_is_nan(C, fp(e->a)), Z3_mk_fpa_is_nan(C, fp(e->b))};
        return Z3_mk_or(C, 2, o);
    }
    case K::And: {
        Z3_ast o[2] = {boolOf(e->a), boolOf(e->b)};
        return Z3_mk_and(C, 2, o);
    }
    case K::Or: {
        Z3_ast o[2] = {boolOf(e->a), boolOf(e->b)};
        return Z3_mk_or(C, 2, o);
    }
    case K::Xor:
        if (isC(e->b, 1)) return Z3_mk_not(C, boolOf(e->a));
        return Z3_mk_xor(C, boolOf(e->a), boolOf(e->b));
    case K::Ite: return Z3_mk_ite(C, boolOf(e->a), boolOf(e->b), boolOf(e->c));
    default: return Z3_mk_eq(C, bv(e), num(1, 1));
    }
}
static Z3_ast boolOf(E e)
{
    // width-1 expressions cache their boolean form in z3fp (never an fp value)
    if (e->z3fp) return (Z3_ast)e->z3fp;
    Z3_ast r = boolOfImpl(e);
    e->z3fp = r;
    return r;
}

static Z3_ast bv(E e)
{
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r;
    if (e->w == 1 && e->k != K::Sym && e->k != K::Const && e->k != K::Extract) {
        r = b2bv(boolOf(e));
        e->z3bv = r;
        return r;
    }
    switch (e->k) {
    case K::Const: r = num(e->v, e->w); break;
    case K::Sym: {
        std::string n = "s" + std::to_string((unsigned)e->v);
        r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, e->w));
        break;
    }
    case K::Add: r = Z3_mk_bvadd(C, bv(e->a), bv(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(C, bv(e->a), bv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(C, bv(e->a), bv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, bv(e->a), bv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, bv(e->a), bv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(C, bv(e->a), bv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, bv(e->a), bv(e->b)); break;
    case K::And: r = Z3_mk_bvand(C, bv(e->a), bv(e->b)); break;
    case K::Or: r = Z3_mk_bvor(C, bv(e->a), bv(e->b)); break;
    case K::Xor: r = Z3_mk_bvxor(C, bv(e->a), bv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(C, bv(e->a), bv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, bv(e->a), bv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(C, bv(e->a), bv(e->b)); break;
    case K::Ite: r = Z3_mk_ite(C, boolOf(e->a), bv(e->b), bv(e->c)); break;
    case K::Concat: r = Z3_mk_concat(C, bv(e->a), bv(e->b)); break;
    case K::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, bv(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a)); break;
    case K::FToS: {
        Z3_ast x = e->a->w == 64 ? fp(e->a) : Z3_mk_fpa_to_fp_float(C, rne, fp(e->a), fp64);
        if (e->w <= 32) {
            Z3_ast c[2] = {Z3_mk_fpa_gt(C, x, fpc(-2147483649.0)), Z3_mk_fpa_lt(C, x, fpc(2147483648.0))};
            Z3_ast v = Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, rtz, x, 32), num(0x80000000u, 32));
            r = e->w < 32 ? Z3_mk_extract(C, e->w - 1, 0, v) : v;
        } else {
            Z3_ast c[2] = {Z3_mk_fpa_geq(C, x, fpc(-9223372036854775808.0)), Z3_mk_fpa_lt(C, x, fpc(9223372036854775808.0))};
            r = Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, rtz, x, 64), num((u128)1 << 63, 64));
        }
        break;
    }
    case K::FToU: {
        Z3_ast x = e->a->w == 64 ? fp(e->a) : Z3_mk_fpa_to_fp_float(C, rne, fp(e->a), fp64);
        auto cvt = [&](Z3_ast y) {
            Z3_ast c[2] = {Z3_mk_fpa_geq(C, y, fpc(-9223372036854775808.0)), Z3_mk_fpa_lt(C, y, fpc(9223372036854775808.0))};
            return Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, rtz, y, 64), num((u128)1 << 63, 64));
        };
        if (e->w < 32) {
            Z3_ast c[2] = {Z3_mk_fpa_gt(C, x, fpc(-2147483649.0)), Z3_mk_fpa_lt(C, x, fpc(2147483648.0))};
            Z3_ast v = Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, rtz, x, 32), num(0x80000000u, 32));
            r = Z3_mk_extract(C, e->w - 1, 0, v);
        } else if (e->w == 32)
            r = Z3_mk_extract(C, 31, 0, cvt(x));
        else {
            Z3_ast lo = cvt(x), hi = cvt(Z3_mk_fpa_sub(C, rne, x, fpc(9223372036854775808.0)));
            r = Z3_mk_bvor(C, lo, Z3_mk_bvand(C, hi, Z3_mk_bvashr(C, lo, num(63, 64))));
        }
        break;
    }
    case K::Uf1: case K::Uf2: r = uf(e); break;
    case K::FRem: gZ3Error = true; r = num(0, e->w); break;
    default: r = Z3_mk_fpa_to_ieee_bv(C, fp(e)); break;
    }
    e->z3bv = r;
    return r;
}

// ---------------------------------------------------------------- finite domain
static std::unordered_map<uint32_t, std::bitset<256>> gDom;
static const std::bitset<256> &domOf(E c, uint32_t sym, unsigned w)
{
    auto it = gDom.find(c->id);
    if (it != gDom.end()) return it->second;
    std::bitset<256> r;
    for (unsigned v = 0; v < (1u << w); v++) {
        Model *m = newModel(nullptr);
        m->vals.assign(sym + 1, 0);
        m->vals[sym] = v;
        if (evalE(c, *m)) r.set(v);
        delete m;
    }
    return gDom[c->id] = r;
}

struct CacheEnt {
    Res r;
    std::vector<std::pair<uint32_t, u128>> asg;
};
static std::map<std::vector<uint32_t>, CacheEnt> gCache;
static std::deque<Model *> gRecent;

static void collectUf(E e, std::set<E> &seen, std::vector<E> &out)
{
    if (!e->hasFp || !seen.insert(e).second) return;
    for (E x : {e->a, e->b, e->c})
        if (x) collectUf(x, seen, out);
    if (e->k == K::Uf1 || e->k == K::Uf2) out.push_back(e);
}

static bool externalSolve(const std::string &smt, Res &res, unsigned secs)
{
    char fn[] = "/tmp/pfsymXXXXXX";
    int fd = mkstemp(fn);
    if (fd < 0) return false;
    (void)!write(fd, smt.data(), smt.size());
    close(fd);
    gStats.external++;
    std::string cmd = "timeout " + std::to_string(secs) + " cvc5 --lang smt2 " + fn + " 2>/dev/null";
    FILE *p = popen(cmd.c_str(), "r");
    char buf[256] = {0};
    bool ok = false;
    if (p) {
        if (fgets(buf, sizeof buf, p)) {
            if (!strncmp(buf, "unsat", 5)) { res = Res::Unsat; ok = true; }
        }
        pclose(p);
    }
    unlink(fn);
    return ok;
}

static bool subset;
Res solve(const std::vector<E> &consIn, E cond, const Model *hint, Model **out, bool smtOnly)
{
    if (!subset) gStats.queries++;
    if (isC(cond)) {
        if (!cond->v) return Res::Unsat;
        if (out) *out = newModel(hint);
        return Res::Sat;
    }
    // slice
    std::vector<E> cons;
    {
        std::vector<bool> in;
        auto mark = [&](const SymSet *s) {
            bool ch = false;
            for (uint32_t x : s->v) {
                if (x >= in.size()) in.resize(x + 1, false);
                if (!in[x]) { in[x] = true; ch = true; }
            }
            return ch;
        };
        mark(cond->syms);
        std::vector<E> rest(consIn.begin(), consIn.end());
        bool ch = true;
        while (ch) {
            ch = false;
            std::vector<E> next;
            for (E c : rest) {
                bool hit = false;
                for (uint32_t x : c->syms->v)
                    if (x < in.size() && in[x]) { hit = true; break; }
                if (hit) {
                    cons.push_back(c);
                    if (mark(c->syms)) ch = true;
                } else
                    next.push_back(c);
            }
            rest.swap(next);
        }
    }
    // single small symbol: finite-domain decision
    if (!smtOnly && cond->syms->v.size() == 1) {
        uint32_t s = cond->syms->v[0];
        if (gSyms[s].w <= 8) {
            {
                // the constraints on that symbol alone may already exclude it
                std::bitset<256> d = domOf(cond, s, gSyms[s].w);
                for (E c : cons)
                    if (c->syms == cond->syms) d &= domOf(c, s, gSyms[s].w);
                if (d.none()) { gStats.fdDecided++; return Res::Unsat; }
            }
            bool single = true;
            for (E c : cons)
                if (c->syms != cond->syms) { single = false; break; }
            if (single) {
                std::bitset<256> d = domOf(cond, s, gSyms[s].w);
                for (E c : cons) d &= domOf(c, s, gSyms[s].w);
                gStats.fdDecided++;
                if (d.none()) return Res::Unsat;
                if (out) {
                    Model *m = newModel(hint);
                    if (m->vals.size() <= s) m->vals.resize(s + 1, 0);
                    unsigned v = d._Find_first();
                    // prefer printable / small values for readable witnesses
                    m->vals[s] = v;
                    *out = m;
                }
                return Res::Sat;
            }
        }
    }
    std::vector<uint32_t> key;
    key.reserve(cons.size() + 1);
    for (E c : cons) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto apply = [&](const std::vector<std::pair<uint32_t, u128>> &asg) {
        Model *m = newModel(hint);
        for (auto &p : asg) {
            if (m->vals.size() <= p.first) m->vals.resize(p.first + 1, 0);
            m->vals[p.first] = p.second;
        }
        return m;
    };
    auto it = gCache.find(key);
    if (it != gCache.end() && !(smtOnly && it->second.r == Res::Unknown)) {
        gStats.cacheHits++;
        if (it->second.r == Res::Sat && out) *out = apply(it->second.asg);
        return it->second.r;
    }
    std::set<uint32_t> syms(cond->syms->v.begin(), cond->syms->v.end());
    for (E c : cons) syms.insert(c->syms->v.begin(), c->syms->v.end());
    // recent models (a satisfying assignment found by evaluation is a valid Sat witness)
    if (out) {
        int n = 0;
        for (Model *m : gRecent) {
            if (++n > 12) break;
            if (!evalE(cond, *m)) continue;
            bool ok = true;
            for (E c : cons)
                if (!evalE(c, *m)) { ok = false; break; }
            if (ok) {
                gStats.modelReuse++;
                std::vector<std::pair<uint32_t, u128>> asg;
                for (uint32_t s : syms) asg.push_back({s, m->get(s)});
                gCache[key] = {Res::Sat, asg};
                *out = apply(asg);
                return Res::Sat;
            }
        }
    }
    init();
    // first with the constraints over the condition's own symbols only: unsatisfiable there is unsatisfiable
    if (!subset) {
        std::vector<E> own;
        std::set<uint32_t> cs(cond->syms->v.begin(), cond->syms->v.end());
        for (E c : cons) {
            bool in = true;
            for (uint32_t x : c->syms->v) if (!cs.count(x)) { in = false; break; }
            if (in) own.push_back(c);
        }
        if (own.size() < cons.size() && !cond->hasFp) {
            subset = true;
            Res r = solve(own, cond, nullptr, nullptr, true);
            subset = false;
            if (r == Res::Unsat) { gCache[key] = {Res::Unsat, {}}; return Res::Unsat; }
        }
    }
    bool hasFp = cond->hasFp;
    for (E c : cons) hasFp |= c->hasFp;
    std::vector<E> ufsUsed;
    if (hasFp) {
        std::set<E> seen;
        collectUf(cond, seen, ufsUsed);
        for (E c : cons) collectUf(c, seen, ufsUsed);
    }
    auto t0 = std::chrono::steady_clock::now();
    gStats.smtCalls++;
    gZ3Error = false;
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, hasFp ? (ufsUsed.empty() ? "QF_FPBV" : "QF_UFBV") : "QF_BV"));
    if (!ufsUsed.empty()) s = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params ps = Z3_mk_params(C);
    Z3_params_inc_ref(C, ps);
    Z3_params_set_uint(C, ps, Z3_mk_string_symbol(C, "timeout"), gTimeoutMs);
    Z3_solver_set_params(C, s, ps);
    Z3_params_dec_ref(C, ps);
    for (E c : cons) Z3_solver_assert(C, s, boolOf(c));
    Z3_solver_assert(C, s, boolOf(cond));
    Res res = Res::Unknown;
    std::vector<std::pair<uint32_t, u128>> asg;
    for (int round = 0; round < 40; round++) {
        Z3_lbool r = Z3_solver_check(C, s);
        if (gZ3Error) { res = Res::Unknown; break; }
        if (r == Z3_L_FALSE) { res = Res::Unsat; break; }
        if (r == Z3_L_UNDEF) {
            res = Res::Unknown;
            if (ufsUsed.empty()) {
                std::string smt = Z3_solver_to_string(C, s);
                smt = std::string("(set-logic ") + (hasFp ? "QF_BVFP" : "QF_BV") + ")\n" + smt + "\n(check-sat)\n";
                Res rr;
                if (externalSolve(smt, rr, gTimeoutMs / 1000 + 1)) res = rr;
            }
            break;
        }
        asg.clear();
        Z3_model zm = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, zm);
        Model *m = newModel(hint);
        for (uint32_t sy : syms) {
            E se = mkSym(sy, gSyms[sy].w);
            Z3_ast v;
            u128 val = 0;
            if (Z3_model_eval(C, zm, bv(se), true, &v) && Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST) {
                if (se->w <= 64) {
                    uint64_t x = 0;
                    Z3_get_numeral_uint64(C, v, &x);
                    val = x;
                } else {
                    const char *str = Z3_get_numeral_string(C, v);
                    for (; *str; str++) val = val * 10 + (*str - '0');
                }
            }
            asg.push_back({sy, val});
            if (m->vals.size() <= sy) m->vals.resize(sy + 1, 0);
            m->vals[sy] = val;
        }
        Z3_model_dec_ref(C, zm);
        bool ok = evalE(cond, *m);
        for (E c : cons) ok = ok && evalE(c, *m);
        if (ok) {
            res = Res::Sat;
            delete m;
            break;
        }
        if (ufsUsed.empty()) {
            if (getenv("PFSYM_DEBUG")) fprintf(stderr, "pfsym: model mismatch for %s\n", exprStr(cond).c_str());
            res = Res::Unknown; // evaluator and solver disagree (e.g. NaN payloads)
            delete m;
            break;
        }
        // refine uninterpreted functions at the points used by this model
        for (E u : ufsUsed) {
            Z3_ast args[2] = {num(evalE(u->a, *m), u->a->w), u->b ? num(evalE(u->b, *m), u->b->w) : nullptr};
            auto key2 = std::make_pair((int)u->k * 100 + u->aux, (int)u->w);
            Z3_ast app = Z3_mk_app(C, ufs[key2], u->b ? 2 : 1, args);
            Z3_solver_assert(C, s, Z3_mk_eq(C, app, num(evalE(u, *m), u->w)));
        }
        delete m;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gStats.smtTime += dt;
    if (dt > gStats.maxTime) gStats.maxTime = dt;
    if (getenv("PFSYM_DEBUG") && dt > 0.5) {
        fprintf(stderr, "pfsym: slow query %.2fs res=%d %s\n", dt, (int)res, exprStr(cond, 8).c_str());
    }
    Z3_solver_dec_ref(C, s);
    if (res == Res::Sat) gStats.smtSat++;
    else if (res == Res::Unsat) gStats.smtUnsat++;
    else gStats.smtUnknown++;
    gCache[key] = {res, asg};
    if (res == Res::Sat) {
        Model *m = apply(asg);
        Model *keep = newModel(m);
        gRecent.push_front(keep);
        if (gRecent.size() > 64) {
            delete gRecent.back();
            gRecent.pop_back();
        }
        if (out) *out = m; else delete m;
    }
    return res;
}
