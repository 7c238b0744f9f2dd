// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // floating point: operands are IEEE bit patterns of 32 or 64 bits
    FAdd, FSub, FMul, FDiv, FRem,
    FOeq, FOlt, FOle, FUno,          // width 1 results
    FToS, FToU,                      // fp -> integer of width w (x86 indefinite when out of range)
    SToF, UToF,                      // integer -> fp of width w
    FExt, FTrunc,                    // 32 <-> 64
    FRound,                          // aux: 0 RNA(round) 1 RNE(rint) 2 floor 3 ceil 4 trunc
    FSqrt,
    Uf1, Uf2                         // uninterpreted function aux (log, exp, pow...)
};

struct SymSet {
    std::vector<uint32_t> v; // sorted symbol ids
    uint32_t id;
};

struct Expr {
    K k;
    uint8_t w;
    uint16_t aux; // Extract: low bit; FRound: mode; Uf: function id; Sym: unused
    uint32_t id;
    const Expr *a, *b, *c;
    u128 v; // constant value, or symbol id for Sym
    const SymSet *syms;
    bool hasFp;
    mutable uint32_t evEpoch = 0;
    mutable u128 evVal = 0;
    mutable void *z3bv = nullptr;
    mutable void *z3fp = nullptr;
    mutable u128 kz = 0; // known zero bits
    mutable bool kzDone = false;
    Expr *next; // hash chain
};
typedef const Expr *E;

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextW(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskW(w);
    return (i128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkSym(uint32_t id, unsigned w);
E mkBin(K k, E a, E b);
E mkCmp(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a); // width 1
E mkFp(K k, E a, E b, unsigned w, unsigned aux);
static inline E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }
static inline bool isC(E e) { return e->k == K::Const; }
static inline bool isC(E e, u128 v) { return e->k == K::Const && e->v == v; }

size_t exprCount();

// symbol table
struct SymInfo {
    std::string name;
    unsigned w;
};
extern std::vector<SymInfo> gSyms;
uint32_t newSym(const std::string &name, unsigned w);

// Evaluation under a model. A model is identified by an epoch for caching.
struct Model {
    std::vector<u128> vals; // by symbol id; missing = 0
    uint32_t epoch;
    u128 get(uint32_t s) const { return s < vals.size() ? vals[s] : 0; }
};
Model *newModel(const Model *base); // copies values (fresh epoch)
u128 evalE(E e, const Model &m);
u128 fpOp(K k, u128 a, u128 b, unsigned wa, unsigned w, unsigned aux);
std::string exprStr(E e, int depth = 6);
u128 knownZeroBits(E e);
