// Decoded program and machine state of the symbolic executor.
#pragma once
#include "expr.h"
#include "solver.h"
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>

struct Val {
    uint64_t c;
    E e; // symbolic (or wider than 64 bits) when non-null
    Val(uint64_t x = 0) : c(x), e(nullptr) {}
    explicit Val(E x) : c(0), e(x)
    {
        if (x->k == K::Const && x->w <= 64) { c = (uint64_t)x->v; e = nullptr; }
    }
    bool sym() const { return e != nullptr; }
};
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum Op : uint8_t {
    O_Ret, O_Br, O_CondBr, O_Switch, O_Call, O_Invoke, O_Resume, O_Unreachable,
    O_Bin, O_FBin, O_FNeg, O_ICmp, O_FCmp, O_Load, O_Store, O_LoadAgg, O_StoreAgg, O_Alloca, O_Gep,
    O_Trunc, O_ZExt, O_SExt, O_FPTrunc, O_FPExt, O_FToS, O_FToU, O_SToF, O_UToF, O_Copy,
    O_Select, O_CopyN, O_InsertVal, O_LandingPad, O_AtomicRMW, O_CmpXchg, O_Nop, O_Unsupported,
    O_InsElt, O_ExtElt
};
enum BinK : uint8_t { B_Add, B_Sub, B_Mul, B_UDiv, B_SDiv, B_URem, B_SRem, B_And, B_Or, B_Xor, B_Shl, B_LShr, B_AShr };

struct Leaf { uint32_t off; uint16_t w; bool ptr; };
struct Edge { uint32_t target; std::vector<std::pair<int, int>> moves; };
struct Fn;
struct CallInfo {
    Fn *fn = nullptr; // direct callee
    int callee = 0;         // operand when indirect
    std::vector<int> args;
    std::vector<uint16_t> argw;
    std::vector<uint32_t> byval; // per flattened arg: size or 0
    int nfixed = -1;
};
struct GepTerm { int op; uint16_t w; int64_t scale; };
struct Clause { bool isCatch; bool filter; int op; };
struct Inst {
    Op op;
    uint8_t sub = 0;
    uint16_t w = 0;
    uint16_t w2 = 0;
    int dst = -1;
    int a = 0, b = 0, c = 0;
    uint32_t n = 0;
    int64_t imm = 0;
    void *x = nullptr; // op-specific payload
    int line = 0;
};
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; std::vector<Edge> edges; /* 0 = default */ };
struct BrInfo { Edge t, f; };
struct GepInfo { std::vector<GepTerm> terms; };
struct AggInfo { std::vector<Leaf> leaves; };
struct LpInfo { std::vector<Clause> clauses; bool cleanup; };
struct InvokeInfo { CallInfo call; Edge normal, unwind; };

struct State;
struct Interp;
typedef int (*Builtin)(Interp &, State &, const Inst &, const CallInfo &, std::vector<Val> &args, Val &ret);

struct Fn {
    std::string name;
    void *llvmFn = nullptr;
    bool decoded = false;
    bool defined = false;
    bool fromRepo = false;
    bool entered = false;
    uint64_t addr = 0;
    uint32_t nslots = 0;
    uint32_t nargs = 0;
    bool varargs = false;
    std::vector<Inst> code;
    std::vector<Val> cpool;
    std::vector<std::pair<int, uint64_t>> allocas; // static allocas: (dst, size)
    Builtin bi = nullptr;
    bool biResolved = false;
    unsigned retw = 0;
    uint64_t insts = 0;
};

// ---------------------------------------------------------------- memory
struct Obj {
    uint32_t rc = 0;
    uint32_t size = 0;
    uint8_t kind = 0; // 0 global, 1 stack, 2 heap, 3 exception
    bool alive = true, ro = false;
    uint8_t *data = nullptr;
    E *sym = nullptr;
    ~Obj() { free(data); free(sym); }
    Obj *clone() const
    {
        Obj *o = new Obj();
        o->size = size; o->kind = kind; o->alive = alive; o->ro = ro;
        o->data = (uint8_t *)malloc(size ? size : 1);
        memcpy(o->data, data, size);
        if (sym) {
            o->sym = (E *)malloc(sizeof(E) * (size ? size : 1));
            memcpy(o->sym, sym, sizeof(E) * size);
        }
        return o;
    }
};
template <class T> struct Ref {
    T *p = nullptr;
    Ref() {}
    Ref(T *x) : p(x) { if (p) p->rc++; }
    Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
    Ref &operator=(Ref &&o) { std::swap(p, o.p); return *this; }
    T *operator->() const { return p; }
    explicit operator bool() const { return p; }
};
struct Chunk { uint32_t rc = 0; Ref<Obj> o[64]; };
struct Mid { uint32_t rc = 0; Ref<Chunk> c[128]; };
struct Memory {
    std::vector<Ref<Mid>> top;
    uint32_t next = 0;
    std::vector<uint32_t> freeStack;
    Obj *get(uint32_t id) const
    {
        uint32_t m = id >> 13;
        if (m >= top.size() || !top[m]) return nullptr;
        Chunk *c = top[m].p->c[(id >> 6) & 127].p;
        return c ? c->o[id & 63].p : nullptr;
    }
    Ref<Obj> &slot(uint32_t id)
    {
        uint32_t m = id >> 13;
        if (m >= top.size()) top.resize(m + 1);
        if (!top[m]) top[m] = Ref<Mid>(new Mid());
        else if (top[m]->rc > 1) { Mid *n = new Mid(); for (int i = 0; i < 128; i++) n->c[i] = top[m].p->c[i]; top[m] = Ref<Mid>(n); }
        Ref<Chunk> &c = top[m].p->c[(id >> 6) & 127];
        if (!c) c = Ref<Chunk>(new Chunk());
        else if (c->rc > 1) { Chunk *n = new Chunk(); for (int i = 0; i < 64; i++) n->o[i] = c.p->o[i]; c = Ref<Chunk>(n); }
        return c->o[id & 63];
    }
    Obj *writable(uint32_t id)
    {
        Ref<Obj> &r = slot(id);
        if (r->rc > 1) r = Ref<Obj>(r->clone());
        return r.p;
    }
};
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id + 1) << 32; }
static inline uint32_t objOf(uint64_t a) { return (uint32_t)(a >> 32) - 1; }

struct Frame {
    uint32_t rc = 0;
    Fn *fn = nullptr;
    uint32_t pc = 0;
    int retDst = -1;       // slot in the caller
    const Inst *callSite = nullptr;
    std::vector<Val> slots;
    std::vector<uint32_t> stackObjs;
    bool ctorBase = false;
};

struct InputRec { std::string name; unsigned w; E e; bool isChoice; u128 conc; };
struct ObsRec { std::string name; std::vector<E> bytes; unsigned w; };

struct ExcInfo { uint64_t ti = 0, dtor = 0; int handlers = 0; bool rethrown = false; uint64_t adj = 0; int refs = 1; };

struct State {
    Memory mem;
    std::vector<Ref<Frame>> frames;
    std::vector<E> cons;
    std::shared_ptr<Model> model;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::vector<std::string> reached;
    std::map<uint64_t, ExcInfo> excs;
    std::vector<uint64_t> caught;
    uint64_t curExc = 0, curAdj = 0;
    int curSel = 0;
    uint64_t insts = 0;
    uint32_t depth = 0;
    std::map<uint64_t, int> mutexes; // locked mutexes
    uint32_t watch = 0;              // object that may only be used under a lock, always the same
    bool watchSeen = false, watchWrites = false; // watchWrites: only writes to the range count
    uint64_t watchAddr = 0, watchSize = 0;
    std::set<uint64_t> watchLocks;
    struct DblTok { E v; int kind, prec, cls; }; // cls 0: the text is exact; 1: exact when read as float; 2: rounded
    std::vector<DblTok> dblTokens;
    struct DecRec { E v; std::vector<E> digits; };
    std::vector<DecRec> decs; // decimal texts of symbolic numbers
    uint32_t liveHeap = 0;
    E pendingChoice = nullptr;
    std::set<uint32_t> heap;
    bool trackHeap = false;
};

struct Violation { std::string label, kind, detail; std::vector<std::string> trace; std::vector<InputRec> inputs; std::vector<u128> vals; };

struct PathEnd {}; // thrown to end the current path
enum class End { Done, Assume, Violation, Incomplete, Pruned };

struct Options {
    std::string entry = "harness_main";
    double maxTime = 600;
    uint64_t maxInsts = 400000000ull;
    uint64_t maxPaths = 1000000;
    uint32_t maxViol = 4;
    uint32_t samples = 8;
    uint64_t seed = 1;
    std::map<std::string, std::string> params;
    std::string out;
    bool traceCalls = false;
};

struct Interp {
    Options opt;
    std::vector<Fn *> fns;
    std::unordered_map<std::string, Fn *> byName;
    std::unordered_map<std::string, uint64_t> globals;
    std::unordered_map<uint64_t, std::string> globalNames;
    Memory initMem;
    std::vector<uint64_t> ctors;

    std::vector<State *> stack;
    State *cur = nullptr;

    // results
    uint64_t nDone = 0, nAssume = 0, nViol = 0, nIncomplete = 0, nForks = 0, totalInsts = 0;
    uint64_t checks = 0, checksConst = 0, checksDischarged = 0, checksUnknown = 0;
    std::map<std::string, uint64_t> incomplete;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, uint64_t> checkLabels;
    std::map<std::string, uint64_t> violLabels;
    std::vector<Violation> viols;
    std::vector<std::string> samples; // JSON
    uint64_t sampleSeen = 0;
    std::map<uint64_t, int> typeIds;
    double t0 = 0;

    // program
    void load(const std::vector<std::string> &files, const std::vector<bool> &repo);
    void decode(Fn *f);
    Fn *fnAt(uint64_t addr);

    // execution
    void runAll();
    void run(State *s);
    void step(State &s);
    Frame &top(State &s);
    void pushCall(State &s, Fn *f, std::vector<Val> &args, int retDst, const Inst *cs, const CallInfo *ci);
    void doCall(State &s, const Inst &I, const CallInfo &ci);
    void doRet(State &s, const Val *vals, unsigned n);
    void takeEdge(State &s, const Edge &e);
    State *clone(State &s);

    // symbolic
    bool forkOn(State &s, E cond);            // re-executing fork
    uint64_t concretize(State &s, E e);       // forks over all feasible values
    bool mayBe(State &s, E cond);             // feasibility of cond (Unknown -> true with note)
    void addCons(State &s, E c);
    void check(State &s, E cond, const std::string &label);
    [[noreturn]] void violation(State &s, const std::string &kind, const std::string &label, const std::string &detail);
    void recordViolation(State &s, const Model &m, const std::string &kind, const std::string &label, const std::string &detail);
    [[noreturn]] void incompletePath(State &s, const std::string &why);
    [[noreturn]] void endPath(End e);
    void finishPath(State &s);
    std::vector<std::string> backtrace(State &s);

    // memory
    uint32_t alloc(State &s, uint64_t size, int kind);
    void release(State &s, uint32_t id);
    uint64_t resolve(State &s, const Val &addr, uint64_t size, bool write); // concrete address
    Val load(State &s, const Val &addr, unsigned w);
    void store(State &s, const Val &addr, const Val &v, unsigned w);
    Val loadC(State &s, uint64_t addr, unsigned w);
    void storeC(State &s, uint64_t addr, const Val &v, unsigned w);
    E byteAt(State &s, uint64_t addr);
    void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n);
    Obj *checkAccess(State &s, uint64_t addr, uint64_t n, bool write);
    std::string cstr(State &s, uint64_t addr, size_t max = 4096);
    uint64_t u64c(State &s, const Val &v); // concrete value (forking)

    // exceptions
    void throwExc(State &s, uint64_t exc);
    bool typeMatch(State &s, uint64_t ti, uint64_t catchTi, uint64_t obj, uint64_t &adj);
    int typeId(uint64_t ti);
    bool findBase(State &s, uint64_t ti, uint64_t want, uint64_t obj, uint64_t &adj);
};
extern std::unordered_map<std::string, Builtin> gBuiltins;
void initBuiltins();
Val binVal(BinK k, const Val &a, const Val &b, unsigned w);
std::string hexU128(u128 v);
std::string jsonEsc(const std::string &s);
void *decoderInit(Interp &I, const std::vector<std::string> &files, const std::vector<bool> &repo);
