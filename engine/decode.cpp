// LLVM IR -> decoded form.
#include "pf.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>

using namespace llvm;
static LLVMContext ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static Interp *IP;
static std::unordered_map<const llvm::Function *, ::Fn *> fmap_;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<const ::Fn *, const llvm::Function *> llf;

static unsigned widthOf(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
    return 0;
}
static void flatten(Type *t, uint64_t off, std::vector<Leaf> &out)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeAllocSize(vt->getElementType());
        for (uint64_t i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out);
    } else if (!t->isVoidTy()) {
        out.push_back({(uint32_t)off, (uint16_t)widthOf(t), t->isPointerTy()});
    }
}
static std::vector<Leaf> leavesOf(Type *t)
{
    std::vector<Leaf> v;
    flatten(t, 0, v);
    return v;
}

// ---- constant evaluation to u128 leaves
static u128 constScalar(const Constant *c);
static u128 constScalar(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return ci->getZExtValue();
        u128 r = ci->getValue().getRawData()[0];
        if (ci->getBitWidth() > 64) r |= (u128)ci->getValue().getRawData()[1] << 64;
        return r & maskW(ci->getBitWidth());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        return b.getRawData()[0];
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *gv = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constScalar(ga->getAliasee());
        return gaddr.at(gv);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto *gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) break;
            return (uint64_t)(constScalar(ce->getOperand(0)) + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        case Instruction::Trunc: case Instruction::ZExt:
            return constScalar(ce->getOperand(0)) & maskW(widthOf(ce->getType()));
        case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskW(widthOf(ce->getType()));
        case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskW(widthOf(ce->getType()));
        case Instruction::ICmp: {
            u128 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: return a == b;
            case CmpInst::ICMP_NE: return a != b;
            case CmpInst::ICMP_ULT: return a < b;
            case CmpInst::ICMP_UGT: return a > b;
            default: break;
            }
            break;
        }
        case Instruction::Select:
            return constScalar(ce->getOperand(0)) ? constScalar(ce->getOperand(1)) : constScalar(ce->getOperand(2));
        default: break;
        }
    }
    errs() << "pfsym: unsupported constant " << *c << "\n";
    return 0;
}
static void constLeaves(const Constant *c, std::vector<u128> &out)
{
    Type *t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                     : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out);
    } else
        out.push_back(constScalar(c));
}
static void initBytes(const Constant *c, uint8_t *dst)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cds->getRawDataValues();
        memcpy(dst, r.data(), r.size());
        return;
    }
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), dst + sl->getElementOffset(i));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement(i), dst + i * es);
        return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeAllocSize(vt->getElementType());
        for (uint64_t i = 0; i < vt->getNumElements(); i++) initBytes(c->getAggregateElement(i), dst + i * es);
        return;
    }
    u128 v = constScalar(c);
    unsigned n = (widthOf(t) + 7) / 8;
    memcpy(dst, &v, n);
}

static uint32_t allocGlobal(Interp &I, uint64_t size, bool ro)
{
    uint32_t id = I.initMem.next++;
    Obj *o = new Obj();
    o->size = size;
    o->ro = ro;
    o->data = (uint8_t *)calloc(size ? size : 1, 1);
    I.initMem.slot(id) = Ref<Obj>(o);
    return id;
}

void *decoderInit(Interp &I, const std::vector<std::string> &files, const std::vector<bool> &repo)
{
    IP = &I;
    std::set<std::string> repoFns;
    for (size_t i = 0; i < files.size(); i++) {
        SMDiagnostic err;
        auto m = parseIRFile(files[i], err, ctx);
        if (!m) {
            err.print("pfsym", errs());
            exit(3);
        }
        if (repo[i])
            for (auto &f : *m)
                if (!f.isDeclaration()) repoFns.insert(f.getName().str());
        if (!M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) {
            errs() << "pfsym: link error " << files[i] << "\n";
            exit(3);
        }
    }
    DL = &M->getDataLayout();
    // functions
    uint64_t faddr = 0x7f0000000000ull;
    for (auto &f : *M) {
        auto *nf = new ::Fn();
        nf->name = f.getName().str();
        nf->llvmFn = &f;
        nf->defined = !f.isDeclaration();
        nf->fromRepo = repoFns.count(nf->name) && nf->name.compare(0, 4, "_ZSt") && nf->name.compare(0, 5, "_ZNSt") &&
                       nf->name.compare(0, 6, "_ZNKSt") && nf->name.compare(0, 10, "_ZN9__gnu_") && nf->name.compare(0, 11, "_ZNK9__gnu_");
        nf->addr = faddr;
        faddr += 16;
        I.fns.push_back(nf);
        I.byName[nf->name] = nf;
        fmap_[&f] = nf;
        gaddr[&f] = nf->addr;
    }
    for (auto &g : M->globals()) {
        uint64_t size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64;
        if (g.isDeclaration() && size < 256) size = 256;
        uint32_t id = allocGlobal(I, size, g.isConstant());
        gaddr[&g] = addrOf(id);
        I.globals[g.getName().str()] = addrOf(id);
        I.globalNames[addrOf(id)] = g.getName().str();
    }
    for (auto &a : M->aliases()) {
        auto *o = a.getAliaseeObject();
        if (auto *f = dyn_cast_or_null<llvm::Function>(o)) {
            I.byName[a.getName().str()] = fmap_[f];
        }
    }
    for (auto &g : M->globals()) {
        if (g.isDeclaration()) continue;
        if (g.getName() == "llvm.global_ctors") {
            if (auto *ca = dyn_cast<ConstantArray>(g.getInitializer())) {
                std::vector<std::pair<uint64_t, uint64_t>> v;
                for (auto &op : ca->operands()) {
                    auto *cs = cast<ConstantStruct>(op);
                    v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), (uint64_t)constScalar(cs->getOperand(1))});
                }
                std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &p : v) I.ctors.push_back(p.second);
            }
            continue;
        }
        Obj *o = I.initMem.get(objOf(gaddr[&g]));
        if (!g.getInitializer()->isNullValue()) initBytes(g.getInitializer(), o->data);
    }
    return M.get();
}

// ---------------------------------------------------------------- function decoding
namespace
{
struct FD {
    ::Fn &F;
    llvm::Function &L;
    std::unordered_map<const Value *, int> slot;
    std::map<std::pair<u128, unsigned>, int> cp;
    std::unordered_map<const BasicBlock *, uint32_t> bstart;
    std::vector<std::pair<Edge *, std::pair<const BasicBlock *, const BasicBlock *>>> fix;
    int tmpBase = 0;

    FD(::Fn &f) : F(f), L(*(llvm::Function *)f.llvmFn) {}

    int konst(u128 v, unsigned w)
    {
        auto key = std::make_pair(v, w);
        auto it = cp.find(key);
        if (it != cp.end()) return it->second;
        F.cpool.push_back(w <= 64 ? Val((uint64_t)v) : Val());
        if (w > 64) F.cpool.back().e = mkConst(v, w);
        int r = ~(int)(F.cpool.size() - 1);
        cp[key] = r;
        return r;
    }
    // operand list for a (possibly aggregate) value
    std::vector<int> ops(const Value *v)
    {
        std::vector<int> r;
        auto it = slot.find(v);
        auto lv = leavesOf(v->getType());
        if (it != slot.end()) {
            for (size_t i = 0; i < lv.size(); i++) r.push_back(it->second + (int)i);
            return r;
        }
        if (auto *c = dyn_cast<Constant>(v)) {
            std::vector<u128> cv;
            constLeaves(c, cv);
            for (size_t i = 0; i < cv.size(); i++) r.push_back(konst(cv[i], lv[i].w));
            return r;
        }
        if (v->getType()->isMetadataTy() || isa<InlineAsm>(v)) return {konst(0, 64)};
        errs() << "pfsym: unknown operand " << *v << " in " << L.getName() << "\n";
        return {konst(0, 64)};
    }
    int op(const Value *v) { return ops(v)[0]; }
    Inst &emit(Op o)
    {
        F.code.emplace_back();
        F.code.back().op = o;
        F.code.back().line = curLine;
        return F.code.back();
    }
    int curLine = 0;

    void edge(Edge &e, const BasicBlock *from, const BasicBlock *to)
    {
        for (auto &phi : to->phis()) {
            auto src = ops(phi.getIncomingValueForBlock(from));
            int d = slot[&phi];
            for (size_t i = 0; i < src.size(); i++) e.moves.push_back({d + (int)i, src[i]});
        }
        fix.push_back({&e, {from, to}});
    }
    void callInfo(const CallBase &cb, CallInfo &ci)
    {
        const Value *cal = cb.getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
        if (auto *f = dyn_cast<llvm::Function>(cal))
            ci.fn = fmap_[f];
        else
            ci.callee = op(cal);
        unsigned i = 0;
        for (auto &a : cb.args()) {
            auto lv = leavesOf(a->getType());
            if (a->getType()->isMetadataTy()) { i++; continue; }
            auto o = ops(a);
            uint32_t bvsz = 0;
            if (cb.isByValArgument(i)) bvsz = DL->getTypeAllocSize(cb.getParamByValType(i));
            for (size_t k = 0; k < o.size(); k++) {
                ci.args.push_back(o[k]);
                ci.argw.push_back(lv[k].w);
                ci.byval.push_back(bvsz);
            }
            i++;
        }
    }

    void run()
    {
        int n = 0;
        for (auto &a : L.args()) {
            slot[&a] = n;
            n += leavesOf(a.getType()).size();
        }
        F.nargs = n;
        F.varargs = L.isVarArg();
        for (auto &bb : L)
            for (auto &in : bb)
                if (!in.getType()->isVoidTy()) {
                    size_t k = leavesOf(in.getType()).size();
                    slot[&in] = n;
                    n += k;
                }
        F.nslots = n;
        F.code.reserve(L.getInstructionCount() * 2 + 8);
        for (auto &bb : L) {
            bstart[&bb] = F.code.size();
            for (auto &in : bb) {
                if (isa<PHINode>(in)) continue;
                if (auto &dl = in.getDebugLoc()) curLine = dl.getLine();
                one(in, bb);
            }
        }
        for (auto &f : fix) f.first->target = bstart[f.second.second];
        F.decoded = true;
    }

    void one(Instruction &in, BasicBlock &bb)
    {
        int d = in.getType()->isVoidTy() ? -1 : slot[&in];
        switch (in.getOpcode()) {
        case Instruction::Ret: {
            auto &r = cast<ReturnInst>(in);
            Inst &I = emit(O_Ret);
            if (r.getReturnValue() && !r.getReturnValue()->getType()->isVoidTy()) {
                auto *v = new std::vector<int>(ops(r.getReturnValue()));
                F.code.back().x = v;
                F.code.back().n = v->size();
            }
            (void)I;
            break;
        }
        case Instruction::Br: {
            auto &b = cast<BranchInst>(in);
            auto *bi = new BrInfo();
            if (b.isConditional()) {
                int c = op(b.getCondition());
                edge(bi->t, &bb, b.getSuccessor(0));
                edge(bi->f, &bb, b.getSuccessor(1));
                Inst &I = emit(O_CondBr);
                I.a = c;
                I.x = bi;
            } else {
                edge(bi->t, &bb, b.getSuccessor(0));
                emit(O_Br).x = bi;
            }
            break;
        }
        case Instruction::Switch: {
            auto &sw = cast<SwitchInst>(in);
            auto *si = new SwitchInfo();
            si->edges.reserve(sw.getNumCases() + 1);
            si->edges.emplace_back();
            edge(si->edges.back(), &bb, sw.getDefaultDest());
            std::map<BasicBlock *, uint32_t> idx;
            for (auto &c : sw.cases()) {
                uint32_t k;
                auto it = idx.find(c.getCaseSuccessor());
                if (it == idx.end()) {
                    k = si->edges.size();
                    si->edges.emplace_back();
                    edge(si->edges.back(), &bb, c.getCaseSuccessor());
                    idx[c.getCaseSuccessor()] = k;
                } else
                    k = it->second;
                si->cases.push_back({c.getCaseValue()->getZExtValue(), k});
            }
            int c = op(sw.getCondition());
            Inst &I = emit(O_Switch);
            I.a = c;
            I.w = widthOf(sw.getCondition()->getType());
            I.x = si;
            break;
        }
        case Instruction::Call: {
            auto &cb = cast<CallInst>(in);
            if (auto *ii = dyn_cast<IntrinsicInst>(&cb)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
                case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
                case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::dbg_label:
                    if (d >= 0) { Inst &I = emit(O_Copy); I.dst = d; I.a = konst(0, 64); }
                    return;
                default: break;
                }
            }
            if (isa<InlineAsm>(cb.getCalledOperand())) {
                // empty asm used as a barrier
                Inst &I = emit(O_Nop);
                (void)I;
                return;
            }
            auto *ci = new CallInfo();
            callInfo(cb, *ci);
            if (ci->fn && !ci->fn->defined && F.cpool.size() == 0) {}
            Inst &I = emit(O_Call);
            I.dst = d;
            I.w = widthOf(in.getType());
            I.x = ci;
            break;
        }
        case Instruction::Invoke: {
            auto &iv = cast<InvokeInst>(in);
            auto *ii = new InvokeInfo();
            callInfo(iv, ii->call);
            edge(ii->normal, &bb, iv.getNormalDest());
            edge(ii->unwind, &bb, iv.getUnwindDest());
            Inst &I = emit(O_Invoke);
            I.dst = d;
            I.w = widthOf(in.getType());
            I.x = ii;
            break;
        }
        case Instruction::Resume: {
            auto o = ops(cast<ResumeInst>(in).getValue());
            Inst &I = emit(O_Resume);
            I.a = o[0];
            I.b = o[1];
            break;
        }
        case Instruction::Unreachable: emit(O_Unreachable); break;
        case Instruction::LandingPad: {
            auto &lp = cast<LandingPadInst>(in);
            auto *li = new LpInfo();
            li->cleanup = lp.isCleanup();
            for (unsigned i = 0; i < lp.getNumClauses(); i++) {
                if (lp.isCatch(i))
                    li->clauses.push_back({true, false, op(lp.getClause(i))});
                else
                    li->clauses.push_back({false, true, 0});
            }
            Inst &I = emit(O_LandingPad);
            I.dst = d;
            I.x = li;
            break;
        }
        case Instruction::FNeg: {
            auto o = ops(in.getOperand(0));
            auto lv = leavesOf(in.getType());
            for (size_t i = 0; i < lv.size(); i++) {
                Inst &I = emit(O_FNeg);
                I.dst = d + i;
                I.a = o[i];
                I.w = lv[i].w;
            }
            break;
        }
        case Instruction::Alloca: {
            auto &al = cast<AllocaInst>(in);
            uint64_t sz = DL->getTypeAllocSize(al.getAllocatedType());
            Inst &I = emit(O_Alloca);
            I.dst = d;
            I.imm = sz;
            int c = konst(1, 64);
            if (al.isArrayAllocation()) c = op(al.getArraySize());
            F.code.back().a = c;
            break;
        }
        case Instruction::Load: {
            auto &l = cast<LoadInst>(in);
            auto lv = leavesOf(l.getType());
            int p = op(l.getPointerOperand());
            if (lv.size() == 1) {
                Inst &I = emit(O_Load);
                I.dst = d;
                I.a = p;
                I.w = lv[0].w;
            } else {
                auto *ai = new AggInfo{lv};
                Inst &I = emit(O_LoadAgg);
                I.dst = d;
                I.a = p;
                I.x = ai;
            }
            break;
        }
        case Instruction::Store: {
            auto &st = cast<StoreInst>(in);
            auto lv = leavesOf(st.getValueOperand()->getType());
            auto o = ops(st.getValueOperand());
            int p = op(st.getPointerOperand());
            for (size_t i = 0; i < lv.size(); i++) {
                Inst &I = emit(O_Store);
                I.a = p;
                I.b = o[i];
                I.w = lv[i].w;
                I.imm = lv[i].off;
            }
            break;
        }
        case Instruction::GetElementPtr: {
            auto &g = cast<GetElementPtrInst>(in);
            if (g.getType()->isVectorTy()) { emit(O_Unsupported).x = new std::string("vector gep"); break; }
            auto *gi = new GepInfo();
            int64_t off = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value *idx = it.getOperand();
                if (StructType *st = it.getStructTypeOrNull()) {
                    off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                } else {
                    int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(idx))
                        off += ci->getSExtValue() * sc;
                    else
                        gi->terms.push_back({op(idx), (uint16_t)widthOf(idx->getType()), sc});
                }
            }
            int p = op(g.getPointerOperand());
            Inst &I = emit(O_Gep);
            I.dst = d;
            I.a = p;
            I.imm = off;
            I.n = gi->terms.size();
            I.x = gi;
            break;
        }
        case Instruction::ICmp: case Instruction::FCmp: {
            auto a = ops(in.getOperand(0)), b = ops(in.getOperand(1));
            auto lv = leavesOf(in.getOperand(0)->getType());
            for (size_t i = 0; i < lv.size(); i++) {
                Inst &I = emit(in.getOpcode() == Instruction::ICmp ? O_ICmp : O_FCmp);
                I.dst = d + i;
                I.a = a[i];
                I.b = b[i];
                I.w = lv[i].w;
                unsigned p = cast<CmpInst>(in).getPredicate();
                if (in.getOpcode() == Instruction::ICmp) {
                    switch (p) {
                    case CmpInst::ICMP_EQ: p = 0; break;
                    case CmpInst::ICMP_NE: p = 1; break;
                    case CmpInst::ICMP_ULT: p = 2; break;
                    case CmpInst::ICMP_ULE: p = 3; break;
                    case CmpInst::ICMP_UGT: p = 4; break;
                    case CmpInst::ICMP_UGE: p = 5; break;
                    case CmpInst::ICMP_SLT: p = 6; break;
                    case CmpInst::ICMP_SLE: p = 7; break;
                    case CmpInst::ICMP_SGT: p = 8; break;
                    default: p = 9; break;
                    }
                }
                I.sub = p;
            }
            break;
        }
        case Instruction::Select: {
            auto c = ops(in.getOperand(0)), a = ops(in.getOperand(1)), b = ops(in.getOperand(2));
            auto lv = leavesOf(in.getType());
            for (size_t i = 0; i < lv.size(); i++) {
                Inst &I = emit(O_Select);
                I.dst = d + i;
                I.c = c.size() > 1 ? c[i] : c[0];
                I.a = a[i];
                I.b = b[i];
                I.w = lv[i].w;
                I.sub = lv[i].ptr;
            }
            break;
        }
        case Instruction::ExtractValue: {
            auto &ev = cast<ExtractValueInst>(in);
            auto o = ops(ev.getAggregateOperand());
            size_t idx = leafIndex(ev.getAggregateOperand()->getType(), ev.getIndices());
            copyN(d, std::vector<int>(o.begin() + idx, o.begin() + idx + leavesOf(in.getType()).size()));
            break;
        }
        case Instruction::InsertValue: {
            auto &iv = cast<InsertValueInst>(in);
            auto o = ops(iv.getAggregateOperand());
            auto v = ops(iv.getInsertedValueOperand());
            size_t idx = leafIndex(iv.getType(), iv.getIndices());
            for (size_t i = 0; i < v.size(); i++) o[idx + i] = v[i];
            copyN(d, o);
            break;
        }
        case Instruction::ExtractElement: {
            auto o = ops(in.getOperand(0));
            if (auto *ci = dyn_cast<ConstantInt>(in.getOperand(1)))
                copyN(d, {o[ci->getZExtValue()]});
            else
                emit(O_Unsupported).x = new std::string("extractelement variable");
            break;
        }
        case Instruction::InsertElement: {
            auto o = ops(in.getOperand(0));
            if (auto *ci = dyn_cast<ConstantInt>(in.getOperand(2))) {
                o[ci->getZExtValue()] = op(in.getOperand(1));
                copyN(d, o);
            } else
                emit(O_Unsupported).x = new std::string("insertelement variable");
            break;
        }
        case Instruction::ShuffleVector: {
            auto &sv = cast<ShuffleVectorInst>(in);
            auto a = ops(sv.getOperand(0)), b = ops(sv.getOperand(1));
            std::vector<int> r;
            for (int m : sv.getShuffleMask()) r.push_back(m < 0 ? a[0] : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
            copyN(d, r);
            break;
        }
        case Instruction::Freeze: copyN(d, ops(in.getOperand(0))); break;
        case Instruction::AtomicRMW: {
            auto &ar = cast<AtomicRMWInst>(in);
            int p = op(ar.getPointerOperand()), v = op(ar.getValOperand());
            Inst &I = emit(O_AtomicRMW);
            I.dst = d;
            I.a = p;
            I.b = v;
            I.w = widthOf(in.getType());
            I.sub = ar.getOperation();
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto &cx = cast<AtomicCmpXchgInst>(in);
            int p = op(cx.getPointerOperand()), c = op(cx.getCompareOperand()), n = op(cx.getNewValOperand());
            Inst &I = emit(O_CmpXchg);
            I.dst = d;
            I.a = p;
            I.b = c;
            I.c = n;
            I.w = widthOf(cx.getCompareOperand()->getType());
            break;
        }
        case Instruction::Fence: emit(O_Nop); break;
        case Instruction::BitCast: {
            auto la = leavesOf(in.getOperand(0)->getType()), lb = leavesOf(in.getType());
            if (la.size() == lb.size()) { copyN(d, ops(in.getOperand(0))); break; }
            emit(O_Unsupported).x = new std::string("vector bitcast");
            break;
        }
        default:
            if (in.isBinaryOp()) {
                auto a = ops(in.getOperand(0)), b = ops(in.getOperand(1));
                auto lv = leavesOf(in.getType());
                for (size_t i = 0; i < lv.size(); i++) {
                    bool fpop = in.getType()->getScalarType()->isFloatingPointTy();
                    Inst &I = emit(fpop ? O_FBin : O_Bin);
                    I.dst = d + i;
                    I.a = a[i];
                    I.b = b[i];
                    I.w = lv[i].w;
                    switch (in.getOpcode()) {
                    case Instruction::Add: I.sub = B_Add; break;
                    case Instruction::Sub: I.sub = B_Sub; break;
                    case Instruction::Mul: I.sub = B_Mul; break;
                    case Instruction::UDiv: I.sub = B_UDiv; break;
                    case Instruction::SDiv: I.sub = B_SDiv; break;
                    case Instruction::URem: I.sub = B_URem; break;
                    case Instruction::SRem: I.sub = B_SRem; break;
                    case Instruction::And: I.sub = B_And; break;
                    case Instruction::Or: I.sub = B_Or; break;
                    case Instruction::Xor: I.sub = B_Xor; break;
                    case Instruction::Shl: I.sub = B_Shl; break;
                    case Instruction::LShr: I.sub = B_LShr; break;
                    case Instruction::AShr: I.sub = B_AShr; break;
                    case Instruction::FAdd: I.sub = (int)K::FAdd; break;
                    case Instruction::FSub: I.sub = (int)K::FSub; break;
                    case Instruction::FMul: I.sub = (int)K::FMul; break;
                    case Instruction::FDiv: I.sub = (int)K::FDiv; break;
                    case Instruction::FRem: I.sub = (int)K::FRem; break;
                    }
                }
                break;
            }
            if (in.isCast()) {
                auto a = ops(in.getOperand(0));
                auto la = leavesOf(in.getOperand(0)->getType()), lb = leavesOf(in.getType());
                for (size_t i = 0; i < lb.size(); i++) {
                    Op o;
                    switch (in.getOpcode()) {
                    case Instruction::Trunc: o = O_Trunc; break;
                    case Instruction::ZExt: o = O_ZExt; break;
                    case Instruction::SExt: o = O_SExt; break;
                    case Instruction::FPTrunc: o = O_FPTrunc; break;
                    case Instruction::FPExt: o = O_FPExt; break;
                    case Instruction::FPToSI: o = O_FToS; break;
                    case Instruction::FPToUI: o = O_FToU; break;
                    case Instruction::SIToFP: o = O_SToF; break;
                    case Instruction::UIToFP: o = O_UToF; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr:
                        o = la[i].w == lb[i].w ? O_Copy : la[i].w > lb[i].w ? O_Trunc : O_ZExt;
                        break;
                    default: o = O_Copy; break;
                    }
                    if (la[i].w == 80 || lb[i].w == 80) { emit(O_Unsupported).x = new std::string("x86_fp80"); continue; }
                    Inst &I = emit(o);
                    I.dst = d + i;
                    I.a = a[i];
                    I.w = lb[i].w;
                    I.w2 = la[i].w;
                }
                break;
            }
            {
                std::string s;
                raw_string_ostream os(s);
                os << in;
                emit(O_Unsupported).x = new std::string(s);
            }
        }
    }
    size_t leafIndex(Type *t, ArrayRef<unsigned> idx)
    {
        size_t n = 0;
        for (unsigned i : idx) {
            if (auto *st = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; k++) n += leavesOf(st->getElementType(k)).size();
                t = st->getElementType(i);
            } else {
                auto *at = cast<ArrayType>(t);
                n += i * leavesOf(at->getElementType()).size();
                t = at->getElementType();
            }
        }
        return n;
    }
    void copyN(int d, const std::vector<int> &src)
    {
        for (size_t i = 0; i < src.size(); i++) {
            Inst &I = emit(O_Copy);
            I.dst = d + i;
            I.a = src[i];
        }
    }
};
} // namespace

void Interp::decode(::Fn *f)
{
    FD fd(*f);
    fd.run();
}
