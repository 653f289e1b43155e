// SxPass: LLVM pass that turns compiled code into a symbolic executor.
//
// Every SSA value of integer / floating point type gets a shadow "Expr*"
// (null = concrete). Every operation calls the runtime (engine/runtime.cpp),
// which builds an expression DAG; conditional branches, switches and address
// computations on symbolic values call the runtime, which forks the process.
#include "llvm/IR/CFG.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

enum Ty : int { KInt = 0, KFloat = 1 };

struct Sx
{
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    Type *I1, *I8, *I32, *I64, *Void;
    PointerType* Ptr;
    GlobalVariable *gArgs, *gTarget, *gRet;
    FunctionCallee fBin, fUn, fCmp, fCast, fSelect, fBranch, fConc, fLoad, fStore, fMemcpy, fMemset, fClear, fCall,
        fEnter, fBad, fBytes, fNative, fAccess;
    static constexpr int maxArgs = 96;

    Sx(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout())
    {
        I1   = Type::getInt1Ty(C);
        I8   = Type::getInt8Ty(C);
        I32  = Type::getInt32Ty(C);
        I64  = Type::getInt64Ty(C);
        Void = Type::getVoidTy(C);
        Ptr  = PointerType::get(C, 0);
        auto* arrTy = ArrayType::get(Ptr, maxArgs);
        auto ext = [&](const char* n, Type* t) {
            return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        };
        gArgs   = ext("__sx_args", arrTy);
        gTarget = ext("__sx_target", Ptr);
        gRet    = ext("__sx_rets", arrTy);
        fBin    = fn("__sx_bin", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
        fUn     = fn("__sx_un", Ptr, {I32, I32, Ptr, I64});
        fCmp    = fn("__sx_cmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
        fCast   = fn("__sx_cast", Ptr, {I32, I32, I32, Ptr, I64});
        fSelect = fn("__sx_select", Ptr, {Ptr, I1, I32, Ptr, I64, Ptr, I64});
        fBranch = fn("__sx_branch", I1, {Ptr, I1, I32});
        fConc   = fn("__sx_conc", I64, {Ptr, I32, I64});
        fLoad   = fn("__sx_load", Ptr, {Ptr, I32});
        fStore  = fn("__sx_store", Void, {Ptr, I32, Ptr, I64});
        fMemcpy = fn("__sx_memcpy", Void, {Ptr, Ptr, I64});
        fMemset = fn("__sx_memset", Void, {Ptr, Ptr, I64});
        fClear  = fn("__sx_clear", Void, {Ptr, I64});
        fCall   = fn("__sx_math", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
        fEnter  = fn("__sx_enter", Void, {I32});
        fBad    = fn("__sx_bad", Void, {Ptr, Ptr});
        fBytes  = fn("__sx_concat", Ptr, {Ptr, I32, Ptr, I64, Ptr, I64});
        fNative = fn("__sx_check_mem", Void, {Ptr, I64, Ptr});
        fAccess = fn("__sx_access", Void, {Ptr, I64, I32});
    }

    FunctionCallee fn(StringRef n, Type* r, std::vector<Type*> a)
    {
        auto f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        if (auto* F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
        return f;
    }

    // ---- shadow types -------------------------------------------------
    Type* sh(Type* t)
    {
        if (auto* v = dyn_cast<FixedVectorType>(t)) return ArrayType::get(Ptr, v->getNumElements());
        if (auto* s = dyn_cast<StructType>(t))
        {
            std::vector<Type*> e;
            for (auto* x : s->elements()) e.push_back(sh(x));
            return StructType::get(C, e);
        }
        if (auto* a = dyn_cast<ArrayType>(t)) return ArrayType::get(sh(a->getElementType()), a->getNumElements());
        return Ptr;
    }
    static bool leaf(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
        return t->isFloatTy() || t->isDoubleTy();
    }
    int ty(Type* t)
    {
        if (t->isFloatTy()) return (KFloat << 8) | 32;
        if (t->isDoubleTy()) return (KFloat << 8) | 64;
        return (KInt << 8) | t->getIntegerBitWidth();
    }
    Value* c32(int v) { return ConstantInt::get(I32, v); }
    Value* c64(uint64_t v) { return ConstantInt::get(I64, v); }
    Value* null() { return ConstantPointerNull::get(Ptr); }

    Value* bits(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64)
            return t->getIntegerBitWidth() == 64 ? v : B.CreateZExt(v, I64);
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        return c64(0);
    }
    StringMap<Constant*> strs;
    Constant* str(StringRef s)
    {
        auto& c = strs[s];
        if (!c)
        {
            IRBuilder<> B(C);
            auto* a = ConstantDataArray::getString(C, s);
            auto* g = new GlobalVariable(M, a->getType(), true, GlobalValue::PrivateLinkage, a);
            c       = g;
        }
        return c;
    }

    // ---- per function --------------------------------------------------
    DenseMap<Value*, Value*> S;
    std::vector<std::pair<PHINode*, PHINode*>> phis;

    bool allNull(Value* s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }

    Value* get(Value* v)
    {
        auto it = S.find(v);
        if (it != S.end()) return it->second;
        return Constant::getNullValue(sh(v->getType()));
    }
    void set(Value* v, Value* s) { S[v] = s; }

    // leaves of a shadowed type: (path indices, leaf type, byte offset)
    struct Leaf
    {
        SmallVector<unsigned, 4> idx;
        Type* t;
        uint64_t off;
        bool vec; // last index addresses a vector lane
    };
    void leaves(Type* t, uint64_t off, SmallVector<unsigned, 4> idx, std::vector<Leaf>& out)
    {
        if (auto* v = dyn_cast<FixedVectorType>(t))
        {
            uint64_t es = DL.getTypeSizeInBits(v->getElementType()) / 8;
            for (unsigned i = 0; i < v->getNumElements(); ++i)
            {
                auto j = idx;
                j.push_back(i);
                if (leaf(v->getElementType())) out.push_back({j, v->getElementType(), off + i * es, true});
            }
        }
        else if (auto* s = dyn_cast<StructType>(t))
        {
            auto* L = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i)
            {
                auto j = idx;
                j.push_back(i);
                leaves(s->getElementType(i), off + L->getElementOffset(i), j, out);
            }
        }
        else if (auto* a = dyn_cast<ArrayType>(t))
        {
            uint64_t es = DL.getTypeAllocSize(a->getElementType());
            for (unsigned i = 0; i < a->getNumElements(); ++i)
            {
                auto j = idx;
                j.push_back(i);
                leaves(a->getElementType(), off + i * es, j, out);
            }
        }
        else if (leaf(t))
            out.push_back({idx, t, off, false});
    }
    Value* leafVal(IRBuilder<>& B, Value* v, const Leaf& l)
    {
        if (l.idx.empty()) return v;
        if (!l.vec) return B.CreateExtractValue(v, l.idx);
        auto idx = l.idx;
        unsigned lane = idx.pop_back_val();
        if (!idx.empty()) v = B.CreateExtractValue(v, idx);
        return B.CreateExtractElement(v, (uint64_t)lane);
    }
    Value* leafSh(IRBuilder<>& B, Value* s, const Leaf& l)
    {
        if (l.idx.empty()) return s;
        if (isa<Constant>(s)) return null();
        return B.CreateExtractValue(s, l.idx);
    }
    Value* setLeaf(IRBuilder<>& B, Value* agg, const Leaf& l, Value* s)
    {
        if (l.idx.empty()) return s;
        return B.CreateInsertValue(agg, s, l.idx);
    }
    std::vector<Leaf> leavesOf(Type* t)
    {
        std::vector<Leaf> o;
        if (t->isSized()) leaves(t, 0, {}, o);
        return o;
    }

    Value* argSlot(IRBuilder<>& B, GlobalVariable* g, unsigned i)
    {
        return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i);
    }

    std::vector<Function*> fns;
    int nextId = 0;
    std::vector<std::pair<std::string, std::string>> names;

    void bad(IRBuilder<>& B, Value* s, StringRef what)
    {
        if (!allNull(s)) B.CreateCall(fBad, {s, str(what)});
    }
    void badAll(IRBuilder<>& B, Value* v, StringRef what)
    {
        Value* s = get(v);
        if (allNull(s)) return;
        for (auto& l : leavesOf(v->getType())) bad(B, leafSh(B, s, l), what);
    }
    // operand replaced by its concretised value
    void concretizeOp(Instruction* I, unsigned op)
    {
        Value* v = I->getOperand(op);
        Type* t  = v->getType();
        if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64) return;
        Value* s = get(v);
        if (allNull(s)) return;
        IRBuilder<> B(I);
        Value* c = B.CreateCall(fConc, {s, c32(ty(t)), bits(B, v)});
        I->setOperand(op, B.CreateTrunc(c, t));
    }

    static int mathId(StringRef n)
    {
        static const StringMap<int> m = {
            {"sqrtf", 1}, {"sqrt", 1}, {"fabsf", 2}, {"fabs", 2}, {"fminf", 3}, {"fmin", 3}, {"fmaxf", 4},
            {"fmax", 4}, {"sinf", 5}, {"sin", 5}, {"cosf", 6}, {"cos", 6}, {"tanf", 7}, {"tan", 7},
            {"copysignf", 8}, {"copysign", 8}, {"floorf", 9}, {"floor", 9}, {"ceilf", 10}, {"ceil", 10},
            {"roundf", 11}, {"round", 11}, {"truncf", 12}, {"trunc", 12}, {"atan2f", 13}, {"atan2", 13},
            {"powf", 14}, {"pow", 14}, {"hypotf", 15}, {"hypot", 15}, {"fmodf", 16}, {"fmod", 16},
            {"rintf", 17}, {"nearbyintf", 17}, {"acosf", 18}, {"asinf", 19}, {"atanf", 20}, {"expf", 21}, {"logf", 22},
        };
        auto it = m.find(n);
        return it == m.end() ? 0 : it->second;
    }
    static int intrinId(Intrinsic::ID id)
    {
        switch (id)
        {
        case Intrinsic::sqrt: return 1;
        case Intrinsic::fabs: return 2;
        case Intrinsic::minnum: return 3;
        case Intrinsic::maxnum: return 4;
        case Intrinsic::minimum: return 3;
        case Intrinsic::maximum: return 4;
        case Intrinsic::sin: return 5;
        case Intrinsic::cos: return 6;
        case Intrinsic::copysign: return 8;
        case Intrinsic::floor: return 9;
        case Intrinsic::ceil: return 10;
        case Intrinsic::round: return 11;
        case Intrinsic::trunc: return 12;
        case Intrinsic::pow: return 14;
        case Intrinsic::rint: return 17;
        case Intrinsic::nearbyint: return 17;
        case Intrinsic::smax: return 40;
        case Intrinsic::smin: return 41;
        case Intrinsic::umax: return 42;
        case Intrinsic::umin: return 43;
        case Intrinsic::abs: return 44;
        default: return 0;
        }
    }

    void run()
    {
        for (auto& F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__sx_")
                && !F.hasFnAttribute("sx_native") && !F.hasAvailableExternallyLinkage())
                fns.push_back(&F);
            else if (F.hasAvailableExternallyLinkage() && !F.isDeclaration())
            {
                F.deleteBody();
            }
        // instrumented code has side effects on the shadow state
        for (auto* F : fns)
        {
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::Speculatable);
            for (auto k : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoSync, Attribute::NoFree,
                           Attribute::WillReturn, Attribute::NoRecurse})
                F->removeFnAttr(k);
        }
        for (auto* F : fns)
            for (auto& I : instructions(*F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                {
                    auto* c = CB->getCalledFunction();
                    if (c && c->isIntrinsic()) continue;
                    CB->removeFnAttr(Attribute::Memory);
                }
        for (auto* F : fns) instrument(*F);

        // function name table
        std::vector<Constant*> rows;
        for (auto& n : names) rows.push_back(str(n.first));
        auto* at = ArrayType::get(Ptr, rows.size());
        new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, rows), "__sx_fn_names");
        new GlobalVariable(M, I32, true, GlobalValue::ExternalLinkage, ConstantInt::get(I32, rows.size()),
                           "__sx_fn_count");
    }

    void instrument(Function& F)
    {
        // tail call markers can not stay once we read results afterwards
        S.clear();
        phis.clear();
        std::vector<Instruction*> work;
        ReversePostOrderTraversal<Function*> rpo(&F);
        std::vector<BasicBlock*> blocks(rpo.begin(), rpo.end());
        std::set<BasicBlock*> reach(blocks.begin(), blocks.end());
        // remove unreachable blocks so that phi handling stays simple
        removeUnreachable(F);
        for (auto* b : blocks)
            for (auto& I : *b) work.push_back(&I);

        // entry: read shadows of arguments
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            Value* tgt = B.CreateLoad(Ptr, gTarget);
            Value* ok  = B.CreateICmpEQ(tgt, &F);
            B.CreateStore(null(), gTarget);
            unsigned slot = 0;
            for (auto& A : F.args())
            {
                if (A.hasByValAttr())
                {
                    if (slot >= maxArgs) break;
                    Value* src = B.CreateSelect(ok, B.CreateLoad(Ptr, argSlot(B, gArgs, slot++)), null());
                    B.CreateCall(fMemcpy, {&A, src, c64(DL.getTypeAllocSize(A.getParamByValType()))});
                    continue;
                }
                auto ls = leavesOf(A.getType());
                if (ls.empty()) continue;
                Value* s = Constant::getNullValue(sh(A.getType()));
                for (auto& l : ls)
                {
                    if (slot >= maxArgs) break;
                    Value* v = B.CreateSelect(ok, B.CreateLoad(Ptr, argSlot(B, gArgs, slot++)), null());
                    s        = setLeaf(B, s, l, v);
                }
                set(&A, s);
            }
            std::string file;
            if (auto* sp = F.getSubprogram()) file = sp->getFilename().str();
            int id = nextId++;
            // functions of the code under test whose code (inlined or not) lives in F
            std::set<std::string> src;
            auto addSp = [&](DISubprogram* sp) {
                if (!sp) return;
                std::string fl = sp->getFilename().str();
                auto pos       = fl.find("/Simu/");
                if (pos == std::string::npos) return;
                StringRef n = sp->getLinkageName();
                src.insert((n.empty() ? sp->getName() : n).str());
            };
            addSp(F.getSubprogram());
            for (auto* I : work)
                for (DILocation* d = I->getDebugLoc().get(); d; d = d->getInlinedAt())
                    addSp(d->getScope()->getSubprogram());
            std::string all;
            for (auto& x : src) all += x + ";";
            names.push_back({all, file});
            B.CreateCall(fEnter, {c32(id)});
        }

        for (auto* b : blocks)
            for (auto& P : b->phis())
            {
                if (isa<PHINode>(&P) && !leavesOf(P.getType()).empty())
                {
                    // only original phis are in `work`
                }
            }
        std::vector<PHINode*> orig;
        for (auto* I : work)
            if (auto* P = dyn_cast<PHINode>(I))
                if (!leavesOf(P->getType()).empty()) orig.push_back(P);
        for (auto* P : orig)
        {
            auto* np = PHINode::Create(sh(P->getType()), P->getNumIncomingValues(), "sx.phi", P);
            set(P, np);
            phis.push_back({P, np});
        }
        for (auto* I : work) visit(I);
        for (auto& [P, np] : phis)
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                np->addIncoming(get(P->getIncomingValue(i)), P->getIncomingBlock(i));
    }

    void removeUnreachable(Function& F) { EliminateUnreachableBlocks(F); }

    Instruction* after(Instruction* I)
    {
        if (auto* inv = dyn_cast<InvokeInst>(I))
        {
            // a dedicated block on the normal edge
            BasicBlock* nd = inv->getNormalDest();
            BasicBlock* nb = BasicBlock::Create(C, "sx.cont", I->getFunction(), nd);
            BranchInst::Create(nd, nb);
            inv->setNormalDest(nb);
            for (auto& P : nd->phis())
                for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
                    if (P.getIncomingBlock(i) == I->getParent()) P.setIncomingBlock(i, nb);
            return nb->getTerminator();
        }
        return I->getNextNode();
    }

    using Lane = std::function<Value*(IRBuilder<>&, int lane)>;

    Value* laneVal(IRBuilder<>& B, Value* v, int lane)
    {
        return v->getType()->isVectorTy() ? B.CreateExtractElement(v, (uint64_t)lane) : v;
    }
    Value* laneSh(IRBuilder<>& B, Value* v, int lane)
    {
        Value* s = get(v);
        if (!v->getType()->isVectorTy()) return s;
        if (isa<Constant>(s)) return null();
        return B.CreateExtractValue(s, lane);
    }
    // applies f to each lane (or once)
    void perLane(Instruction* I, IRBuilder<>& B, Lane f)
    {
        Type* t = I->getType();
        if (auto* v = dyn_cast<FixedVectorType>(t))
        {
            Value* s = Constant::getNullValue(sh(t));
            for (unsigned i = 0; i < v->getNumElements(); ++i) s = B.CreateInsertValue(s, f(B, i), i);
            set(I, s);
        }
        else
            set(I, f(B, 0));
    }
    bool anySh(Instruction* I)
    {
        for (auto& o : I->operands())
            if (!allNull(get(o))) return true;
        return false;
    }

    void visit(Instruction* I)
    {
        if (isa<PHINode>(I) || isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I)) return;
        Type* t = I->getType();
        if (auto* a = dyn_cast<AllocaInst>(I))
        {
            concretizeOp(a, 0);
            IRBuilder<> B(I->getNextNode());
            Value* sz = c64(DL.getTypeAllocSize(a->getAllocatedType()));
            if (a->isArrayAllocation())
                sz = B.CreateMul(sz, B.CreateZExtOrTrunc(a->getArraySize(), I64));
            B.CreateCall(fClear, {a, sz});
            return;
        }
        if (auto* L = dyn_cast<LoadInst>(I))
        {
            access(I, L->getPointerOperand(), c64(DL.getTypeStoreSize(t)), 0);
            auto ls = leavesOf(t);
            if (ls.empty()) return;
            IRBuilder<> B(I); // before the load is fine: address is concrete
            Value* s = Constant::getNullValue(sh(t));
            for (auto& l : ls)
            {
                Value* p = l.off ? B.CreateConstGEP1_64(I8, L->getPointerOperand(), l.off) : L->getPointerOperand();
                s        = setLeaf(B, s, l, B.CreateCall(fLoad, {p, c32(ty(l.t))}));
            }
            set(I, s);
            return;
        }
        if (auto* St = dyn_cast<StoreInst>(I))
        {
            Value* v = St->getValueOperand();
            Value* p = St->getPointerOperand();
            access(I, p, c64(DL.getTypeStoreSize(v->getType())), 1);
            IRBuilder<> B(I->getNextNode());
            Value* s = get(v);
            if (allNull(s))
            {
                B.CreateCall(fClear, {p, c64(DL.getTypeStoreSize(v->getType()))});
                return;
            }
            if (v->getType()->isAggregateType() )
                B.CreateCall(fClear, {p, c64(DL.getTypeStoreSize(v->getType()))});
            for (auto& l : leavesOf(v->getType()))
            {
                Value* q = l.off ? B.CreateConstGEP1_64(I8, p, l.off) : p;
                B.CreateCall(fStore, {q, c32(ty(l.t)), leafSh(B, s, l), bits(B, leafVal(B, v, l))});
            }
            return;
        }
        if (auto* G = dyn_cast<GetElementPtrInst>(I))
        {
            for (unsigned i = 1; i < G->getNumOperands(); ++i) concretizeOp(G, i);
            return;
        }
        if (auto* Br = dyn_cast<BranchInst>(I))
        {
            if (!Br->isConditional()) return;
            Value* s = get(Br->getCondition());
            if (allNull(s)) return;
            IRBuilder<> B(I);
            Value* d = B.CreateCall(fBranch, {s, Br->getCondition(), lineOf(I)});
            Br->setCondition(d);
            return;
        }
        if (isa<SwitchInst>(I))
        {
            concretizeOp(I, 0);
            return;
        }
        if (auto* R = dyn_cast<ReturnInst>(I))
        {
            Value* v = R->getReturnValue();
            if (!v) return;
            IRBuilder<> B(I);
            if (auto* CI = dyn_cast_or_null<CallInst>(I->getPrevNode()); CI && CI->isMustTailCall())
                report_fatal_error("musttail unsupported");
            Value* s      = get(v);
            unsigned slot = 0;
            for (auto& l : leavesOf(v->getType()))
                if (slot < maxArgs) B.CreateStore(leafSh(B, s, l), argSlot(B, gRet, slot++));
            return;
        }
        if (isa<CallBase>(I))
        {
            visitCall(cast<CallBase>(I));
            return;
        }
        if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I))
        {
            IRBuilder<> B(I->getNextNode());
            Value* p = I->getOperand(0);
            B.CreateCall(fClear, {p, c64(DL.getTypeStoreSize(I->getOperand(1)->getType()))});
            return;
        }
        // pure value operations
        if (!anySh(I)) return;
        IRBuilder<> B(I->getNextNode());
        if (auto* b = dyn_cast<BinaryOperator>(I))
        {
            Type* st = t->getScalarType();
            if (!leaf(st)) { IRBuilder<> B2(I); badAll(B2, b->getOperand(0), "wide binop"); badAll(B2, b->getOperand(1), "wide binop"); return; }
            perLane(I, B, [&](IRBuilder<>& B, int i) -> Value* {
                return B.CreateCall(fBin, {c32(b->getOpcode()), c32(ty(st)), laneSh(B, b->getOperand(0), i),
                                           bits(B, laneVal(B, b->getOperand(0), i)), laneSh(B, b->getOperand(1), i),
                                           bits(B, laneVal(B, b->getOperand(1), i))});
            });
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(I))
        {
            Type* st = t->getScalarType();
            perLane(I, B, [&](IRBuilder<>& B, int i) -> Value* {
                return B.CreateCall(fUn, {c32(u->getOpcode()), c32(ty(st)), laneSh(B, u->getOperand(0), i),
                                          bits(B, laneVal(B, u->getOperand(0), i))});
            });
            return;
        }
        if (auto* c = dyn_cast<CmpInst>(I))
        {
            Type* ot = c->getOperand(0)->getType()->getScalarType();
            if (!leaf(ot)) return; // pointers
            perLane(I, B, [&](IRBuilder<>& B, int i) -> Value* {
                return B.CreateCall(fCmp, {c32(c->getPredicate()), c32(ty(ot)), laneSh(B, c->getOperand(0), i),
                                           bits(B, laneVal(B, c->getOperand(0), i)), laneSh(B, c->getOperand(1), i),
                                           bits(B, laneVal(B, c->getOperand(1), i))});
            });
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(I))
        {
            Value* cond = s->getCondition();
            if (!t->isVectorTy() && !leaf(t))
            {
                // pointer or aggregate select: decide the condition
                Value* cs = get(cond);
                if (!allNull(cs))
                {
                    IRBuilder<> B2(I);
                    Value* d = B2.CreateCall(fBranch, {cs, cond, lineOf(I)});
                    s->setCondition(d);
                    cond = d;
                }
                if (!leavesOf(t).empty())
                    set(I, B.CreateSelect(cond, get(s->getTrueValue()), get(s->getFalseValue())));
                return;
            }
            if (t->isVectorTy() && !leaf(t->getScalarType())) return;
            perLane(I, B, [&](IRBuilder<>& B, int i) -> Value* {
                return B.CreateCall(
                    fSelect, {laneSh(B, cond, i), laneVal(B, cond, i), c32(ty(t->getScalarType())),
                              laneSh(B, s->getTrueValue(), i), bits(B, laneVal(B, s->getTrueValue(), i)),
                              laneSh(B, s->getFalseValue(), i), bits(B, laneVal(B, s->getFalseValue(), i))});
            });
            return;
        }
        if (auto* f = dyn_cast<FreezeInst>(I))
        {
            set(I, get(f->getOperand(0)));
            return;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(I))
        {
            Value* s = get(e->getAggregateOperand());
            set(I, isa<Constant>(s) ? Constant::getNullValue(sh(t)) : B.CreateExtractValue(s, e->getIndices()));
            return;
        }
        if (auto* e = dyn_cast<InsertValueInst>(I))
        {
            set(I, B.CreateInsertValue(get(e->getAggregateOperand()), get(e->getInsertedValueOperand()),
                                       e->getIndices()));
            return;
        }
        if (auto* e = dyn_cast<ExtractElementInst>(I))
        {
            concretizeOp(I, 1);
            if (auto* k = dyn_cast<ConstantInt>(e->getIndexOperand()))
                set(I, laneSh(B, e->getVectorOperand(), k->getZExtValue()));
            else
                bad(B, Constant::getNullValue(Ptr), ""), badAll(B, e->getVectorOperand(), "dynamic extractelement");
            return;
        }
        if (auto* e = dyn_cast<InsertElementInst>(I))
        {
            if (auto* k = dyn_cast<ConstantInt>(e->getOperand(2)))
                set(I, B.CreateInsertValue(get(e->getOperand(0)), get(e->getOperand(1)), k->getZExtValue()));
            else
            {
                badAll(B, e->getOperand(0), "dynamic insertelement");
                badAll(B, e->getOperand(1), "dynamic insertelement");
            }
            return;
        }
        if (auto* e = dyn_cast<ShuffleVectorInst>(I))
        {
            unsigned n = cast<FixedVectorType>(e->getOperand(0)->getType())->getNumElements();
            Value* s   = Constant::getNullValue(sh(t));
            auto mask  = e->getShuffleMask();
            for (unsigned i = 0; i < mask.size(); ++i)
            {
                if (mask[i] < 0) continue;
                Value* src = (unsigned)mask[i] < n ? e->getOperand(0) : e->getOperand(1);
                s          = B.CreateInsertValue(s, laneSh(B, src, mask[i] % n), i);
            }
            set(I, s);
            return;
        }
        if (auto* c = dyn_cast<CastInst>(I))
        {
            Type* ft = c->getOperand(0)->getType();
            if (c->getOpcode() == Instruction::IntToPtr)
            {
                concretizeOp(I, 0);
                return;
            }
            if (c->getOpcode() == Instruction::PtrToInt) return;
            if (c->getOpcode() == Instruction::BitCast && (ft->isVectorTy() || t->isVectorTy()))
            {
                bitcast(c, B);
                return;
            }
            Type* fs = ft->getScalarType();
            Type* ts = t->getScalarType();
            if (!leaf(fs) || !leaf(ts))
            {
                badAll(B, c->getOperand(0), "cast of wide type");
                return;
            }
            perLane(I, B, [&](IRBuilder<>& B, int i) -> Value* {
                return B.CreateCall(fCast, {c32(c->getOpcode()), c32(ty(fs)), c32(ty(ts)),
                                            laneSh(B, c->getOperand(0), i), bits(B, laneVal(B, c->getOperand(0), i))});
            });
            return;
        }
        for (auto& o : I->operands()) badAll(B, o, std::string("instruction ") + I->getOpcodeName());
    }

    // memory-safety monitor; stack objects and globals need no check
    void access(Instruction* I, Value* p, Value* n, int store)
    {
        Value* b = getUnderlyingObject(p, 32);
        if (isa<AllocaInst>(b) || isa<GlobalVariable>(b)) return;
        IRBuilder<> B(I);
        B.CreateCall(fAccess, {p, n, c32(store)});
    }

    Value* lineOf(Instruction* I)
    {
        int l = 0;
        if (auto& d = I->getDebugLoc()) l = d.getLine();
        return c32(l);
    }

    // vector <-> scalar reinterpretation
    void bitcast(CastInst* c, IRBuilder<>& B)
    {
        Value* v = c->getOperand(0);
        Type *ft = v->getType(), *t = c->getType();
        auto* fv = dyn_cast<FixedVectorType>(ft);
        auto* tv = dyn_cast<FixedVectorType>(t);
        if (fv && !leaf(fv->getElementType())) return;
        if (tv && !leaf(tv->getElementType())) return;
        unsigned fn = fv ? fv->getNumElements() : 1, tn = tv ? tv->getNumElements() : 1;
        if (!fv && !leaf(ft)) return;
        if (!tv && !leaf(t)) { badAll(B, v, "bitcast to wide"); return; }
        Type* fe = ft->getScalarType();
        Type* te = t->getScalarType();
        unsigned fb = fe->getPrimitiveSizeInBits(), tb = te->getPrimitiveSizeInBits();
        auto lane = [&](int i) { return laneSh(B, v, i); };
        auto lval = [&](int i) { return bits(B, laneVal(B, v, i)); };
        auto toInt = [&](Value* s, Value* val, Type* e) -> Value* {
            if (e->isIntegerTy()) return s;
            return B.CreateCall(fCast, {c32(Instruction::BitCast), c32(ty(e)),
                                        c32((KInt << 8) | (int)e->getPrimitiveSizeInBits()), s, val});
        };
        auto fromInt = [&](Value* s, Type* e) -> Value* {
            if (e->isIntegerTy()) return s;
            return B.CreateCall(fCast, {c32(Instruction::BitCast), c32((KInt << 8) | (int)e->getPrimitiveSizeInBits()),
                                        c32(ty(e)), s, c64(0)});
        };
        std::vector<Value*> out;
        if (fn == tn)
            for (unsigned i = 0; i < fn; ++i)
                out.push_back(B.CreateCall(fCast, {c32(Instruction::BitCast), c32(ty(fe)), c32(ty(te)), lane(i), lval(i)}));
        else if (fb < tb && tb % fb == 0 && tb <= 64)
        {
            unsigned k = tb / fb;
            for (unsigned o = 0; o < tn; ++o)
            {
                Value* acc  = toInt(lane(o * k), lval(o * k), fe);
                Value* accV = lval(o * k);
                for (unsigned j = 1; j < k; ++j)
                {
                    Value* hi  = toInt(lane(o * k + j), lval(o * k + j), fe);
                    Value* hiV = lval(o * k + j);
                    acc        = B.CreateCall(fBytes, {hi, c32(((int)fb << 16) | (int)(fb * j)), acc, hiV, null(), accV});
                    accV       = B.CreateOr(accV, B.CreateShl(hiV, fb * j));
                }
                out.push_back(fromInt(acc, te));
            }
        }
        else if (fb > tb && fb % tb == 0)
        {
            unsigned k = fb / tb;
            for (unsigned i = 0; i < fn; ++i)
            {
                Value* s = toInt(lane(i), lval(i), fe);
                for (unsigned j = 0; j < k; ++j)
                {
                    Value* x = s;
                    if (j)
                        x = B.CreateCall(fBin, {c32(Instruction::LShr), c32((KInt << 8) | (int)fb), x, lval(i), null(), c64(tb * j)});
                    x = B.CreateCall(fCast, {c32(Instruction::Trunc), c32((KInt << 8) | (int)fb),
                                             c32((KInt << 8) | (int)tb), x, B.CreateLShr(lval(i), tb * j)});
                    out.push_back(fromInt(x, te));
                }
            }
        }
        else
        {
            badAll(B, v, "odd bitcast");
            return;
        }
        if (!tv)
            set(c, out[0]);
        else
        {
            Value* s = Constant::getNullValue(sh(t));
            for (unsigned i = 0; i < tn; ++i) s = B.CreateInsertValue(s, out[i], i);
            set(c, s);
        }
    }

    void visitCall(CallBase* CB)
    {
        Function* callee = CB->getCalledFunction();
        if (!callee)
            if (auto* f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) callee = f;
        if (CB->isInlineAsm())
        {
            IRBuilder<> B(CB);
            for (auto& a : CB->args())
                if (!a->getType()->isMetadataTy()) badAll(B, a, "inline asm");
            return;
        }
        if (callee && callee->isIntrinsic())
        {
            visitIntrinsic(CB, callee);
            return;
        }
        StringRef name = callee ? callee->getName() : "";
        if (auto* CI = dyn_cast<CallInst>(CB)) CI->setTailCallKind(CallInst::TCK_None);
        bool decl = callee && (callee->isDeclaration() || callee->hasFnAttribute("sx_native"));
        bool api  = callee && name.starts_with("__sx_api_");
        Type* t   = CB->getType();
        if (decl && !api)
        {
            if (int id = mathId(name))
            {
                mathCall(CB, id);
                return;
            }
            IRBuilder<> B(CB);
            if (name == "memcpy" || name == "memmove")
            {
                concretizeOp(CB, 2);
                IRBuilder<> B2(after(CB));
                B2.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
                return;
            }
            if (name == "memcmp" || name == "bcmp")
            {
                for (int i = 0; i < 2; ++i) B.CreateCall(fNative, {CB->getArgOperand(i), CB->getArgOperand(2), str(name)});
            }
            for (unsigned i = 0; i < CB->arg_size(); ++i)
            {
                Value* a = CB->getArgOperand(i);
                if (CB->isByValArgument(i))
                    continue;
                if (allNull(get(a))) continue;
                if (a->getType()->isIntegerTy())
                    concretizeOp(CB, i);
                else
                    badAll(B, a, ("argument of external function " + name).str());
            }
            // allocation functions: fresh memory has no shadow
            if (name == "_Znwm" || name == "_Znam" || name == "malloc" || name.starts_with("_ZnwmSt11align")
                || name.starts_with("_ZnwmRK") || name == "_ZnwmSt11align_val_t")
            {
                IRBuilder<> B2(after(CB));
                B2.CreateCall(fClear, {CB, CB->getArgOperand(0)});
            }
            return;
        }
        // instrumented (or indirect / api) callee
        {
            IRBuilder<> B(CB);
            unsigned slot = 0;
            for (unsigned i = 0; i < CB->arg_size(); ++i)
            {
                Value* a = CB->getArgOperand(i);
                if (CB->isByValArgument(i))
                {
                    if (slot < maxArgs) B.CreateStore(a, argSlot(B, gArgs, slot++));
                    continue;
                }
                Value* s = get(a);
                for (auto& l : leavesOf(a->getType()))
                {
                    if (slot >= maxArgs) report_fatal_error("too many args");
                    B.CreateStore(leafSh(B, s, l), argSlot(B, gArgs, slot++));
                }
            }
            B.CreateStore(CB->getCalledOperand(), gTarget);
            auto ls = leavesOf(t);
            for (unsigned i = 0; i < ls.size() && i < maxArgs; ++i) B.CreateStore(null(), argSlot(B, gRet, i));
            if (ls.empty() || isa<UnreachableInst>(CB->getNextNode() ? CB->getNextNode() : CB)) return;
            IRBuilder<> B2(after(CB));
            Value* s = Constant::getNullValue(sh(t));
            unsigned k = 0;
            for (auto& l : ls)
                if (k < maxArgs) s = setLeaf(B2, s, l, B2.CreateLoad(Ptr, argSlot(B2, gRet, k++)));
            set(CB, s);
        }
    }

    void mathCall(CallBase* CB, int id)
    {
        Type* t  = CB->getType();
        Type* st = t->getScalarType();
        bool any = false;
        for (auto& a : CB->args()) any |= !allNull(get(a));
        if (!any || !leaf(st)) return;
        IRBuilder<> B(after(CB));
        perLane(CB, B, [&](IRBuilder<>& B, int i) -> Value* {
            Value* a = CB->getArgOperand(0);
            bool two = CB->arg_size() > 1 && CB->getArgOperand(1)->getType() == t;
            Value* b = two ? CB->getArgOperand(1) : nullptr;
            return B.CreateCall(fCall, {c32(id), c32(ty(st)), laneSh(B, a, i), bits(B, laneVal(B, a, i)),
                                        b ? laneSh(B, b, i) : null(), b ? bits(B, laneVal(B, b, i)) : c64(0)});
        });
    }

    void visitIntrinsic(CallBase* CB, Function* f)
    {
        auto id = f->getIntrinsicID();
        switch (id)
        {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove:
        {
            concretizeOp(CB, 2);
            {
                IRBuilder<> B0(CB);
                Value* n = B0.CreateZExtOrTrunc(CB->getArgOperand(2), I64);
                access(CB, CB->getArgOperand(0), n, 1);
                access(CB, CB->getArgOperand(1), n, 0);
            }
            IRBuilder<> B(CB->getNextNode());
            B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1),
                                   B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)});
            return;
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline:
        {
            concretizeOp(CB, 2);
            IRBuilder<> B(CB->getNextNode());
            B.CreateCall(fMemset, {CB->getArgOperand(0), get(CB->getArgOperand(1)),
                                   B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)});
            return;
        }
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::dbg_assign:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::eh_typeid_for:
        case Intrinsic::trap:
        case Intrinsic::stacksave:
        case Intrinsic::stackrestore: return;
        case Intrinsic::expect:
        case Intrinsic::ssa_copy:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::objectsize: 
            set(CB, get(CB->getArgOperand(0)));
            if (id == Intrinsic::objectsize) S.erase(CB);
            return;
        case Intrinsic::is_fpclass:
        {
            if (allNull(get(CB->getArgOperand(0)))) return;
            IRBuilder<> B(CB->getNextNode());
            Type* at = CB->getArgOperand(0)->getType();
            if (at->isVectorTy()) { badAll(B, CB->getArgOperand(0), "vector is.fpclass"); return; }
            set(CB, B.CreateCall(fCall, {c32(60), c32(ty(at)), get(CB->getArgOperand(0)),
                                         bits(B, CB->getArgOperand(0)), null(), bits(B, CB->getArgOperand(1))}));
            return;
        }
        default: break;
        }
        if (int m = intrinId(id))
        {
            mathCall(CB, m);
            return;
        }
        IRBuilder<> B(CB);
        for (unsigned i = 0; i < CB->arg_size(); ++i)
        {
            Value* a = CB->getArgOperand(i);
            if (a->getType()->isMetadataTy() || allNull(get(a))) continue;
            if (a->getType()->isIntegerTy() && !isa<Constant>(a))
                concretizeOp(CB, i);
            else
                badAll(B, a, ("intrinsic " + f->getName()).str());
        }
    }
};

struct SxPass : PassInfoMixin<SxPass>
{
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        Sx(M).run();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
                PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
                    if (n != "sx") return false;
                    MPM.addPass(SxPass());
                    return true;
                });
            }};
}
