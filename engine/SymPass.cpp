// LLVM pass plugin: instruments a module for symbolic execution.
//
// Every integer / floating-point SSA value gets a 32-bit shadow (0: concrete,
// otherwise the handle of an expression of the runtime, engine/rt.cpp).
// Pointers have no shadow: a symbolic value used as an index is made concrete
// by the runtime, which explores all its feasible values.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

using namespace llvm;

namespace {

using Leaves = SmallVector<Value *, 2>;

bool startsWith(StringRef s, StringRef p) { return s.substr(0, p.size()) == p; }

struct Sym {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1, *I8, *I32, *I64, *Dbl, *Void;
  PointerType *Ptr;
  GlobalVariable *Arg, *Marker, *Ret, *Filter, *FOver, *Byval;
  static constexpr unsigned kMaxArg = 64;
  static constexpr uint64_t kFilterMask = (1u << 20) - 1;
  unsigned nextSite = 1;
  MDNode *unlikely;

  explicit Sym(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C); Dbl = Type::getDoubleTy(C); Void = Type::getVoidTy(C);
    Ptr = PointerType::getUnqual(C);
    auto ext = [&](Type *t, const char *n) {
      auto *g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
      return g;
    };
    Arg = ext(ArrayType::get(I32, kMaxArg), "__symrt_arg");
    Byval = ext(ArrayType::get(I64, kMaxArg), "__symrt_byval");
    Marker = ext(Ptr, "__symrt_marker");
    Ret = ext(ArrayType::get(I32, kMaxArg), "__symrt_ret");
    Filter = ext(ArrayType::get(I8, kFilterMask + 1), "__symrt_filter");
    FOver = ext(Dbl, "__symrt_fover");
    unlikely = MDBuilder(C).createBranchWeights(1, 10000);
  }

  FunctionCallee rt(const char *name, Type *ret, ArrayRef<Type *> args) {
    return M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }

  static bool tracked(Type *t) {
    if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
    return t->isDoubleTy() || t->isFloatTy();
  }
  // Flattened scalar leaves of a type. Returns false when unsupported (vectors).
  bool flatten(Type *t, SmallVectorImpl<Type *> &out) const {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (Type *e : st->elements())
        if (!flatten(e, out)) return false;
      return true;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      if (at->getNumElements() > 32) return false;
      for (unsigned i = 0; i < at->getNumElements(); ++i)
        if (!flatten(at->getElementType(), out)) return false;
      return true;
    }
    if (t->isVectorTy()) return false;
    out.push_back(t);
    return true;
  }
  bool anyTracked(Type *t) const {
    SmallVector<Type *, 4> l;
    if (t->isVoidTy() || !flatten(t, l)) return false;
    for (Type *x : l) if (tracked(x)) return true;
    return false;
  }
  unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) const {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < i; ++k) {
          SmallVector<Type *, 4> l; flatten(st->getElementType(k), l); off += l.size();
        }
        t = st->getElementType(i);
      } else {
        auto *at = cast<ArrayType>(t);
        SmallVector<Type *, 4> l; flatten(at->getElementType(), l);
        off += l.size() * i;
        t = at->getElementType();
      }
    }
    return off;
  }

  // ----- per function state
  Function *F = nullptr;
  DenseMap<Value *, Leaves> sh;
  DenseSet<Value *> taint;
  Constant *zero() { return ConstantInt::get(I32, 0); }

  Leaves get(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    SmallVector<Type *, 4> l;
    Leaves r;
    if (v->getType()->isVoidTy() || !flatten(v->getType(), l)) return r;
    r.assign(l.size(), zero());
    return r;
  }
  Value *get1(Value *v) {
    auto r = get(v);
    return r.size() == 1 ? r[0] : zero();
  }
  static bool isZero(Value *s) {
    auto *c = dyn_cast<ConstantInt>(s);
    return c && c->isZero();
  }
  Value *toI64(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    return B.CreateZExtOrTrunc(v, I64);
  }
  Value *anyNZ(IRBuilder<> &B, ArrayRef<Value *> ss) {
    Value *o = nullptr;
    for (Value *s : ss) {
      if (isZero(s)) continue;
      o = o ? B.CreateOr(o, s) : s;
    }
    if (!o) return nullptr;
    return B.CreateICmpNE(o, zero());
  }
  // if (any shadow != 0) res = slow(); else 0
  Value *guarded(Instruction *before, ArrayRef<Value *> ss,
                 function_ref<Value *(IRBuilder<> &)> slow,
                 Value **over = nullptr, Value *native = nullptr) {
    IRBuilder<> B(before);
    Value *c = anyNZ(B, ss);
    if (!c) return zero();
    Instruction *t = SplitBlockAndInsertIfThen(c, before, false, unlikely);
    IRBuilder<> T(t);
    BasicBlock *headBB = cast<Instruction>(c)->getParent();
    Value *r = slow(T);
    Value *ov = nullptr;
    if (over) ov = T.CreateLoad(Dbl, FOver);
    BasicBlock *thenBB = t->getParent();
    if (!r) return nullptr;
    IRBuilder<> E(&before->getParent()->front());
    PHINode *p = PHINode::Create(I32, 2, "sh", &before->getParent()->front());
    p->addIncoming(zero(), headBB);
    p->addIncoming(r, thenBB);
    if (over) {
      PHINode *q = PHINode::Create(Dbl, 2, "ov", &before->getParent()->front());
      q->addIncoming(native, headBB);
      q->addIncoming(ov, thenBB);
      *over = q;
    }
    return p;
  }
  Constant *ci(unsigned v) { return ConstantInt::get(I32, v); }

  Value *filterNZ(IRBuilder<> &B, Value *addr, uint64_t size) {
    // granules touched: an access of <= 8 bytes may straddle two
    Value *a = B.CreatePtrToInt(addr, I64);
    auto ld = [&](Value *x) {
      Value *i = B.CreateAnd(B.CreateLShr(x, 3), ConstantInt::get(I64, kFilterMask));
      return B.CreateLoad(I8, B.CreateInBoundsGEP(ArrayType::get(I8, kFilterMask + 1), Filter,
                                                  {ConstantInt::get(I64, 0), i}));
    };
    Value *f = ld(a);
    return B.CreateICmpNE(f, ConstantInt::get(I8, 0));
  }

  Value *loadShadow(Instruction *before, Value *addr, Type *t, Value *native) {
    IRBuilder<> B(before);
    uint64_t size = DL.getTypeStoreSize(t);
    Value *c = filterNZ(B, addr, size);
    Instruction *ti = SplitBlockAndInsertIfThen(c, before, false, unlikely);
    BasicBlock *headBB = cast<Instruction>(c)->getParent();
    IRBuilder<> T(ti);
    Value *r = T.CreateCall(rt("__symrt_load", I32, {Ptr, I32, I32, I64}),
                            {addr, ci(size), ci(t->isIntegerTy() ? t->getIntegerBitWidth() : 0),
                             toI64(T, native)});
    PHINode *p = PHINode::Create(I32, 2, "ldsh", &before->getParent()->front());
    p->addIncoming(zero(), headBB);
    p->addIncoming(r, ti->getParent());
    return p;
  }
  void storeShadow(Instruction *before, Value *addr, Type *t, Value *s, Value *native) {
    IRBuilder<> B(before);
    uint64_t size = DL.getTypeStoreSize(t);
    Value *c = filterNZ(B, addr, size);
    if (!isZero(s)) c = B.CreateOr(c, B.CreateICmpNE(s, zero()));
    Instruction *ti = SplitBlockAndInsertIfThen(c, before, false, unlikely);
    IRBuilder<> T(ti);
    T.CreateCall(rt("__symrt_store", Void, {Ptr, I32, I32}), {addr, ci(size), s});
  }
  // make value concrete (explore all its feasible values)
  void concretize(Instruction *before, Value *v, Value *s) {
    if (isZero(s)) return;
    IRBuilder<> B(before);
    Value *c = B.CreateICmpNE(s, zero());
    Instruction *ti = SplitBlockAndInsertIfThen(c, before, false, unlikely);
    IRBuilder<> T(ti);
    T.CreateCall(rt("__symrt_concretize", Void, {I32, I64, I32}), {s, toI64(T, v), ci(nextSite++)});
  }
  void concretizeAll(Instruction *I) {
    for (Value *op : I->operands())
      if (tracked(op->getType())) concretize(I, op, get1(op));
  }
  void unsupported(Instruction *before, Value *s) {
    if (isZero(s)) return;
    IRBuilder<> B(before);
    Value *c = B.CreateICmpNE(s, zero());
    Instruction *ti = SplitBlockAndInsertIfThen(c, before, false, unlikely);
    IRBuilder<> T(ti);
    T.CreateCall(rt("__symrt_unsupported", Void, {I32}), {ci(nextSite++)});
  }

  Value *fresh2(Instruction *I, const char *fn, unsigned code, unsigned width, Value *a, Value *b) {
    Value *sa = get1(a), *sb = get1(b);
    return guarded(I, {sa, sb}, [&](IRBuilder<> &T) -> Value * {
      return T.CreateCall(rt(fn, I32, {I32, I32, I32, I64, I32, I64}),
                          {ci(code), ci(width), sa, toI64(T, a), sb, toI64(T, b)});
    });
  }

  // ---- floating point op with possible override of the native value
  void fpOp(Instruction *I, unsigned code, Value *a, Value *b) {
    if (!I->getType()->isDoubleTy() || !a->getType()->isDoubleTy()) { concretizeAll(I); return; }
    Value *sa = get1(a), *sb = b ? get1(b) : zero();
    if (isZero(sa) && isZero(sb)) { sh[I] = {zero()}; return; }
    Instruction *next = I->getNextNode();
    if (isa<InvokeInst>(I)) { sh[I] = {zero()}; return; }
    Value *ov = nullptr;
    // uses of I are replaced by the possibly overridden value
    SmallVector<Use *, 8> uses;
    for (Use &u : I->uses()) uses.push_back(&u);
    Value *s = guarded(next, {sa, sb}, [&](IRBuilder<> &T) -> Value * {
      Value *bb = b ? b : ConstantFP::get(Dbl, 0.0);
      return T.CreateCall(rt("__symrt_fop", I32, {I32, I32, Dbl, I32, Dbl, Dbl}),
                          {ci(code), sa, a, sb, bb, I});
    }, &ov, I);
    for (Use *u : uses) u->set(ov);
    sh[I] = {s};
    sh[ov] = {s};
    // tainted phis etc. look up the new value: keep both
    if (taint.count(I)) taint.insert(ov);
  }

  void computeTaint(ArrayRef<Instruction *> insts) {
    taint.clear();
    for (Argument &a : F->args()) if (anyTracked(a.getType())) taint.insert(&a);
    bool ch = true;
    while (ch) {
      ch = false;
      for (Instruction *I : insts) {
        if (taint.count(I) || !anyTracked(I->getType())) continue;
        bool t = false;
        if (isa<LoadInst>(I) || isa<CallBase>(I)) t = true;
        else if (isa<LandingPadInst>(I) || isa<PtrToIntInst>(I) || isa<AtomicRMWInst>(I)
                 || isa<AtomicCmpXchgInst>(I)) t = false;
        else
          for (Value *op : I->operands()) if (taint.count(op)) { t = true; break; }
        if (t) { taint.insert(I); ch = true; }
      }
    }
  }

  static bool outputOnly(StringRef n) {
    return startsWith(n, "_ZNSo") || startsWith(n, "_ZStls") || startsWith(n, "_ZSt16__ostream")
        || startsWith(n, "_ZNSolsE") || startsWith(n, "_ZSt4endl") || startsWith(n, "_ZNSt7__cxx11")
        || startsWith(n, "_ZNSt9basic_ios");
  }

  void visitCall(CallBase *CB) {
    Function *callee = CB->getCalledFunction();
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(II); return; }
    if (CB->isInlineAsm()) { concretizeAll(CB); return; }
    StringRef name = callee ? callee->getName() : "";
    if (startsWith(name, "__symrt")) return;
    bool isExternal = callee && callee->isDeclaration() && !startsWith(name, "sym_");
    if (isExternal) {
      if (auto *ci_ = dyn_cast<CallInst>(CB)) {
        (void)ci_;
        if (name == "sqrt") { fpOp(CB, 10, CB->getArgOperand(0), nullptr); return; }
        if (name == "fabs") { fpOp(CB, 11, CB->getArgOperand(0), nullptr); return; }
        if (name == "fmin") { fpOp(CB, 12, CB->getArgOperand(0), CB->getArgOperand(1)); return; }
        if (name == "fmax") { fpOp(CB, 13, CB->getArgOperand(0), CB->getArgOperand(1)); return; }
        if (name == "pow") { fpOp(CB, 14, CB->getArgOperand(0), CB->getArgOperand(1)); return; }
        if (name == "cbrt") { fpOp(CB, 15, CB->getArgOperand(0), nullptr); return; }
        if (name == "acos") { fpOp(CB, 16, CB->getArgOperand(0), nullptr); return; }
        if (name == "cos") { fpOp(CB, 17, CB->getArgOperand(0), nullptr); return; }
      }
      if (name == "memcpy" || name == "memmove" || name == "memset" || name == "memcmp" || name == "bcmp") {
        concretize(CB, CB->getArgOperand(2), get1(CB->getArgOperand(2)));
        IRBuilder<> B(CB);
        if (name == "memset")
          B.CreateCall(rt("__symrt_memset", Void, {Ptr, I64, I32}),
                       {CB->getArgOperand(0), CB->getArgOperand(2), zero()});
        else if (name == "memcmp" || name == "bcmp")
          B.CreateCall(rt("__symrt_memcmp", Void, {Ptr, Ptr, I64}),
                       {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        else
          B.CreateCall(rt("__symrt_memcpy", Void, {Ptr, Ptr, I64}),
                       {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      if (outputOnly(name)) return;
      for (Value *op : CB->args())
        if (tracked(op->getType())) concretize(CB, op, get1(op));
      return;
    }
    // instrumented or indirect callee: pass shadows
    {
      IRBuilder<> B(CB);
      unsigned k = 0;
      unsigned ai = 0;
      for (Value *op : CB->args()) {
        if (CB->isByValArgument(ai)) {
          B.CreateStore(B.CreatePtrToInt(op, I64),
                        B.CreateConstInBoundsGEP2_32(ArrayType::get(I64, kMaxArg), Byval, 0, ai));
        }
        ++ai;
        auto l = get(op);
        for (Value *s : l) {
          if (k >= kMaxArg) break;
          B.CreateStore(s, B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, kMaxArg), Arg, 0, k));
          ++k;
        }
      }
      B.CreateStore(CB->getCalledOperand(), Marker);
      SmallVector<Type *, 4> rl;
      if (anyTracked(CB->getType()) && flatten(CB->getType(), rl))
        for (unsigned i = 0; i < rl.size() && i < kMaxArg; ++i)
          B.CreateStore(zero(), B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, kMaxArg), Ret, 0, i));
    }
    SmallVector<Type *, 4> rl;
    if (!anyTracked(CB->getType()) || !flatten(CB->getType(), rl)) return;
    Instruction *pos;
    if (auto *inv = dyn_cast<InvokeInst>(CB)) pos = &*inv->getNormalDest()->getFirstInsertionPt();
    else pos = CB->getNextNode();
    IRBuilder<> B(pos);
    Leaves out;
    for (unsigned i = 0; i < rl.size(); ++i)
      out.push_back(tracked(rl[i])
        ? (Value *)B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, kMaxArg), Ret, 0, i))
        : (Value *)zero());
    sh[CB] = out;
  }

  void visitIntrinsic(IntrinsicInst *II) {
    auto id = II->getIntrinsicID();
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        concretize(II, II->getArgOperand(2), get1(II->getArgOperand(2)));
        IRBuilder<> B(II);
        B.CreateCall(rt("__symrt_memcpy", Void, {Ptr, Ptr, I64}),
                     {II->getArgOperand(0), II->getArgOperand(1), B.CreateZExtOrTrunc(II->getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        concretize(II, II->getArgOperand(2), get1(II->getArgOperand(2)));
        Value *s = get1(II->getArgOperand(1));
        IRBuilder<> B(II);
        B.CreateCall(rt("__symrt_memset", Void, {Ptr, I64, I32}),
                     {II->getArgOperand(0), B.CreateZExtOrTrunc(II->getArgOperand(2), I64), s});
        return;
      }
      case Intrinsic::sqrt: fpOp(II, 10, II->getArgOperand(0), nullptr); return;
      case Intrinsic::fabs: fpOp(II, 11, II->getArgOperand(0), nullptr); return;
      case Intrinsic::minnum: case Intrinsic::minimum:
        fpOp(II, 12, II->getArgOperand(0), II->getArgOperand(1)); return;
      case Intrinsic::maxnum: case Intrinsic::maximum:
        fpOp(II, 13, II->getArgOperand(0), II->getArgOperand(1)); return;
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        unsigned code = id == Intrinsic::smax ? 1 : id == Intrinsic::smin ? 2 : id == Intrinsic::umax ? 3 : 4;
        if (tracked(II->getType()))
          sh[II] = {fresh2(II, "__symrt_minmax", code, II->getType()->getIntegerBitWidth(),
                           II->getArgOperand(0), II->getArgOperand(1))};
        return;
      }
      case Intrinsic::abs: {
        if (tracked(II->getType()))
          sh[II] = {fresh2(II, "__symrt_minmax", 5, II->getType()->getIntegerBitWidth(),
                           II->getArgOperand(0), ConstantInt::get(II->getType(), 0))};
        return;
      }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::ssa_copy:
        if (tracked(II->getType())) sh[II] = {get1(II->getArgOperand(0))};
        return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
        return;
      default:
        concretizeAll(II);
        return;
    }
  }

  void visit(Instruction *I) {
    IRBuilder<> B(I);
    switch (I->getOpcode()) {
      case Instruction::PHI: return;  // created beforehand
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv:
      case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl:
      case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or:
      case Instruction::Xor: {
        if (!tracked(I->getType())) { concretizeAll(I); return; }
        static const std::pair<unsigned, unsigned> map[] = {
          {Instruction::Add, 1}, {Instruction::Sub, 2}, {Instruction::Mul, 3}, {Instruction::UDiv, 4},
          {Instruction::SDiv, 5}, {Instruction::URem, 6}, {Instruction::SRem, 7}, {Instruction::Shl, 8},
          {Instruction::LShr, 9}, {Instruction::AShr, 10}, {Instruction::And, 11}, {Instruction::Or, 12},
          {Instruction::Xor, 13}};
        unsigned code = 0;
        for (auto &p : map) if (p.first == I->getOpcode()) code = p.second;
        sh[I] = {fresh2(I, "__symrt_bin", code, I->getType()->getIntegerBitWidth(), I->getOperand(0),
                        I->getOperand(1))};
        return;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (!I->getType()->isDoubleTy()) { concretizeAll(I); return; }
        unsigned code = I->getOpcode() == Instruction::FAdd ? 1 : I->getOpcode() == Instruction::FSub ? 2
                        : I->getOpcode() == Instruction::FMul ? 3 : 4;
        fpOp(I, code, I->getOperand(0), I->getOperand(1));
        return;
      }
      case Instruction::FNeg:
        if (!I->getType()->isDoubleTy()) { concretizeAll(I); return; }
        fpOp(I, 5, I->getOperand(0), nullptr);
        return;
      case Instruction::FRem: concretizeAll(I); return;
      case Instruction::ICmp: {
        Type *t = I->getOperand(0)->getType();
        if (!t->isIntegerTy()) return;
        if (!tracked(t)) { concretizeAll(I); return; }
        sh[I] = {fresh2(I, "__symrt_icmp", cast<CmpInst>(I)->getPredicate(), t->getIntegerBitWidth(),
                        I->getOperand(0), I->getOperand(1))};
        return;
      }
      case Instruction::FCmp: {
        Type *t = I->getOperand(0)->getType();
        if (!t->isDoubleTy()) { concretizeAll(I); return; }
        sh[I] = {fresh2(I, "__symrt_fcmp", cast<CmpInst>(I)->getPredicate(), 0, I->getOperand(0),
                        I->getOperand(1))};
        return;
      }
      case Instruction::Select: {
        auto *S = cast<SelectInst>(I);
        Value *sc = S->getCondition()->getType()->isIntegerTy(1) ? get1(S->getCondition()) : zero();
        Type *t = I->getType();
        if (tracked(t)) {
          Value *sa = get1(S->getTrueValue()), *sb = get1(S->getFalseValue());
          IRBuilder<> B2(I);
          Value *base = (isZero(sa) && isZero(sb)) ? (Value *)zero() : B2.CreateSelect(S->getCondition(), sa, sb);
          if (isZero(sc)) { sh[I] = {base}; return; }
          Value *r = guarded(I, {sc}, [&](IRBuilder<> &T) -> Value * {
            unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
            return T.CreateCall(rt("__symrt_select", I32, {I32, I32, I32, I32, I64, I32, I64}),
                                {ci(w), sc, T.CreateZExt(S->getCondition(), I32), sa,
                                 toI64(T, S->getTrueValue()), sb, toI64(T, S->getFalseValue())});
          });
          if (auto *p = dyn_cast<PHINode>(r)) {
            // zero when the condition is concrete: fall back on the plain choice
            IRBuilder<> B3(I);
            Value *c = B3.CreateICmpNE(sc, zero());
            sh[I] = {B3.CreateSelect(c, p, base)};
          } else sh[I] = {base};
          return;
        }
        if (!isZero(sc)) branchHook(I, S->getCondition(), sc);
        if (anyTracked(t)) {
          auto a = get(S->getTrueValue()), b = get(S->getFalseValue());
          IRBuilder<> B2(I);
          Leaves o;
          for (unsigned i = 0; i < a.size(); ++i)
            o.push_back(isZero(a[i]) && isZero(b[i]) ? (Value *)zero()
                                                     : B2.CreateSelect(S->getCondition(), a[i], b[i]));
          sh[I] = o;
        }
        return;
      }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
        Type *ft = I->getOperand(0)->getType(), *tt = I->getType();
        if (!tracked(ft) || !tracked(tt)) { concretizeAll(I); return; }
        Value *s = get1(I->getOperand(0));
        unsigned code = I->getOpcode() == Instruction::ZExt ? 1 : I->getOpcode() == Instruction::SExt ? 2 : 3;
        sh[I] = {guarded(I, {s}, [&](IRBuilder<> &T) -> Value * {
          return T.CreateCall(rt("__symrt_cast", I32, {I32, I32, I32, I32, I64}),
                              {ci(code), ci(ft->getIntegerBitWidth()), ci(tt->getIntegerBitWidth()), s,
                               toI64(T, I->getOperand(0))});
        })};
        return;
      }
      case Instruction::BitCast: {
        if (tracked(I->getType()) && tracked(I->getOperand(0)->getType()))
          sh[I] = {get1(I->getOperand(0))};
        return;
      }
      case Instruction::Freeze: {
        if (anyTracked(I->getType())) sh[I] = get(I->getOperand(0));
        return;
      }
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::IntToPtr:
        concretizeAll(I);
        return;
      case Instruction::GetElementPtr:
        for (Value *op : drop_begin(I->operands()))
          if (tracked(op->getType())) concretize(I, op, get1(op));
        return;
      case Instruction::Load: {
        auto *L = cast<LoadInst>(I);
        Type *t = I->getType();
        if (L->isAtomic()) return;
        Instruction *next = I->getNextNode();
        if (tracked(t)) { sh[I] = {loadShadow(next, L->getPointerOperand(), t, I)}; return; }
        if (anyTracked(t)) {
          IRBuilder<> B2(next);
          Leaves o;
          SmallVector<Type *, 4> ls; flatten(t, ls);
          std::vector<SmallVector<unsigned, 4>> paths; leafPaths(t, {}, paths);
          for (unsigned i = 0; i < ls.size(); ++i) {
            if (!tracked(ls[i])) { o.push_back(zero()); continue; }
            IRBuilder<> B3(next);
            Value *v = B3.CreateExtractValue(I, paths[i]);
            Value *a = leafAddr(B3, L->getPointerOperand(), t, paths[i]);
            o.push_back(loadShadow(next, a, ls[i], v));
          }
          sh[I] = o;
        } else if (t->isVectorTy()) {
          IRBuilder<> B2(next);
          B2.CreateCall(rt("__symrt_vecload", Void, {Ptr, I64}),
                        {L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(t))});
        }
        return;
      }
      case Instruction::Store: {
        auto *S = cast<StoreInst>(I);
        Value *v = S->getValueOperand();
        Type *t = v->getType();
        if (S->isAtomic()) return;
        if (tracked(t)) { storeShadow(I, S->getPointerOperand(), t, get1(v), v); return; }
        if (t->isPointerTy()) { storeShadow(I, S->getPointerOperand(), I64, zero(), v); return; }
        SmallVector<Type *, 4> ls;
        if (!t->isVectorTy() && flatten(t, ls)) {
          auto s = get(v);
          std::vector<SmallVector<unsigned, 4>> paths; leafPaths(t, {}, paths);
          for (unsigned i = 0; i < ls.size(); ++i) {
            IRBuilder<> B3(I);
            Value *a = leafAddr(B3, S->getPointerOperand(), t, paths[i]);
            storeShadow(I, a, ls[i], s[i], nullptr);
          }
        } else {
          IRBuilder<> B2(I);
          B2.CreateCall(rt("__symrt_memset", Void, {Ptr, I64, I32}),
                        {S->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(t)), zero()});
        }
        return;
      }
      case Instruction::ExtractValue: {
        auto *E = cast<ExtractValueInst>(I);
        if (!anyTracked(I->getType())) return;
        auto s = get(E->getAggregateOperand());
        if (s.empty()) return;
        unsigned off = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
        SmallVector<Type *, 4> l; flatten(I->getType(), l);
        Leaves o;
        for (unsigned i = 0; i < l.size(); ++i) o.push_back(s[off + i]);
        sh[I] = o;
        return;
      }
      case Instruction::InsertValue: {
        auto *E = cast<InsertValueInst>(I);
        if (!anyTracked(I->getType())) return;
        auto s = get(E->getAggregateOperand());
        auto v = get(E->getInsertedValueOperand());
        if (s.empty()) return;
        unsigned off = leafIndex(I->getType(), E->getIndices());
        for (unsigned i = 0; i < v.size(); ++i) s[off + i] = v[i];
        sh[I] = s;
        return;
      }
      case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(I);
        auto sz = A->getAllocationSize(DL);
        Instruction *next = I->getNextNode();
        while (isa<AllocaInst>(next)) next = next->getNextNode();
        IRBuilder<> B2(next);
        if (sz) B2.CreateCall(rt("__symrt_memset", Void, {Ptr, I64, I32}),
                              {A, ConstantInt::get(I64, sz->getFixedValue()), zero()});
        return;
      }
      case Instruction::Br: {
        auto *Br = cast<BranchInst>(I);
        if (Br->isConditional()) branchHook(I, Br->getCondition(), get1(Br->getCondition()));
        return;
      }
      case Instruction::Ret: {
        auto *R = cast<ReturnInst>(I);
        if (!R->getReturnValue() || !anyTracked(R->getReturnValue()->getType())) return;
        auto s = get(R->getReturnValue());
        for (unsigned i = 0; i < s.size() && i < kMaxArg; ++i)
          B.CreateStore(s[i], B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, kMaxArg), Ret, 0, i));
        return;
      }
      case Instruction::Call: case Instruction::Invoke:
        visitCall(cast<CallBase>(I));
        return;
      case Instruction::InsertElement:
        if (tracked(I->getOperand(1)->getType())) unsupported(I, get1(I->getOperand(1)));
        return;
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg:
        concretizeAll(I);
        return;
      default:
        return;
    }
  }
  void leafPaths(Type *t, SmallVector<unsigned, 4> cur, std::vector<SmallVector<unsigned, 4>> &out) {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        auto n = cur; n.push_back(i); leafPaths(st->getElementType(i), n, out);
      }
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      for (unsigned i = 0; i < at->getNumElements(); ++i) {
        auto n = cur; n.push_back(i); leafPaths(at->getElementType(), n, out);
      }
    } else out.push_back(cur);
  }
  Value *leafAddr(IRBuilder<> &B, Value *p, Type *t, ArrayRef<unsigned> path) {
    SmallVector<Value *, 4> idx;
    idx.push_back(ConstantInt::get(I32, 0));
    for (unsigned i : path) idx.push_back(ConstantInt::get(I32, i));
    return B.CreateInBoundsGEP(t, p, idx);
  }
  void branchHook(Instruction *before, Value *c, Value *s) {
    if (isZero(s)) return;
    IRBuilder<> B(before);
    Value *nz = B.CreateICmpNE(s, zero());
    Instruction *ti = SplitBlockAndInsertIfThen(nz, before, false, unlikely);
    IRBuilder<> T(ti);
    T.CreateCall(rt("__symrt_branch", Void, {I32, I32, I32}), {s, T.CreateZExt(c, I32), ci(nextSite++)});
  }

  void run(Function &Fn) {
    F = &Fn;
    sh.clear();
    removeUnreachableBlocks(Fn);
    // isolate normal destinations of invokes
    SmallVector<InvokeInst *, 16> invs;
    for (auto &BB : Fn)
      if (auto *iv = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(iv);
    for (auto *iv : invs)
      if (!iv->getNormalDest()->getSinglePredecessor())
        SplitEdge(iv->getParent(), iv->getNormalDest());
    std::vector<Instruction *> insts;
    ReversePostOrderTraversal<Function *> rpo(&Fn);
    for (BasicBlock *BB : rpo)
      for (Instruction &I : *BB) insts.push_back(&I);
    computeTaint(insts);
    std::vector<PHINode *> phis;
    DenseSet<PHINode *> shadowPhis;
    for (Instruction *I : insts)
      if (auto *P = dyn_cast<PHINode>(I))
        if (taint.count(P)) phis.push_back(P);
    for (PHINode *P : phis) {
      SmallVector<Type *, 4> l;
      if (!flatten(P->getType(), l)) continue;
      Leaves o;
      for (Type *t : l) {
        if (tracked(t)) {
          auto *q = PHINode::Create(I32, P->getNumIncomingValues(), "", P);
          shadowPhis.insert(q);
          o.push_back(q);
        } else o.push_back(zero());
      }
      sh[P] = o;
    }
    // entry: shadows of the arguments
    {
      Instruction *pos = &*Fn.getEntryBlock().getFirstInsertionPt();
      bool any = false;
      for (Argument &a : Fn.args()) any |= anyTracked(a.getType()) || a.hasByValAttr();
      if (any) {
        IRBuilder<> B(pos);
        Value *is = B.CreateICmpEQ(B.CreateLoad(Ptr, Marker), &Fn);
        unsigned k = 0, ai = 0;
        for (Argument &a : Fn.args()) {
          SmallVector<Type *, 4> l;
          flatten(a.getType(), l);
          Leaves o;
          for (Type *t : l) {
            if (tracked(t) && k < kMaxArg) {
              Value *v = B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(ArrayType::get(I32, kMaxArg), Arg, 0, k));
              o.push_back(B.CreateSelect(is, v, zero()));
            } else o.push_back(zero());
            ++k;
          }
          if (anyTracked(a.getType())) sh[&a] = o;
          if (a.hasByValAttr()) {
            Value *v = B.CreateLoad(I64, B.CreateConstInBoundsGEP2_32(ArrayType::get(I64, kMaxArg), Byval, 0, ai));
            B.CreateCall(rt("__symrt_byvalcopy", Void, {I32, Ptr, I64, I64}),
                         {B.CreateZExt(is, I32), &a, v,
                          ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType()))});
          }
          ++ai;
        }
        B.CreateStore(ConstantPointerNull::get(Ptr), Marker);
      }
    }
    for (Instruction *I : insts) visit(I);
    for (PHINode *P : phis) {
      auto &o = sh[P];
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        auto s = get(P->getIncomingValue(i));
        for (unsigned k = 0; k < o.size(); ++k)
          if (auto *q = dyn_cast<PHINode>(o[k]))
            if (shadowPhis.count(q)) q->addIncoming(s.empty() ? zero() : s[k], P->getIncomingBlock(i));
      }
    }
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Sym S(M);
    std::vector<Function *> fs;
    for (Function &F : M)
      if (!F.isDeclaration() && !startsWith(F.getName(), "__symrt") && !F.hasFnAttribute("symrt_skip")
          && !startsWith(F.getName(), "sym_native_"))
        fs.push_back(&F);
    for (Function *F : fs) S.run(*F);
    if (getenv("SYM_VERIFY") && verifyModule(M, &errs())) report_fatal_error("SymPass produced invalid IR");
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

// Marks, before any inlining, which functions of the library are executed.
struct MarkPass : PassInfoMixin<MarkPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    std::vector<Function *> fs;
    std::string names;
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      std::string d = demangle(F.getName().str());
      if (d.find("comma::") == std::string::npos) continue;
      size_t s = 0;
      // the function itself has to live in the namespace, not only its arguments
      size_t par = d.find('(');
      std::string head = d.substr(0, par);
      if (head.find("comma::") == std::string::npos || head.compare(0, 5, "std::") == 0
          || head.find(" std::") != std::string::npos || head.find("__gnu") != std::string::npos) continue;
      (void)s;
      // strip template arguments
      std::string o; int lvl = 0;
      for (char c : head) { if (c == '<') lvl++; else if (c == '>') lvl--; else if (!lvl) o += c; }
      size_t p = o.find("comma::");
      if (p == std::string::npos) continue;
      fs.push_back(&F);
      names += o.substr(p) + "\n";
    }
    Type *I8 = Type::getInt8Ty(C);
    auto *AT = ArrayType::get(I8, fs.size() + 1);
    auto *hits = new GlobalVariable(M, AT, false, GlobalValue::ExternalLinkage, Constant::getNullValue(AT), "__symrt_fnhits");
    auto *str = ConstantDataArray::getString(C, names);
    new GlobalVariable(M, str->getType(), true, GlobalValue::ExternalLinkage, str, "__symrt_fnnames");
    for (size_t i = 0; i < fs.size(); ++i) {
      IRBuilder<> B(&*fs[i]->getEntryBlock().getFirstInsertionPt());
      B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstInBoundsGEP2_64(AT, hits, 0, i));
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(MarkPass()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass()));
      MPM.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass()));
      MPM.addPass(SymPass());
    });
  }};
}
