// LLVM-18 pass plugin: instruments every function of a module so that it executes
// symbolically against the runtime in sxrt.cpp.
//  * double arithmetic/compare -> calls (symbolic doubles are NaN-boxed handles)
//  * integers (i8..i64) carry an SSA "shadow" (i32 expression handle, 0 = concrete)
//  * memory shadows for integers, call/return shadows through runtime buffers
//  * symbolic branch conditions are decided (forked) at the compare
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

struct SX {
  Module &M; LLVMContext &C;
  Type *D, *I1, *I8, *I32, *I64, *V, *P;
  SX(Module &m) : M(m), C(m.getContext()) {
    D = Type::getDoubleTy(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); V = Type::getVoidTy(C);
    P = PointerType::getUnqual(C);
  }
  FunctionCallee fn(StringRef n, Type *r, ArrayRef<Type*> a) {
    return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
  }
  static bool isD(Type *t) { return t->isDoubleTy(); }
  static bool isVD(Type *t) { auto v = dyn_cast<FixedVectorType>(t); return v && v->getElementType()->isDoubleTy(); }
  static bool isI(Type *t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 1 && t->getIntegerBitWidth() <= 64; }

  Function *F = nullptr;
  std::map<Value*, Value*> sh;
  std::vector<std::pair<PHINode*, PHINode*>> phis;
  Value *z() { return ConstantInt::get(I32, 0); }
  Value *shadow(Value *v) {
    if (!isI(v->getType())) return z();
    auto it = sh.find(v);
    if (it == sh.end()) return z();
    return it->second;
  }
  static bool zero(Value *s) { auto c = dyn_cast<ConstantInt>(s); return c && c->isZero(); }
  Value *to64(IRBuilder<> &B, Value *v) {
    if (v->getType() == I64) return v;
    return B.CreateZExt(v, I64);
  }
  Value *bitsOf(Type *t) { return ConstantInt::get(I32, t->getIntegerBitWidth()); }

  // concretise integer operand k of instruction I
  void conc(Instruction *I, unsigned k) {
    Value *v = I->getOperand(k);
    if (!isI(v->getType())) return;
    Value *s = shadow(v);
    if (zero(s)) return;
    IRBuilder<> B(I);
    Value *c = B.CreateCall(fn("__sx_conc", I64, {I64, I32, I32}), {to64(B, v), s, bitsOf(v->getType())});
    I->setOperand(k, B.CreateTruncOrBitCast(c, v->getType()));
  }
  Value *concv(IRBuilder<> &B, Value *v) {
    Value *s = shadow(v);
    if (zero(s)) return v;
    Value *c = B.CreateCall(fn("__sx_conc", I64, {I64, I32, I32}), {to64(B, v), s, bitsOf(v->getType())});
    return B.CreateTruncOrBitCast(c, v->getType());
  }

  // apply scalar double function lane-wise
  Value *lanes(IRBuilder<> &B, Type *ty, ArrayRef<Value*> ops, std::function<Value*(IRBuilder<>&, ArrayRef<Value*>)> f, Type *resEl = nullptr) {
    if (auto vt = dyn_cast<FixedVectorType>(ty)) {
      unsigned n = vt->getNumElements();
      Value *r = PoisonValue::get(FixedVectorType::get(resEl ? resEl : D, n));
      for (unsigned i = 0; i < n; i++) {
        SmallVector<Value*, 4> l;
        for (auto o : ops) l.push_back(o->getType()->isVectorTy() ? B.CreateExtractElement(o, (uint64_t)i) : o);
        r = B.CreateInsertElement(r, f(B, l), (uint64_t)i);
      }
      return r;
    }
    return f(B, ops);
  }
  Value *callD(IRBuilder<> &B, StringRef n, ArrayRef<Value*> a) {
    SmallVector<Type*, 4> ts; for (auto x : a) ts.push_back(x->getType());
    return B.CreateCall(fn(n, D, ts), a);
  }
  std::vector<Instruction*> dead;
  void repl(Instruction *I, Value *v) { I->replaceAllUsesWith(v); dead.push_back(I); }

  void checkD(IRBuilder<> &B, Value *v, StringRef what) {
    Value *w = B.CreateGlobalStringPtr(what, "sxw", 0, &M);
    if (isD(v->getType())) B.CreateCall(fn("__sx_ckd", V, {D, P}), {v, w});
    else if (isVD(v->getType())) {
      unsigned n = cast<FixedVectorType>(v->getType())->getNumElements();
      for (unsigned i = 0; i < n; i++) B.CreateCall(fn("__sx_ckd", V, {D, P}), {B.CreateExtractElement(v, (uint64_t)i), w});
    }
  }

  void doIntrinsic(IntrinsicInst *I) {
    IRBuilder<> B(I);
    auto id = I->getIntrinsicID();
    Type *t = I->getType();
    auto un = [&](StringRef n) { repl(I, lanes(B, t, {I->getArgOperand(0)}, [&](IRBuilder<> &b, ArrayRef<Value*> a) { return callD(b, n, a); })); };
    auto bi = [&](StringRef n) { repl(I, lanes(B, t, {I->getArgOperand(0), I->getArgOperand(1)}, [&](IRBuilder<> &b, ArrayRef<Value*> a) { return callD(b, n, a); })); };
    bool fp = isD(t) || isVD(t);
    switch (id) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: return;
      case Intrinsic::assume: return;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        conc(I, 2);
        IRBuilder<> B2(I->getNextNode());
        B.CreateCall(fn("__sx_memcpy_pre", V, {P, P, I64}), {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), I64)});
        return; }
      case Intrinsic::memset: {
        conc(I, 1); conc(I, 2);
        IRBuilder<> B3(I);
        B3.CreateCall(fn("__sx_clear", V, {P, I64}), {I->getArgOperand(0), B3.CreateZExtOrTrunc(I->getArgOperand(2), I64)});
        return; }
      case Intrinsic::fabs: if (fp) un("__sx_fabs"); return;
      case Intrinsic::sqrt: if (fp) un("__sx_sqrt"); return;
      case Intrinsic::floor: if (fp) un("__sx_floor"); return;
      case Intrinsic::ceil: if (fp) un("__sx_ceil"); return;
      case Intrinsic::minnum: case Intrinsic::minimum: if (fp) bi("__sx_fmin"); return;
      case Intrinsic::maxnum: case Intrinsic::maximum: if (fp) bi("__sx_fmax"); return;
      case Intrinsic::pow: if (fp) bi("__sx_pow"); return;
      case Intrinsic::fma: case Intrinsic::fmuladd:
        if (fp) repl(I, lanes(B, t, {I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2)}, [&](IRBuilder<> &b, ArrayRef<Value*> a) {
          return callD(b, "__sx_fadd", {callD(b, "__sx_fmul", {a[0], a[1]}), a[2]}); }));
        return;
      case Intrinsic::powi:
        if (fp) { Value *e = concv(B, I->getArgOperand(1)); Value *e32 = B.CreateSExtOrTrunc(e, I32);
          repl(I, lanes(B, t, {I->getArgOperand(0)}, [&](IRBuilder<> &b, ArrayRef<Value*> a) {
            return b.CreateCall(fn("__sx_powi", D, {D, I32}), {a[0], e32}); })); }
        return;
      case Intrinsic::vector_reduce_fadd:
        if (isD(t)) { Value *a = I->getArgOperand(0); Value *v = I->getArgOperand(1);
          unsigned n = cast<FixedVectorType>(v->getType())->getNumElements();
          for (unsigned i = 0; i < n; i++) a = callD(B, "__sx_fadd", {a, B.CreateExtractElement(v, (uint64_t)i)});
          repl(I, a); }
        return;
      case Intrinsic::is_fpclass:
        if (isD(I->getArgOperand(0)->getType())) {
          Value *isb = B.CreateCall(fn("__sx_isbox", I8, {D}), {I->getArgOperand(0)});
          // a symbolic real is a finite number: class finite masks -> treat nan/inf tests as false
          unsigned m = cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
          if ((m & ~(0x3u | 0x4u | 0x200u)) == 0) { // only nan / inf
            IRBuilder<> A(I->getNextNode());
            Value *b1 = A.CreateICmpEQ(isb, ConstantInt::get(I8, 0));
            auto *r = cast<Instruction>(A.CreateAnd(I, b1));
            I->replaceUsesWithIf(r, [&](Use &u) { return u.getUser() != r; });
          } else checkD(B, I->getArgOperand(0), "is_fpclass");
        }
        return;
      // AVX horizontal adds
      case Intrinsic::x86_avx_hadd_pd_256: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        auto E = [&](Value *v, int i) { return B.CreateExtractElement(v, (uint64_t)i); };
        Value *r = PoisonValue::get(t);
        r = B.CreateInsertElement(r, callD(B, "__sx_fadd", {E(a,0), E(a,1)}), (uint64_t)0);
        r = B.CreateInsertElement(r, callD(B, "__sx_fadd", {E(b,0), E(b,1)}), (uint64_t)1);
        r = B.CreateInsertElement(r, callD(B, "__sx_fadd", {E(a,2), E(a,3)}), (uint64_t)2);
        r = B.CreateInsertElement(r, callD(B, "__sx_fadd", {E(b,2), E(b,3)}), (uint64_t)3);
        repl(I, r); return; }
      case Intrinsic::x86_sse3_hadd_pd: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        auto E = [&](Value *v, int i) { return B.CreateExtractElement(v, (uint64_t)i); };
        Value *r = PoisonValue::get(t);
        r = B.CreateInsertElement(r, callD(B, "__sx_fadd", {E(a,0), E(a,1)}), (uint64_t)0);
        r = B.CreateInsertElement(r, callD(B, "__sx_fadd", {E(b,0), E(b,1)}), (uint64_t)1);
        repl(I, r); return; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
        if (isI(t)) {
          Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = shadow(a), *sb = shadow(b);
          if (zero(sa) && zero(sb)) return;
          CmpInst::Predicate p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
          Value *c = icmp(B, p, a, b);
          Value *r = B.CreateSelect(c, a, b);
          sh[r] = B.CreateSelect(c, sa, sb);
          sh[I] = sh[r];
          repl(I, r);
        }
        return;
      default: break;
    }
    // everything else: concretise integer operands, doubles must be concrete
    if (isa<DbgInfoIntrinsic>(I)) return;
    for (unsigned k = 0; k < I->arg_size(); k++) {
      if (isa<Constant>(I->getArgOperand(k))) continue;
      if (isI(I->getArgOperand(k)->getType())) conc(I, k);
      else if (isD(I->getArgOperand(k)->getType()) || isVD(I->getArgOperand(k)->getType())) {
        // pure data movement is fine
        if (id == Intrinsic::x86_avx_maskstore_pd_256) continue;
        IRBuilder<> B4(I); checkD(B4, I->getArgOperand(k), I->getCalledFunction()->getName());
      }
    }
  }
  Value *icmp(IRBuilder<> &B, CmpInst::Predicate p, Value *a, Value *b) {
    Value *r = B.CreateCall(fn("__sx_icmp", I8, {I32, I32, I64, I32, I64, I32}),
      {ConstantInt::get(I32, p), bitsOf(a->getType()), to64(B, a), shadow(a), to64(B, b), shadow(b)});
    return B.CreateTrunc(r, I1);
  }

  void doCall(CallBase *I) {
    if (I->isInlineAsm()) return;
    Function *cf = dyn_cast<Function>(I->getCalledOperand()->stripPointerCasts());
    if (cf && cf->getName().starts_with("__sx_")) {   // runtime primitives taking integer shadows
      return;
    }
    if (auto *ci = dyn_cast<CallInst>(I)) { if (ci->isMustTailCall()) return; ci->setTailCallKind(CallInst::TCK_None); }
    if (auto ii = dyn_cast<IntrinsicInst>(I)) { doIntrinsic(ii); return; }
    IRBuilder<> B(I);
    if (cf) {
      StringRef n = cf->getName();
      static const std::map<std::string, std::string> ren = {
        {"sqrt", "__sx_sqrt"}, {"fabs", "__sx_fabs"}, {"fmax", "__sx_fmax"}, {"fmin", "__sx_fmin"},
        {"pow", "__sx_pow"}, {"floor", "__sx_floor"}, {"ceil", "__sx_ceil"}};
      auto it = ren.find(n.str());
      if (it != ren.end() && isD(I->getType()) && cf->isDeclaration()) {
        SmallVector<Value*, 2> a(I->arg_begin(), I->arg_end());
        Value *r = callD(B, it->second, a);
        if (auto inv = dyn_cast<InvokeInst>(I)) { B.CreateBr(inv->getNormalDest()); inv->getUnwindDest()->removePredecessor(inv->getParent()); }
        repl(I, r); return;
      }
      if ((n == "memcpy" || n == "memmove") && cf->isDeclaration() && I->arg_size() == 3) {
        conc(I, 2); IRBuilder<> B2(I);
        B2.CreateCall(fn("__sx_memcpy_pre", V, {P, P, I64}), {I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2)});
        return;
      }
      if (n == "memset" && cf->isDeclaration()) {
        conc(I, 1); conc(I, 2); IRBuilder<> B2(I);
        B2.CreateCall(fn("__sx_clear", V, {P, I64}), {I->getArgOperand(0), I->getArgOperand(2)});
        return;
      }
    }
    Value *callee = I->getCalledOperand();
    // sx_sym_* api declared noinline extern "C" native: takes concrete ints
    bool any = false;
    for (unsigned k = 0; k < I->arg_size(); k++) if (!zero(shadow(I->getArgOperand(k)))) any = true;
    for (unsigned k = 0; k < I->arg_size(); k++) {
      if (I->isByValArgument(k)) {
        uint64_t sz = M.getDataLayout().getTypeAllocSize(I->getParamByValType(k));
        B.CreateCall(fn("__sx_memconc", V, {P, I64}), {I->getArgOperand(k), ConstantInt::get(I64, sz)});
      }
    }
    // natives reading memory through pointers: runtime concretises what they could read
    if (!cf || cf->isDeclaration()) {
      for (unsigned k = 0; k < I->arg_size(); k++)
        if (I->getArgOperand(k)->getType()->isPointerTy() && !isa<Constant>(I->getArgOperand(k)) && !I->isByValArgument(k))
          B.CreateCall(fn("__sx_ptrarg", V, {P, P}), {callee, I->getArgOperand(k)});
    }
    if (any) {
      unsigned idx = 0;
      for (unsigned k = 0; k < I->arg_size(); k++) {
        Value *v = I->getArgOperand(k);
        if (!isI(v->getType())) continue;
        Value *nv = B.CreateCall(fn("__sx_arg", I64, {P, I32, I64, I32, I32}),
          {callee, ConstantInt::get(I32, idx), to64(B, v), shadow(v), bitsOf(v->getType())});
        I->setArgOperand(k, B.CreateTruncOrBitCast(nv, v->getType()));
        idx++;
      }
    }
    if (isI(I->getType())) {
      Instruction *pt;
      if (auto inv = dyn_cast<InvokeInst>(I)) {
        BasicBlock *nd = inv->getNormalDest();
        // dedicated block
        BasicBlock *nb = BasicBlock::Create(C, "sxret", F, nd);
        IRBuilder<> NB(nb);
        auto br = NB.CreateBr(nd);
        inv->setNormalDest(nb);
        for (auto &ph : nd->phis()) { for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) if (ph.getIncomingBlock(i) == inv->getParent()) ph.setIncomingBlock(i, nb); }
        // a block both normal and unwind dest is impossible
        pt = br;
      } else pt = I->getNextNode();
      IRBuilder<> A(pt);
      sh[I] = A.CreateCall(fn("__sx_retget", I32, {P}), {callee});
    }
  }

  GlobalVariable *cov = nullptr; uint64_t covidx = 0;
  void run(Function &f) {
    F = &f; sh.clear(); phis.clear(); dead.clear();
    std::vector<Instruction*> ins;
    // reverse post order so that operands are seen before uses (except phi)
    {
      std::vector<BasicBlock*> order; std::set<BasicBlock*> seen;
      std::vector<std::pair<BasicBlock*, unsigned>> st; st.push_back({&f.getEntryBlock(), 0}); seen.insert(&f.getEntryBlock());
      while (!st.empty()) {
        auto &[b, i] = st.back();
        auto *t = b->getTerminator();
        if (i < t->getNumSuccessors()) { auto s = t->getSuccessor(i++); if (seen.insert(s).second) st.push_back({s, 0}); }
        else { order.push_back(b); st.pop_back(); }
      }
      for (auto it = order.rbegin(); it != order.rend(); ++it) for (auto &I : **it) ins.push_back(&I);
    }
    // entry
    BasicBlock &EB = f.getEntryBlock();
    Instruction *ip = &*EB.getFirstInsertionPt();
    while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
    IRBuilder<> B(ip);
    {
      bool hasInt = false;
      for (auto &a : f.args()) if (isI(a.getType())) hasInt = true;
      if (hasInt) {
        Value *arr = B.CreateCall(fn("__sx_enter", P, {P}), {&f});
        unsigned idx = 0;
        for (auto &a : f.args()) if (isI(a.getType())) {
          sh[&a] = B.CreateLoad(I32, B.CreateGEP(I32, arr, ConstantInt::get(I64, idx)));
          idx++;
        }
      }
      // function coverage
      B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstGEP2_64(cov->getValueType(), cov, 0, covidx));
      for (auto I : ins) if (auto al = dyn_cast<AllocaInst>(I)) if (al->isStaticAlloca() && al->getParent() == &EB) {
        auto sz = al->getAllocationSize(M.getDataLayout());
        if (sz) {
          IRBuilder<> BA(ip);
          BA.CreateCall(fn("__sx_clear", V, {P, I64}), {al, ConstantInt::get(I64, sz->getFixedValue())});
        }
      }
    }
    // phis first
    for (auto I : ins) if (auto p = dyn_cast<PHINode>(I)) if (isI(p->getType())) {
      IRBuilder<> PB(p);
      auto np = PB.CreatePHI(I32, p->getNumIncomingValues());
      sh[p] = np; phis.push_back({p, np});
    }
    for (auto I : ins) visit(I);
    for (auto &[p, np] : phis)
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) np->addIncoming(shadow(p->getIncomingValue(i)), p->getIncomingBlock(i));
    for (auto I : dead) I->eraseFromParent();
  }

  // bookkeeping of the profiler's timers is left alone
  std::set<Value*> ticks;
  bool isTick(Value *v) {
    if (auto l = dyn_cast<LoadInst>(v)) if (auto g = dyn_cast<GlobalVariable>(l->getPointerOperand())) return g->getName() == "_ZN6ngcore16seconds_per_tickE";
    return ticks.count(v) > 0; }

  void visit(Instruction *I) {
    Type *t = I->getType();
    if (t->isDoubleTy() && (isa<BinaryOperator>(I) || isa<IntrinsicInst>(I))) for (auto &o : I->operands()) if (isTick(o)) { ticks.insert(I); return; }
    IRBuilder<> B(I);
    if (auto bo = dyn_cast<BinaryOperator>(I)) {
      if (isD(t) || isVD(t)) {
        const char *n = nullptr;
        switch (bo->getOpcode()) {
          case Instruction::FAdd: n = "__sx_fadd"; break;
          case Instruction::FSub: n = "__sx_fsub"; break;
          case Instruction::FMul: n = "__sx_fmul"; break;
          case Instruction::FDiv: n = "__sx_fdiv"; break;
          default: break;
        }
        if (n) repl(I, lanes(B, t, {bo->getOperand(0), bo->getOperand(1)}, [&](IRBuilder<> &b, ArrayRef<Value*> a) { return callD(b, n, a); }));
        else { checkD(B, bo->getOperand(0), "frem"); checkD(B, bo->getOperand(1), "frem"); }
        return;
      }
      if (isI(t)) {
        Value *a = bo->getOperand(0), *b = bo->getOperand(1);
        auto op = bo->getOpcode();
        if (zero(shadow(a)) && zero(shadow(b))) return;
        switch (op) {
          case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
          case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            conc(I, 1); b = bo->getOperand(1); break;
          default: break;
        }
        I->dropPoisonGeneratingFlags();
        Value *s = B.CreateCall(fn("__sx_ibin", I32, {I32, I32, I64, I32, I64, I32}),
          {ConstantInt::get(I32, op), bitsOf(t), to64(B, a), shadow(a), to64(B, b), shadow(b)});
        sh[I] = s;
        return;
      }
      return;
    }
    if (auto u = dyn_cast<UnaryOperator>(I)) {
      if (u->getOpcode() == Instruction::FNeg && (isD(t) || isVD(t)))
        repl(I, lanes(B, t, {u->getOperand(0)}, [&](IRBuilder<> &b, ArrayRef<Value*> a) { return callD(b, "__sx_fneg", a); }));
      return;
    }
    if (auto fc = dyn_cast<FCmpInst>(I)) {
      Type *ot = fc->getOperand(0)->getType();
      if (isD(ot) || isVD(ot)) {
        auto f = [&](IRBuilder<> &b, ArrayRef<Value*> a) -> Value* {
          return b.CreateTrunc(b.CreateCall(fn("__sx_fcmp", I8, {I32, D, D}), {ConstantInt::get(I32, fc->getPredicate()), a[0], a[1]}), I1); };
        repl(I, lanes(B, ot, {fc->getOperand(0), fc->getOperand(1)}, f, I1));
      }
      return;
    }
    if (auto ic = dyn_cast<ICmpInst>(I)) {
      Value *a = ic->getOperand(0), *b = ic->getOperand(1);
      if (isI(a->getType())) {
        if (zero(shadow(a)) && zero(shadow(b))) return;
        // the icmp value itself is replaced
        repl(I, icmp(B, ic->getPredicate(), a, b));
      }
      return;
    }
    if (isa<PHINode>(I)) return;
    if (auto ci = dyn_cast<CastInst>(I)) {
      Value *s = ci->getOperand(0); Type *st = s->getType();
      switch (ci->getOpcode()) {
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
          if (isI(st)) {
            if (zero(shadow(s))) return;
            I->dropPoisonGeneratingFlags();
            if (isI(t)) { sh[I] = B.CreateCall(fn("__sx_icast", I32, {I32, I32, I32, I32}), {ConstantInt::get(I32, ci->getOpcode()), bitsOf(st), bitsOf(t), shadow(s)}); }
            else conc(I, 0);
          }
          return;
        case Instruction::UIToFP: case Instruction::SIToFP:
          conc(I, 0); return;
        case Instruction::FPToSI: case Instruction::FPToUI:
          if (isD(st) && isI(t)) {
            Value *r = B.CreateCall(fn("__sx_fptoi", I64, {D, I32}), {s, bitsOf(t)});
            repl(I, B.CreateTruncOrBitCast(r, t));
          } else checkD(B, s, "fptoi-vec");
          return;
        case Instruction::FPTrunc: checkD(B, s, "fptrunc"); return;
        case Instruction::FPExt: if (isD(st)) checkD(B, s, "fpext"); return;
        case Instruction::IntToPtr: conc(I, 0); return;
        case Instruction::BitCast:
          if (isI(st) && !isI(t)) conc(I, 0);
          return;
        default: return;
      }
    }
    if (auto s = dyn_cast<SelectInst>(I)) {
      if (isI(t)) {
        Value *a = shadow(s->getTrueValue()), *b = shadow(s->getFalseValue());
        if (zero(a) && zero(b)) return;
        IRBuilder<> A(I->getNextNode());
        sh[I] = A.CreateSelect(s->getCondition(), a, b);
      }
      return;
    }
    if (auto fz = dyn_cast<FreezeInst>(I)) { if (isI(t)) sh[I] = shadow(fz->getOperand(0)); return; }
    if (auto l = dyn_cast<LoadInst>(I)) {
      if (isI(t) && t->getIntegerBitWidth() % 8 == 0) {
        IRBuilder<> A(I->getNextNode());
        sh[I] = A.CreateCall(fn("__sx_iload", I32, {P, I32}), {l->getPointerOperand(), ConstantInt::get(I32, t->getIntegerBitWidth() / 8)});
      } else if (!isD(t) && !isVD(t) && !t->isPointerTy()) {
        uint64_t sz = M.getDataLayout().getTypeStoreSize(t);
        B.CreateCall(fn("__sx_memconc", V, {P, I64}), {l->getPointerOperand(), ConstantInt::get(I64, sz)});
      }
      return;
    }
    if (auto s = dyn_cast<StoreInst>(I)) {
      Value *v = s->getValueOperand(); Type *vt = v->getType();
      if (isI(vt) && vt->getIntegerBitWidth() % 8 == 0) {
        IRBuilder<> A(I->getNextNode());
        A.CreateCall(fn("__sx_istore", V, {P, I32, I64, I32}), {s->getPointerOperand(), ConstantInt::get(I32, vt->getIntegerBitWidth() / 8), to64(A, v), shadow(v)});
      } else {
        uint64_t sz = M.getDataLayout().getTypeStoreSize(vt);
        B.CreateCall(fn("__sx_clear", V, {P, I64}), {s->getPointerOperand(), ConstantInt::get(I64, sz)});
      }
      return;
    }
    if (auto g = dyn_cast<GetElementPtrInst>(I)) {
      for (unsigned k = 1; k < g->getNumOperands(); k++) conc(I, k);
      return;
    }
    if (auto sw = dyn_cast<SwitchInst>(I)) { conc(sw, 0); return; }
    if (auto al = dyn_cast<AllocaInst>(I)) { conc(al, 0); return; }
    if (auto r = dyn_cast<ReturnInst>(I)) {
      if (r->getReturnValue() && isI(r->getReturnValue()->getType())) {
        Value *s = shadow(r->getReturnValue());
        if (!zero(s)) B.CreateCall(fn("__sx_ret", V, {P, I32}), {F, s});
      }
      return;
    }
    if (isa<InsertValueInst>(I) || isa<InsertElementInst>(I)) { conc(I, 1); if (isa<InsertElementInst>(I)) conc(I, 2); return; }
    if (isa<ExtractElementInst>(I)) { conc(I, 1); return; }
    if (auto a = dyn_cast<AtomicRMWInst>(I)) {
      conc(I, 1);
      IRBuilder<> B2(I);
      uint64_t sz = M.getDataLayout().getTypeStoreSize(a->getValOperand()->getType());
      B2.CreateCall(fn("__sx_memconc", V, {P, I64}), {a->getPointerOperand(), ConstantInt::get(I64, sz)});
      if (isD(a->getValOperand()->getType()) && a->getOperation() != AtomicRMWInst::Xchg) {
        // atomic double add: single threaded engine -> plain sequence
        Value *old = B2.CreateLoad(D, a->getPointerOperand());
        const char *n = a->getOperation() == AtomicRMWInst::FAdd ? "__sx_fadd" : a->getOperation() == AtomicRMWInst::FSub ? "__sx_fsub" : a->getOperation() == AtomicRMWInst::FMax ? "__sx_fmax" : "__sx_fmin";
        B2.CreateStore(callD(B2, n, {old, a->getValOperand()}), a->getPointerOperand());
        repl(I, old);
      }
      return;
    }
    if (auto a = dyn_cast<AtomicCmpXchgInst>(I)) {
      conc(I, 1); conc(I, 2);
      IRBuilder<> B2(I);
      uint64_t sz = M.getDataLayout().getTypeStoreSize(a->getNewValOperand()->getType());
      B2.CreateCall(fn("__sx_memconc", V, {P, I64}), {a->getPointerOperand(), ConstantInt::get(I64, sz)});
      return;
    }
    if (auto cb = dyn_cast<CallBase>(I)) { doCall(cb); return; }
  }
};

struct SXPass : PassInfoMixin<SXPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    SX sx(M); uint64_t ptrs_n = 0;
    std::vector<Function*> fs;
    for (auto &f : M) if (!f.isDeclaration() && !f.getName().starts_with("__sx_") && !f.hasAvailableExternallyLinkage() && !f.hasFnAttribute(Attribute::Naked)) fs.push_back(&f);
    {
      auto *ct = ArrayType::get(sx.I8, fs.size() + 1);
      sx.cov = new GlobalVariable(M, ct, false, GlobalValue::InternalLinkage, ConstantAggregateZero::get(ct), "__sx_cov");
    }
    for (auto f : fs) {
      sx.covidx = ptrs_n++;
      f->removeFnAttr(Attribute::Memory); f->removeFnAttr(Attribute::NoSync); f->removeFnAttr(Attribute::WillReturn);
      for (auto &a : f->args()) { a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::WriteOnly); }
      sx.run(*f);
    }
    // registration table of instrumented functions
    LLVMContext &C = M.getContext();
    Type *P = PointerType::getUnqual(C); Type *I64 = Type::getInt64Ty(C);
    // group by comdat: a comdat function of another module may be chosen; the address is the same symbol
    std::vector<Constant*> ptrs;
    for (auto f : fs) {
      std::string nm = f->getName().str();
      Constant *s = ConstantDataArray::getString(C, nm);
      auto *gv = new GlobalVariable(M, s->getType(), true, GlobalValue::PrivateLinkage, s, "sxn");
      ptrs.push_back(f); ptrs.push_back(gv);
    }
    auto *AT = ArrayType::get(P, ptrs.size());
    auto *tab = new GlobalVariable(M, AT, true, GlobalValue::InternalLinkage, ConstantArray::get(AT, ptrs), "__sx_table");
    Function *ctor = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::InternalLinkage, "__sx_modctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
    B.CreateCall(M.getOrInsertFunction("__sx_register", FunctionType::get(Type::getVoidTy(C), {P, I64, P}, false)), {tab, ConstantInt::get(I64, fs.size()), sx.cov});
    B.CreateRetVoid();
    appendToGlobalCtors(M, ctor, 0);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SXPass()); });
  }};
}
