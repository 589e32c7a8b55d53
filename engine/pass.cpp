// symx: instruments every function of a (linked) module for concolic execution.
// Each SSA value gets a shadow (ptr, null = concrete) per scalar leaf.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/ValueHandle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static cl::opt<std::string> SrcPrefix("symx-src", cl::init("/repo/src/"), cl::desc("source prefix of code under test"));
static cl::opt<std::string> KeepSyms("symx-keep", cl::init(""), cl::desc("comma separated symbols kept external"));

namespace {
typedef SmallVector<Value *, 2> Leaves;
const unsigned MAXARGS = 64, MAXRET = 16;

struct RT {
  Module &M;
  LLVMContext &C;
  Type *Void, *I1, *I8, *I32, *I64;
  PointerType *P;
  Constant *Null;
  GlobalVariable *Args, *Callee, *Ret, *RetTok, *Cov;
  FunctionCallee bin, cmp, cast, concretize, load, store, clear, gep, select, branch, memcpy_, memset_, native_ptr,
      native_call, ext, cat, byval, minmax, ovf, bswap, addrchk, indirect, icallarg, fshl_, satop;
  RT(Module &M) : M(M), C(M.getContext()) {
    Void = Type::getVoidTy(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    P = PointerType::get(C, 0); Null = ConstantPointerNull::get(P);
    auto gv = [&](const char *n, Type *T) { return cast_or_null<GlobalVariable>(M.getOrInsertGlobal(n, T)); };
    Args = gv("__sx_args", ArrayType::get(P, MAXARGS));
    Callee = gv("__sx_callee", P);
    Ret = gv("__sx_ret", ArrayType::get(P, MAXRET));
    RetTok = gv("__sx_rettok", P);
    Cov = gv("__sx_cov", P);
    auto fn = [&](const char *n, Type *R, std::initializer_list<Type *> A) { return M.getOrInsertFunction(n, FunctionType::get(R, ArrayRef<Type *>(A.begin(), A.size()), false)); };
    bin = fn("__sx_bin", P, {I32, I32, P, P, I64, I64});
    cmp = fn("__sx_cmp", P, {I32, I32, P, P, I64, I64});
    cast = fn("__sx_cast", P, {I32, I32, I32, P});
    concretize = fn("__sx_concretize", Void, {P, I64});
    load = fn("__sx_load", P, {P, P, I32, I32});
    store = fn("__sx_store", Void, {P, P, P, I32, I64});
    clear = fn("__sx_clear", Void, {P, I64});
    gep = fn("__sx_gep", P, {P, I64, P, I64, I64});
    select = fn("__sx_select", P, {I32, P, I64, P, I64, P, I64});
    branch = fn("__sx_branch", Void, {P, I64, I32});
    memcpy_ = fn("__sx_memcpy", Void, {P, P, P, P, P, I64});
    memset_ = fn("__sx_memset", Void, {P, P, P, I64, P, I64});
    native_ptr = fn("__sx_native_ptr", Void, {P, P});
    native_call = fn("__sx_native_call", Void, {P});
    ext = fn("__sx_extract", P, {P, I32, I32, I64});
    cat = fn("__sx_concat", P, {P, P, I32, I32, I64, I64});
    byval = fn("__sx_byval", Void, {P, P, I64});
    minmax = fn("__sx_minmax", P, {I32, I32, P, P, I64, I64});
    ovf = fn("__sx_ovf", P, {I32, I32, P, P, P, I64, I64, I64});
    indirect = fn("__sx_indirect", Void, {P, P});
    icallarg = fn("__sx_icallarg", Void, {P, P, I64, I32});
  }
};

struct FnInst {
  RT &R;
  Function &F;
  const DataLayout &DL;
  std::map<Value *, Leaves> S;
  static unsigned &site() { static unsigned s = 0; return s; }
  FnInst(RT &R, Function &F) : R(R), F(F), DL(F.getParent()->getDataLayout()) {}

  static unsigned nleaves(Type *T) {
    if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) return 0;
    if (auto *ST = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *E : ST->elements()) n += nleaves(E); return n; }
    if (auto *AT = dyn_cast<ArrayType>(T)) return AT->getNumElements() * nleaves(AT->getElementType());
    if (auto *VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements();
    return 1;
  }
  unsigned leafIndex(Type *T, ArrayRef<unsigned> Idx, Type *&Sub) {
    unsigned off = 0;
    for (unsigned i : Idx) {
      if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) off += nleaves(ST->getElementType(k)); T = ST->getElementType(i); }
      else { auto *AT = dyn_cast<ArrayType>(T); T = AT->getElementType(); off += i * nleaves(T); }
    }
    Sub = T; return off;
  }
  Leaves get(Value *V) {
    auto it = S.find(V);
    if (it != S.end()) return it->second;
    Leaves L; unsigned n = nleaves(V->getType());
    for (unsigned i = 0; i < n; i++) L.push_back(R.Null);
    return L;
  }
  Value *get1(Value *V) { Leaves L = get(V); return L.empty() ? (Value *)R.Null : L[0]; }
  bool isNull(Value *s) { return s == R.Null; }
  bool allNull(const Leaves &L) { for (auto *v : L) if (!isNull(v)) return false; return true; }
  static bool isScalar(Type *T) { return T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy(); }
  unsigned width(Type *T) { if (T->isPointerTy()) return 64; return T->getPrimitiveSizeInBits(); }
  bool wide(Type *T) { return width(T) > 64; }
  Value *val64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, R.I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, R.I32), R.I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, R.I64);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(V, R.I64);
    if (T->isHalfTy() || T->isBFloatTy()) return B.CreateZExt(B.CreateBitCast(V, Type::getInt16Ty(R.C)), R.I64);
    return ConstantInt::get(R.I64, 0);
  }
  Value *i32(unsigned v) { return ConstantInt::get(R.I32, v); }
  Value *i64(uint64_t v) { return ConstantInt::get(R.I64, v); }
  void conc(IRBuilder<> &B, Value *V) {  // concretize all leaves of V
    Leaves L = get(V);
    if (allNull(L)) return;
    if (isScalar(V->getType())) {
      if (!isNull(L[0])) B.CreateCall(R.concretize, {L[0], wide(V->getType()) ? i64(0) : val64(B, V)});
    } else for (auto *l : L) if (!isNull(l)) B.CreateCall(R.concretize, {l, i64(~0ull)});
  }
  // scalar elements of a vector / scalar value
  SmallVector<Value *, 4> elems(IRBuilder<> &B, Value *V) {
    SmallVector<Value *, 4> E;
    if (auto *VT = dyn_cast<FixedVectorType>(V->getType())) for (unsigned i = 0; i < VT->getNumElements(); i++) E.push_back(B.CreateExtractElement(V, (uint64_t)i));
    else E.push_back(V);
    return E;
  }
  void setAll(Instruction *I, Leaves L) { S[I] = L; }

  void leafOffsets(Type *T, uint64_t off, SmallVectorImpl<std::pair<uint64_t, Type *>> &Out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) leafOffsets(ST->getElementType(i), off + SL->getElementOffset(i), Out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL.getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++) leafOffsets(AT->getElementType(), off + i * es, Out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL.getTypeStoreSize(VT->getElementType());
      for (unsigned i = 0; i < VT->getNumElements(); i++) Out.push_back({off + i * es, VT->getElementType()});
    } else Out.push_back({off, T});
  }

  Leaves doLoad(IRBuilder<> &B, Value *Ptr, Type *T) {
    Leaves L;
    SmallVector<std::pair<uint64_t, Type *>, 4> O;
    leafOffsets(T, 0, O);
    Value *sa = get1(Ptr);
    bool first = true;
    for (auto &o : O) {
      Value *A = o.first ? B.CreateConstGEP1_64(R.I8, Ptr, o.first) : Ptr;
      unsigned w = width(o.second);
      L.push_back(B.CreateCall(R.load, {first ? sa : (Value *)R.Null, A, i32(DL.getTypeStoreSize(o.second)), i32(w)}));
      first = false;
    }
    return L;
  }
  void doStore(IRBuilder<> &B, Value *Ptr, Value *V) {
    Type *T = V->getType();
    SmallVector<std::pair<uint64_t, Type *>, 4> O;
    leafOffsets(T, 0, O);
    Leaves L = get(V);
    Value *sa = get1(Ptr);
    bool first = true; unsigned k = 0;
    for (auto &o : O) {
      Value *A = o.first ? B.CreateConstGEP1_64(R.I8, Ptr, o.first) : Ptr;
      B.CreateCall(R.store, {first ? sa : (Value *)R.Null, A, L[k], i32(DL.getTypeStoreSize(o.second)), i64(width(o.second))});
      first = false; k++;
    }
  }

  static bool ignorable(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::stacksave: case Intrinsic::trap: case Intrinsic::donothing: case Intrinsic::eh_typeid_for:
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::prefetch: return true;
    default: return false;
    }
  }

  void doIntrinsic(IntrinsicInst *II) {
    IRBuilder<> B(II);
    IRBuilder<> A(II->getNextNode() ? II->getNextNode() : II);
    auto id = II->getIntrinsicID();
    if (ignorable(id)) return;
    if (auto *MT = dyn_cast<MemTransferInst>(II)) {
      Value *d = MT->getDest(), *s = MT->getSource(), *n = MT->getLength();
      B.CreateCall(R.memcpy_, {get1(d), d, get1(s), s, get1(n), B.CreateZExtOrTrunc(n, R.I64)});
      return;
    }
    if (auto *MS = dyn_cast<MemSetInst>(II)) {
      Value *d = MS->getDest(), *v = MS->getValue(), *n = MS->getLength();
      B.CreateCall(R.memset_, {get1(d), d, get1(v), B.CreateZExt(v, R.I64), get1(n), B.CreateZExtOrTrunc(n, R.I64)});
      return;
    }
    Type *T = II->getType();
    auto two = [&](int kind) {
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
      if (!T->isIntegerTy() || wide(T)) { conc(B, a); conc(B, b); return; }
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return;
      S[II] = Leaves{B.CreateCall(R.minmax, {i32(kind), i32(width(T)), sa, sb, val64(B, a), val64(B, b)})};
    };
    switch (id) {
    case Intrinsic::expect: S[II] = get(II->getArgOperand(0)); return;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: S[II] = get(II->getArgOperand(0)); return;
    case Intrinsic::umin: two(0); return;
    case Intrinsic::umax: two(1); return;
    case Intrinsic::smin: two(2); return;
    case Intrinsic::smax: two(3); return;
    case Intrinsic::usub_sat: two(4); return;
    case Intrinsic::uadd_sat: two(5); return;
    case Intrinsic::abs: {
      Value *a = II->getArgOperand(0);
      if (!T->isIntegerTy() || wide(T)) { conc(B, a); return; }
      Value *sa = get1(a); if (isNull(sa)) return;
      S[II] = Leaves{B.CreateCall(R.minmax, {i32(6), i32(width(T)), sa, (Value *)R.Null, val64(B, a), i64(0)})};
      return;
    }
    case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: break;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
      Type *AT = a->getType();
      if (!AT->isIntegerTy() || wide(AT)) { conc(B, a); conc(B, b); return; }
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return;
      int op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
               : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      bool sg = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow);
      Value *va = val64(B, a), *vb = val64(B, b);
      Value *r = B.CreateCall(R.bin, {i32(op), i32(width(AT)), sa, sb, va, vb});
      Value *rv = sg ? (Value *)i64(1) : (Value *)i64(0);
      Value *o = B.CreateCall(R.ovf, {i32(op), i32(width(AT)), sa, sb, r, va, vb, rv});
      S[II] = Leaves{r, o};
      return;
    }
    default: break;
    }
    for (auto &U : II->args()) { Value *V = U.get(); if (!V->getType()->isMetadataTy()) conc(B, V); }
    (void)A;
  }

  // names of native functions that neither read symbolic data through pointers nor produce it
  static bool safeNative(StringRef N) {
    static const char *pre[] = {"_Znw", "_Zna", "_Zdl", "_Zda", "__cxa_", "__gxx_", "_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt29_Rb_tree_", "_ZSt20_Rb_tree", "_ZSt17__throw_", "_ZSt19__throw_", "_ZSt20__throw", "_ZSt16__throw_",
        "_ZSt21__throw", "_ZSt24__throw_", "_ZSt25__throw_", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash_policy", "_ZNSt8__detail20_Prime", "__sx_", "_Unwind", "_ZSt9terminatev", "__clang_call_terminate", "abort", "exit", "free", "malloc", "calloc", "realloc",
        "sym_", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZSt15get_new_handler", "__errno_location", "_ZSt8_Rb_tree", "pthread_", "__tls", "_ZNSt9exceptionD", "_ZNKSt9exception", "_ZNSt11logic_errorD", "_ZNSt13runtime_errorD", "_ZTH", "_ZTW",
        "_ZSt18uncaught_exception", "_ZSt19uncaught_exception", "clock", "time", "_ZNSt6chrono", "_ZSt22__throw", "_ZSt23__throw"};
    for (auto *p : pre) if (N.starts_with(p)) return true;
    return false;
  }

  void doCall(CallBase *CB) {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { doIntrinsic(II); return; }
    IRBuilder<> B(CB);
    Type *RTy = CB->getType();
    unsigned rn = nleaves(RTy);
    if (CB->isInlineAsm()) { for (auto &U : CB->args()) conc(B, U.get()); return; }
    Function *Cal = CB->getCalledFunction();
    if (!Cal) Cal = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    Value *CalV = CB->getCalledOperand();
    if (Cal && Cal->isDeclaration()) {
      StringRef N = Cal->getName();
      if (N.starts_with("__sx_sym_")) return;
      // functions of the harness API taking shadows are handled through the args array
      if (N.starts_with("sym_")) {
        unsigned k = 0;
        B.CreateStore(Cal, R.Callee);
        for (auto &U : CB->args()) { Leaves L = get(U.get()); for (auto *l : L) { if (k < MAXARGS) B.CreateStore(l, B.CreateConstGEP2_64(R.Args->getValueType(), R.Args, 0, k)); k++; } }
        if (rn) afterRet(CB, Cal, rn);
        return;
      }
      for (auto &U : CB->args()) conc(B, U.get());
      if (!safeNative(N)) {
        Value *nm = B.CreateGlobalStringPtr(N, "", 0, F.getParent());
        B.CreateCall(R.native_call, {nm});
        for (auto &U : CB->args()) if (U.get()->getType()->isPointerTy() && !isa<Constant>(U.get())) B.CreateCall(R.native_ptr, {U.get(), nm});
      }
      return;
    }
    if (!Cal) { conc(B, CalV); }
    unsigned k = 0, a = 0;
    if (!Cal) B.CreateCall(R.indirect, {CalV, (Value *)R.Null});
    B.CreateStore(CalV, R.Callee);
    for (auto &U : CB->args()) {
      Value *V = U.get();
      if (CB->isByValArgument(a)) { if (k < MAXARGS) B.CreateStore(V, B.CreateConstGEP2_64(R.Args->getValueType(), R.Args, 0, k)); k++; }
      else {
        Leaves L = get(V);
        for (auto *l : L) {
          if (k < MAXARGS) B.CreateStore(l, B.CreateConstGEP2_64(R.Args->getValueType(), R.Args, 0, k));
          else if (!isNull(l)) B.CreateCall(R.concretize, {l, i64(~0ull)});
          k++;
        }
        if (!Cal && isScalar(V->getType())) {
          // may turn out to be a native function
          if (!isNull(L[0]) || V->getType()->isPointerTy())
            B.CreateCall(R.icallarg, {CalV, L[0], wide(V->getType()) ? i64(0) : val64(B, V), i32(V->getType()->isPointerTy() ? 1 : 0)});
        }
      }
      a++;
    }
    if (rn) afterRet(CB, CalV, rn);
  }
  std::vector<std::tuple<CallBase *, Value *, unsigned>> Post;
  void afterRet(CallBase *CB, Value *CalV, unsigned rn) {
    if (rn > MAXRET) return;
    Instruction *At;
    if (auto *Inv = dyn_cast<InvokeInst>(CB)) At = &*Inv->getNormalDest()->getFirstInsertionPt();
    else At = CB->getNextNode();
    IRBuilder<> B(At);
    Value *tok = B.CreateLoad(R.P, R.RetTok);
    Value *ok = B.CreateICmpEQ(tok, CalV);
    Leaves L;
    for (unsigned i = 0; i < rn; i++) {
      Value *v = B.CreateLoad(R.P, B.CreateConstGEP2_64(R.Ret->getValueType(), R.Ret, 0, i));
      L.push_back(B.CreateSelect(ok, v, R.Null));
    }
    B.CreateStore(R.Null, R.RetTok);
    S[CB] = L;
  }

  void inst(Instruction *I) {
    IRBuilder<> B(I);
    Type *T = I->getType();
    switch (I->getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Alloca: {
      auto *AI = dyn_cast<AllocaInst>(I);
      IRBuilder<> A(I->getNextNode());
      if (!isa<ConstantInt>(AI->getArraySize())) conc(B, AI->getArraySize());
      uint64_t es = DL.getTypeAllocSize(AI->getAllocatedType());
      Value *n = isa<ConstantInt>(AI->getArraySize()) ? (Value *)i64(es * cast<ConstantInt>(AI->getArraySize())->getZExtValue())
                                                       : A.CreateMul(A.CreateZExtOrTrunc(AI->getArraySize(), R.I64), i64(es));
      A.CreateCall(R.clear, {AI, n});
      return;
    }
    case Instruction::Load: {
      auto *LI = cast<LoadInst>(I);
      S[I] = doLoad(B, LI->getPointerOperand(), T);
      return;
    }
    case Instruction::Store: {
      auto *SI = cast<StoreInst>(I);
      doStore(B, SI->getPointerOperand(), SI->getValueOperand());
      return;
    }
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I);
      bool any = false;
      for (auto &U : G->operands()) { Leaves L = get(U.get()); if (!allNull(L)) any = true; }
      if (!any) return;
      if (!T->isPointerTy()) { for (auto &U : G->operands()) conc(B, U.get()); return; }
      Value *sc = get1(G->getPointerOperand());
      Value *vc = B.CreatePtrToInt(G->getPointerOperand(), R.I64);
      for (auto GTI = gep_type_begin(G); GTI != gep_type_end(G); ++GTI) {
        Value *Ix = GTI.getOperand();
        if (auto *ST = GTI.getStructTypeOrNull()) {
          uint64_t o = DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Ix)->getZExtValue());
          sc = B.CreateCall(R.gep, {sc, vc, (Value *)R.Null, i64(o), i64(1)});
          vc = B.CreateAdd(vc, i64(o));
        } else {
          uint64_t es = DL.getTypeAllocSize(GTI.getIndexedType());
          Value *iv = B.CreateSExtOrTrunc(Ix, R.I64);
          Value *si = get1(Ix);
          if (!isNull(si) && width(Ix->getType()) < 64) si = B.CreateCall(R.cast, {i32(Instruction::SExt), i32(width(Ix->getType())), i32(64), si});
          sc = B.CreateCall(R.gep, {sc, vc, si, iv, i64(es)});
          vc = B.CreateAdd(vc, B.CreateMul(iv, i64(es)));
        }
      }
      S[I] = Leaves{sc};
      return;
    }
    case Instruction::ICmp: {
      auto *CI = cast<ICmpInst>(I);
      Value *a = CI->getOperand(0), *b = CI->getOperand(1);
      Leaves la = get(a), lb = get(b);
      if (allNull(la) && allNull(lb)) return;
      Type *ET = a->getType()->getScalarType();
      if (wide(ET)) { conc(B, a); conc(B, b); return; }
      auto ea = elems(B, a), eb = elems(B, b);
      Leaves L;
      for (unsigned i = 0; i < la.size(); i++) L.push_back(B.CreateCall(R.cmp, {i32(CI->getPredicate()), i32(width(ET)), la[i], lb[i], val64(B, ea[i]), val64(B, eb[i])}));
      S[I] = L;
      return;
    }
    case Instruction::FCmp: case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
      for (auto &U : I->operands()) conc(B, U.get());
      return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      Value *a = I->getOperand(0);
      Leaves la = get(a);
      if (allNull(la)) return;
      Type *ST = a->getType()->getScalarType(), *DT = T->getScalarType();
      if (wide(ST) || wide(DT)) { conc(B, a); return; }
      Leaves L;
      for (auto *l : la) L.push_back(B.CreateCall(R.cast, {i32(I->getOpcode()), i32(width(ST)), i32(width(DT)), l}));
      S[I] = L;
      return;
    }
    case Instruction::PtrToInt: {
      Value *a = I->getOperand(0);
      Value *s = get1(a);
      if (!isScalar(T)) { conc(B, a); return; }
      if (isNull(s)) return;
      if (wide(T)) { conc(B, a); return; }
      if (width(T) < 64) s = B.CreateCall(R.cast, {i32(Instruction::Trunc), i32(64), i32(width(T)), s});
      S[I] = Leaves{s};
      return;
    }
    case Instruction::IntToPtr: {
      Value *a = I->getOperand(0);
      Value *s = get1(a);
      if (!isScalar(T)) { conc(B, a); return; }
      if (isNull(s)) return;
      if (wide(a->getType())) { conc(B, a); return; }
      if (width(a->getType()) < 64) s = B.CreateCall(R.cast, {i32(Instruction::ZExt), i32(width(a->getType())), i32(64), s});
      S[I] = Leaves{s};
      return;
    }
    case Instruction::AddrSpaceCast: case Instruction::Freeze: S[I] = get(I->getOperand(0)); return;
    case Instruction::BitCast: {
      Value *a = I->getOperand(0);
      Leaves la = get(a);
      if (allNull(la)) return;
      if (isScalar(T) && isScalar(a->getType())) { if (wide(T)) conc(B, a); else S[I] = la; return; }
      unsigned total = DL.getTypeSizeInBits(T);
      if (total > 64) { conc(B, a); return; }
      // go through one scalar of `total` bits
      Type *IT = IntegerType::get(R.C, total);
      Value *whole = isScalar(a->getType()) && a->getType()->isIntegerTy() ? a : B.CreateBitCast(a, IT);
      Value *ws;
      if (isScalar(a->getType())) ws = la[0];
      else {
        unsigned ew = width(a->getType()->getScalarType());
        auto ea = elems(B, a);
        ws = la[0]; Value *wv = val64(B, ea[0]); unsigned w = ew;
        for (unsigned i = 1; i < la.size(); i++) {
          Value *ev = val64(B, ea[i]);
          ws = B.CreateCall(R.cat, {la[i], ws, i32(ew), i32(w), ev, wv});
          wv = B.CreateOr(wv, B.CreateShl(ev, i64(w))); w += ew;
        }
      }
      if (isScalar(T)) { S[I] = Leaves{ws}; return; }
      unsigned ew = width(T->getScalarType());
      Leaves L; unsigned n = nleaves(T);
      for (unsigned i = 0; i < n; i++) L.push_back(B.CreateCall(R.ext, {ws, i32(i * ew), i32(ew), val64(B, whole)}));
      S[I] = L;
      return;
    }
    case Instruction::Select: {
      Value *c = I->getOperand(0), *a = I->getOperand(1), *b = I->getOperand(2);
      Leaves lc = get(c), la = get(a), lb = get(b);
      if (allNull(lc) && allNull(la) && allNull(lb)) return;
      if (allNull(lc) && lc.size() == 1) {
        Leaves L;
        for (unsigned i = 0; i < la.size(); i++) L.push_back(B.CreateSelect(c, la[i], lb[i]));
        S[I] = L; return;
      }
      if (!(isScalar(T) || isa<FixedVectorType>(T)) || wide(T->getScalarType())) {
        // aggregate select on a symbolic condition: decide the condition
        conc(B, c);
        Leaves L;
        for (unsigned i = 0; i < la.size(); i++) L.push_back(B.CreateSelect(c, la[i], lb[i]));
        S[I] = L; return;
      }
      auto ec = elems(B, c), ea = elems(B, a), eb = elems(B, b);
      Leaves L;
      for (unsigned i = 0; i < la.size(); i++) {
        unsigned k = lc.size() == 1 ? 0 : i;
        L.push_back(B.CreateCall(R.select, {i32(width(T->getScalarType())), lc[k], val64(B, ec[k]), la[i], val64(B, ea[i]), lb[i], val64(B, eb[i])}));
      }
      S[I] = L;
      return;
    }
    case Instruction::ExtractValue: {
      auto *EV = cast<ExtractValueInst>(I);
      Leaves la = get(EV->getAggregateOperand());
      Type *Sub; unsigned o = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices(), Sub);
      Leaves L; for (unsigned i = 0; i < nleaves(T); i++) L.push_back(la[o + i]);
      S[I] = L; return;
    }
    case Instruction::InsertValue: {
      auto *IV = cast<InsertValueInst>(I);
      Leaves la = get(IV->getAggregateOperand()), lv = get(IV->getInsertedValueOperand());
      Type *Sub; unsigned o = leafIndex(T, IV->getIndices(), Sub);
      for (unsigned i = 0; i < lv.size(); i++) la[o + i] = lv[i];
      S[I] = la; return;
    }
    case Instruction::ExtractElement: {
      Value *v = I->getOperand(0), *ix = I->getOperand(1);
      Leaves la = get(v);
      if (allNull(la) && isNull(get1(ix))) return;
      if (auto *CI = dyn_cast<ConstantInt>(ix)) S[I] = Leaves{la[CI->getZExtValue()]};
      else { conc(B, v); conc(B, ix); }
      return;
    }
    case Instruction::InsertElement: {
      Value *v = I->getOperand(0), *e = I->getOperand(1), *ix = I->getOperand(2);
      Leaves la = get(v);
      if (auto *CI = dyn_cast<ConstantInt>(ix)) { la[CI->getZExtValue()] = get1(e); S[I] = la; }
      else { conc(B, v); conc(B, e); conc(B, ix); }
      return;
    }
    case Instruction::ShuffleVector: {
      auto *SV = cast<ShuffleVectorInst>(I);
      Leaves la = get(SV->getOperand(0)), lb = get(SV->getOperand(1));
      Leaves L;
      for (int m : SV->getShuffleMask()) { if (m < 0) L.push_back(R.Null); else if ((unsigned)m < la.size()) L.push_back(la[m]); else L.push_back(lb[m - la.size()]); }
      S[I] = L; return;
    }
    case Instruction::Br: {
      auto *Br = cast<BranchInst>(I);
      if (!Br->isConditional()) return;
      Value *s = get1(Br->getCondition());
      if (isNull(s)) return;
      B.CreateCall(R.branch, {s, B.CreateZExt(Br->getCondition(), R.I64), i32(site()++)});
      return;
    }
    case Instruction::Switch: case Instruction::IndirectBr: conc(B, I->getOperand(0)); return;
    case Instruction::Ret: {
      auto *RI = cast<ReturnInst>(I);
      if (!RI->getReturnValue()) return;
      Leaves L = get(RI->getReturnValue());
      if (L.size() > MAXRET) { conc(B, RI->getReturnValue()); return; }
      B.CreateStore(&F, R.RetTok);
      for (unsigned i = 0; i < L.size(); i++) B.CreateStore(L[i], B.CreateConstGEP2_64(R.Ret->getValueType(), R.Ret, 0, i));
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg:
      for (auto &U : I->operands()) conc(B, U.get());
      B.CreateCall(R.clear, {I->getOperand(0), i64(8)});
      return;
    default:
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        Value *a = BO->getOperand(0), *b = BO->getOperand(1);
        Leaves la = get(a), lb = get(b);
        if (allNull(la) && allNull(lb)) return;
        Type *ET = T->getScalarType();
        if (wide(ET)) { conc(B, a); conc(B, b); return; }
        auto ea = elems(B, a), eb = elems(B, b);
        Leaves L;
        for (unsigned i = 0; i < la.size(); i++) L.push_back(B.CreateCall(R.bin, {i32(BO->getOpcode()), i32(width(ET)), la[i], lb[i], val64(B, ea[i]), val64(B, eb[i])}));
        S[I] = L;
        return;
      }
      return;
    }
  }

  void run() {
    // split invoke edges so that code after an invoke has a place of its own
    std::vector<InvokeInst *> Invs;
    for (auto &BB : F) if (auto *Inv = dyn_cast<InvokeInst>(BB.getTerminator())) Invs.push_back(Inv);
    for (auto *Inv : Invs) if (!Inv->getNormalDest()->getSinglePredecessor() || isa<PHINode>(Inv->getNormalDest()->front())) SplitEdge(Inv->getParent(), Inv->getNormalDest());
    std::vector<Instruction *> Work;
    std::vector<PHINode *> Phis;
    ReversePostOrderTraversal<Function *> RPOT(&F);
    std::set<BasicBlock *> Reach;
    for (BasicBlock *BB : RPOT) { Reach.insert(BB); for (auto &I : *BB) { if (auto *P = dyn_cast<PHINode>(&I)) Phis.push_back(P); else Work.push_back(&I); } }
    // entry: arguments
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      bool any = false; unsigned k = 0;
      for (auto &A : F.args()) { (void)A; any = true; }
      if (any) {
        Value *tok = B.CreateLoad(R.P, R.Callee);
        Value *ok = B.CreateICmpEQ(tok, &F);
        std::vector<std::pair<Argument *, Value *>> bv;
        for (auto &A : F.args()) {
          if (A.hasByValAttr()) {
            if (k < MAXARGS) bv.push_back({&A, B.CreateSelect(ok, B.CreateLoad(R.P, B.CreateConstGEP2_64(R.Args->getValueType(), R.Args, 0, k)), R.Null)});
            k++; continue;
          }
          unsigned n = nleaves(A.getType()); Leaves L;
          for (unsigned i = 0; i < n; i++) {
            if (k < MAXARGS) L.push_back(B.CreateSelect(ok, B.CreateLoad(R.P, B.CreateConstGEP2_64(R.Args->getValueType(), R.Args, 0, k)), R.Null));
            else L.push_back(R.Null);
            k++;
          }
          S[&A] = L;
        }
        B.CreateStore(R.Null, R.Callee);
        for (auto &p : bv) B.CreateCall(R.byval, {p.first, p.second, i64(DL.getTypeAllocSize(p.first->getParamByValType()))});
      }
    }
    for (auto *P : Phis) {
      unsigned n = nleaves(P->getType());
      IRBuilder<> B(&*P->getParent()->getFirstNonPHI());
      Leaves L;
      for (unsigned i = 0; i < n; i++) {
        B.SetInsertPoint(P->getParent(), P->getParent()->begin());
        L.push_back(B.CreatePHI(R.P, P->getNumIncomingValues()));
      }
      S[P] = L;
    }
    for (auto *I : Work) inst(I);
    for (auto *P : Phis) {
      Leaves L = S[P];
      for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
        Leaves in = Reach.count(P->getIncomingBlock(k)) ? get(P->getIncomingValue(k)) : Leaves(L.size(), R.Null);
        for (unsigned i = 0; i < L.size(); i++) cast<PHINode>(L[i])->addIncoming(in[i], P->getIncomingBlock(k));
      }
    }
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    RT R(M);
    std::set<std::string> keep;
    { SmallVector<StringRef, 16> v; StringRef(KeepSyms).split(v, ','); for (auto s : v) keep.insert(s.str()); }
    std::vector<Function *> Fs;
    for (auto &F : M) if (!F.isDeclaration() && !F.getName().starts_with("__sx_")) Fs.push_back(&F);
    // coverage table of blocks whose first located instruction lies in the sources under test
    std::vector<std::string> covNames;
    std::vector<std::pair<WeakTrackingVH, unsigned>> covAt;
    for (auto *F : Fs) {
      auto *SP = F->getSubprogram();
      if (!SP) continue;
      for (auto &BB : *F) {
        for (auto &I : BB) {
          if (isa<PHINode>(I) || isa<LandingPadInst>(I) || isa<DbgInfoIntrinsic>(I)) continue;
          const DILocation *L = I.getDebugLoc();
          if (!L || L->getLine() == 0) continue;
          // attribute to the innermost location
          SmallString<128> fn(L->getFilename());
          if (!fn.starts_with("/") ) { SmallString<128> d(L->getDirectory()); d += "/"; d += fn; fn = d; }
          StringRef fr(fn);
          size_t pos = fr.find(SrcPrefix);
          if (pos == StringRef::npos) break;
          unsigned id = covNames.size();
          std::string fnname = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
          covNames.push_back(fr.substr(pos + SrcPrefix.size()).str() + ":" + std::to_string(L->getLine()) + ":" + fnname);
          covAt.push_back({WeakTrackingVH(&I), id});
          break;
        }
      }
    }
    for (auto *F : Fs) {
      F->removeFnAttr(Attribute::Memory);
      for (auto a : {Attribute::NoUnwind, Attribute::WillReturn, Attribute::NoSync, Attribute::NoFree, Attribute::NoRecurse, Attribute::Speculatable}) if (a != Attribute::NoUnwind) F->removeFnAttr(a);
      F->addFnAttr("no-trapping-math", "true");
      FnInst(R, *F).run();
    }
    for (auto *F : Fs) for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) { CB->removeFnAttr(Attribute::Memory); if (auto *CI = dyn_cast<CallInst>(CB)) CI->setTailCall(false); }
    for (auto &F : M) if (F.isDeclaration() && !F.isIntrinsic()) F.removeFnAttr(Attribute::Memory);
    for (auto &ca : covAt) {
      auto *I = dyn_cast_or_null<Instruction>((Value *)ca.first);
      if (!I || !I->getParent()) continue;
      IRBuilder<> B(I);
      Value *base = B.CreateLoad(R.P, R.Cov);
      B.CreateStore(ConstantInt::get(R.I8, 1), B.CreateConstGEP1_64(R.I8, base, ca.second));
    }
    // table of instrumented functions
    std::vector<Constant *> tab;
    for (auto *F : Fs) tab.push_back(F);
    auto *AT = ArrayType::get(R.P, tab.size());
    new GlobalVariable(M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, tab), "__sx_fntab");
    new GlobalVariable(M, R.I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(R.I64, tab.size()), "__sx_nfn");
    std::string all;
    for (auto &s : covNames) { all += s; all += "\n"; }
    auto *CD = ConstantDataArray::getString(R.C, all);
    new GlobalVariable(M, CD->getType(), true, GlobalValue::ExternalLinkage, CD, "__sx_covnames");
    new GlobalVariable(M, R.I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(R.I64, covNames.size()), "__sx_ncov");
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

// make strong definitions internal, so that what the harness does not reach can be dropped
struct SymInternalize : PassInfoMixin<SymInternalize> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    std::set<std::string> keep{"harness_main", "harness_init", "llvm.global_ctors", "llvm.global_dtors", "llvm.used", "llvm.compiler.used"};
    { SmallVector<StringRef, 16> v; StringRef(KeepSyms).split(v, ','); for (auto s : v) keep.insert(s.str()); }
    for (auto &F : M) if (!F.isDeclaration() && F.hasExternalLinkage() && !keep.count(F.getName().str())) F.setLinkage(GlobalValue::InternalLinkage);
    for (auto &G : M.globals()) if (!G.isDeclaration() && G.hasExternalLinkage() && !keep.count(G.getName().str())) G.setLinkage(GlobalValue::InternalLinkage);
    // models of C library functions must not be taken for the C library's (the optimizer assumes those touch no other memory)
    for (auto &F : M) if (!F.isDeclaration() && F.hasLocalLinkage()) {
      F.addFnAttr(Attribute::NoBuiltin);
      if (!F.getName().starts_with("_Z") && !F.getName().starts_with("_GLOBAL_") && !F.getName().starts_with("__sx_")) F.setName("sxm." + F.getName().str());
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "symx") { MPM.addPass(SymxPass()); return true; }
              if (N == "symint") { MPM.addPass(SymInternalize()); return true; }
              return false;
            });
          }};
}
