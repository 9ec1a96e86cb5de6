// Symbolic executor for LLVM bitcode (produced by rustc from /repo's current source) with Z3.
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
#include <algorithm>
using namespace llvm;
#include "fp.h"

// ------------------------------------------------------------------ globals
static Module *M;
static const DataLayout *DL;
static std::string gEntry, gOut = ".";
static int gJobs = 1, gSamples = 8, gVerbose = 0;
static double gMaxTime = 600;
static uint64_t gSeed = 1, gMaxSteps = 2000000000ull, gMaxEnum = 4096;
static double gT0;
static int gSplit = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Shared {
  volatile long next;          // next seed state to take
  volatile int stop;
  long paths, infeasible, queries, qsat, qunsat, forks, steps, concs, trivial;
  double solver;
  int violations, errors;
  int nsamples;
  volatile int idle;
};
static Shared *SH;
struct Stats { long paths = 0, infeasible = 0, queries = 0, qsat = 0, qunsat = 0, forks = 0, steps = 0, concs = 0, trivial = 0, corehits = 0; double solver = 0; };
static Stats ST;
static std::set<std::string> gCovers;
static std::set<std::string> gAssertsSeen;
static int gWorker = -1;

struct EngineError { std::string msg; };
struct Violation { std::string kind, msg; };
struct PathEnd { bool complete; };
[[noreturn]] static void err(const std::string &m) { throw EngineError{m}; }

// ------------------------------------------------------------------ decoded code
struct Edge { uint32_t target; uint32_t mv, nmv; };
struct Move { int dst, src; uint16_t n; };
struct Leaf { uint64_t off; uint16_t bits; uint16_t bytes; bool fp; };
struct In {
  uint16_t op; uint16_t sub; // LLVM opcode / pseudo, predicate etc
  int dst; uint16_t n; uint16_t w; // flat count and scalar width of result
  int a, b, c;
  uint32_t ops, nops;      // pool range (call args, gep terms, switch cases ...)
  const std::vector<Leaf> *lv;
  const Instruction *I;
};
struct Func {
  const Function *F; std::string name, dem; bool decoded = false; bool hasBody; int ext = -1; bool isPanic = false;
  uint32_t nslots = 0; std::vector<In> code; std::vector<Edge> edges; std::vector<Move> moves; std::vector<int> pool;
  std::vector<std::pair<int, int>> params; // slot, n
  uint64_t calls = 0; uint16_t retN = 0;
  bool executed = false;
};
enum { P_CALL = 200, P_EXT = 201, P_INDIRECT = 202, P_GEP = 203, P_JMP = 204, P_CBR = 205, P_SWITCH = 206, P_INTR = 207, P_NOP = 208 };

static std::vector<Val> CP; // constant pool
static std::map<const Constant *, int> cpIdx;
static std::map<const Function *, Func *> funcs;
static std::vector<Func *> funcList;
static std::map<const GlobalValue *, uint64_t> gAddr;
static const uint64_t FN_BASE = 0x7f00000000000000ull;
static State *gInit;
static State *cur; // state being executed

static std::map<Type *, std::vector<Leaf>> leafCache;
static void leafRec(Type *T, uint64_t off, std::vector<Leaf> &o) {
  if (auto *ST_ = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(ST_);
    for (unsigned i = 0; i < ST_->getNumElements(); i++) leafRec(ST_->getElementType(i), off + SL->getElementOffset(i), o);
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t s = DL->getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); i++) leafRec(AT->getElementType(), off + i * s, o);
    return;
  }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    uint64_t b = DL->getTypeSizeInBits(VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++) {
      Leaf l; l.off = off + i * ((b + 7) / 8); l.bits = b; l.bytes = (b + 7) / 8; l.fp = VT->getElementType()->isFloatingPointTy(); o.push_back(l);
    }
    return;
  }
  Leaf l; l.off = off; l.bits = DL->getTypeSizeInBits(T); l.bytes = DL->getTypeStoreSize(T); l.fp = T->isFloatingPointTy();
  o.push_back(l);
}
static const std::vector<Leaf> &leaves(Type *T) {
  auto it = leafCache.find(T);
  if (it != leafCache.end()) return it->second;
  auto &v = leafCache[T];
  if (!T->isVoidTy()) leafRec(T, 0, v);
  return v;
}
static unsigned flatN(Type *T) { return T->isVoidTy() ? 0 : leaves(T).size(); }
static unsigned flatIndex(Type *T, ArrayRef<unsigned> idx) {
  unsigned o = 0;
  for (unsigned i : idx) {
    if (auto *S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) o += flatN(S->getElementType(j)); T = S->getElementType(i); }
    else { auto *A = cast<ArrayType>(T); o += i * flatN(A->getElementType()); T = A->getElementType(); }
  }
  return o;
}

static Func *getFunc(const Function *F);
static uint64_t constAddr(const Constant *C);
static void flattenConst(const Constant *C, std::vector<Val> &o) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
    for (auto &l : leaves(T)) { if (l.bits > 64) { Val v; v.k = VE; v.w = l.bits; v.e = mkC(0, l.bits); o.push_back(v); } else o.push_back(vc(0, l.bits)); }
    return;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    unsigned w = CI->getBitWidth();
    if (w <= 64) o.push_back(vc(CI->getZExtValue(), w));
    else {
      if (w > 128) err("constant wider than 128 bits");
      const APInt &A = CI->getValue(); u128 v = A.getRawData()[0]; if (A.getNumWords() > 1) v |= (u128)A.getRawData()[1] << 64;
      Val x; x.k = VE; x.w = w; x.e = mkC(v, w); o.push_back(x);
    }
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { o.push_back(vc(CF->getValueAPF().bitcastToAPInt().getZExtValue(), DL->getTypeSizeInBits(T))); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) flattenConst(CD->getElementAsConstant(i), o); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) flattenConst(CA->getOperand(i), o); return; }
  o.push_back(vc(constAddr(C), DL->getTypeSizeInBits(T)));
}
static uint64_t constAddr(const Constant *C) {
  if (auto *GV = dyn_cast<GlobalValue>(C)) {
    if (auto *GA = dyn_cast<GlobalAlias>(GV)) return constAddr(GA->getAliasee());
    if (auto *F = dyn_cast<Function>(GV)) {
      if (F->hasExternalWeakLinkage()) return 0;
      Func *f = getFunc(F);
      for (size_t i = 0; i < funcList.size(); i++) if (funcList[i] == f) return FN_BASE + i * 16;
    }
    auto it = gAddr.find(GV);
    if (it == gAddr.end()) err("no address for global " + GV->getName().str());
    return it->second;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getZExtValue();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt:
      return constAddr(CE->getOperand(0));
    case Instruction::Trunc: return constAddr(CE->getOperand(0)) & (uint64_t)maskw(DL->getTypeSizeInBits(CE->getType()));
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) err("const gep");
      return constAddr(CE->getOperand(0)) + off.getSExtValue();
    }
    case Instruction::Add: return constAddr(CE->getOperand(0)) + constAddr(CE->getOperand(1));
    case Instruction::Sub: return constAddr(CE->getOperand(0)) - constAddr(CE->getOperand(1));
    case Instruction::ICmp: {
      uint64_t a = constAddr(CE->getOperand(0)), b = constAddr(CE->getOperand(1));
      switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; default: err("const icmp"); }
    }
    case Instruction::Select: return constAddr(CE->getOperand(0)) ? constAddr(CE->getOperand(1)) : constAddr(CE->getOperand(2));
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  err("unsupported constant " + os.str().substr(0, 200));
}
static int constIdx(const Constant *C) {
  auto it = cpIdx.find(C);
  if (it != cpIdx.end()) return it->second;
  std::vector<Val> v; flattenConst(C, v);
  int i = CP.size();
  for (auto &x : v) CP.push_back(x);
  cpIdx[C] = i; return i;
}

static const char *panicPrefixes[] = {
  "core::panicking::", "core::option::expect_failed", "core::option::expect_none_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
  "core::slice::index::slice_", "core::str::slice_error_fail", "std::panicking::", "std::rt::panic_fmt", "core::slice::copy_from_slice_impl::len_mismatch_fail",
  "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail", "core::cell::panic_already", "alloc::raw_vec::capacity_overflow", "alloc::alloc::handle_alloc_error",
  "core::unicode::unicode_data::conversions::never", "std::process::abort", "alloc::vec::Vec<T,A>::remove::assert_failed", "alloc::vec::Vec<T,A>::swap_remove::assert_failed",
  "alloc::vec::Vec<T,A>::insert::assert_failed", "alloc::vec::Vec<T,A>::split_off::assert_failed", "rust_oom", "alloc::raw_vec::handle_reserve::panic", };
static int extId(const std::string &n);
static Func *getFunc(const Function *F) {
  auto it = funcs.find(F);
  if (it != funcs.end()) return it->second;
  Func *f = new Func(); f->F = F; f->name = F->getName().str(); f->hasBody = !F->isDeclaration();
  f->dem = demangle(f->name);
  auto h = f->dem.rfind("::h"); if (h != std::string::npos && f->dem.size() - h == 19) f->dem = f->dem.substr(0, h);
  f->ext = extId(f->name);
  static const std::set<std::string> panicExempt = {"std::panicking::panic_count::is_zero_slow_path", "std::panicking::panicking", "std::panicking::panic_count::count_is_zero"};
  if (F->hasFnAttribute(Attribute::NoReturn) || F->isDeclaration() || true) {
    for (auto *p : panicPrefixes) if (f->dem.compare(0, strlen(p), p) == 0 && !panicExempt.count(f->dem)) f->isPanic = true;
    if (f->name == "rust_begin_unwind" || f->name == "rust_panic" || f->name == "rust_oom") f->isPanic = true;
  }
  if (f->isPanic && !F->hasFnAttribute(Attribute::NoReturn) && !F->isDeclaration() && f->dem.compare(0, 17, "core::panicking::") != 0) f->isPanic = false;
  funcs[F] = f; funcList.push_back(f);
  return f;
}

struct Decoder {
  Func *f; std::map<const Value *, int> slot; std::map<const BasicBlock *, uint32_t> bpc;
  struct Fix { uint32_t edge; const BasicBlock *from, *to; };
  std::vector<Fix> fixes;
  int slotOf(const Value *v) {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    int s = f->nslots; f->nslots += flatN(v->getType()); slot[v] = s; return s;
  }
  int opnd(const Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) return ~constIdx(C);
    return slotOf(v);
  }
  int mkEdge(const BasicBlock *from, const BasicBlock *to) { f->edges.push_back(Edge{0, 0, 0}); fixes.push_back({(uint32_t)f->edges.size() - 1, from, to}); return f->edges.size() - 1; }
  In &emit(uint16_t op, const Instruction *I) {
    In i; memset((void *)&i, 0, sizeof i); i.op = op; i.I = I; i.dst = -1; i.n = 0;
    f->code.push_back(i); In &r = f->code.back();
    if (I && !I->getType()->isVoidTy()) {
      r.dst = slotOf(I); r.n = flatN(I->getType()); Type *ET = I->getType()->getScalarType();
      r.w = (ET->isStructTy() || ET->isArrayTy() || !ET->isSized()) ? 0 : (uint16_t)DL->getTypeSizeInBits(ET);
    }
    return r;
  }
  void run() {
    const Function &F = *f->F;
    for (auto &A : F.args()) {
      if (A.hasByValAttr()) err("byval in " + f->dem);
      int s = slotOf(&A); f->params.push_back({s, (int)flatN(A.getType())});
    }
    f->retN = flatN(F.getReturnType());
    for (auto &B : F) {
      bpc[&B] = f->code.size();
      for (auto &I : B) {
        unsigned op = I.getOpcode();
        switch (op) {
        case Instruction::PHI: slotOf(&I); break;
        case Instruction::Br: {
          auto &BI = cast<BranchInst>(I);
          if (BI.isUnconditional()) { In &i = emit(P_JMP, &I); int e = mkEdge(&B, BI.getSuccessor(0)); f->code.back().a = e; (void)i; }
          else { emit(P_CBR, &I); int c = opnd(BI.getCondition()); int e0 = mkEdge(&B, BI.getSuccessor(0)), e1 = mkEdge(&B, BI.getSuccessor(1)); In &i = f->code.back(); i.a = c; i.b = e0; i.c = e1; }
          break;
        }
        case Instruction::Switch: {
          auto &SI = cast<SwitchInst>(I);
          emit(P_SWITCH, &I);
          int c = opnd(SI.getCondition()); int d = mkEdge(&B, SI.getDefaultDest());
          uint32_t st = f->pool.size(); std::vector<int> tmp;
          for (auto &cs : SI.cases()) { tmp.push_back(constIdx(cs.getCaseValue())); tmp.push_back(mkEdge(&B, cs.getCaseSuccessor())); }
          for (int x : tmp) f->pool.push_back(x);
          In &i = f->code.back(); i.a = c; i.b = d; i.ops = st; i.nops = tmp.size() / 2;
          break;
        }
        case Instruction::GetElementPtr: {
          auto &G = cast<GetElementPtrInst>(I);
          if (I.getType()->isVectorTy()) err("vector gep");
          emit(P_GEP, &I); int base = opnd(G.getPointerOperand());
          int64_t off = 0; std::vector<int> tmp;
          for (auto it = gep_type_begin(G), en = gep_type_end(G); it != en; ++it) {
            const Value *ix = it.getOperand();
            if (auto *S = it.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else {
              int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(ix)) off += CI->getSExtValue() * sc;
              else { tmp.push_back(opnd(ix)); tmp.push_back((int)sc); if (sc > 0x7fffffff) err("gep scale"); }
            }
          }
          uint32_t st = f->pool.size();
          f->pool.push_back((int)(uint32_t)(uint64_t)off); f->pool.push_back((int)(uint32_t)((uint64_t)off >> 32));
          for (int x : tmp) f->pool.push_back(x);
          In &i = f->code.back(); i.a = base; i.ops = st; i.nops = tmp.size() / 2;
          break;
        }
        case Instruction::Call: case Instruction::Invoke: decodeCall(I); break;
        case Instruction::Load: { emit(op, &I); int p = opnd(cast<LoadInst>(I).getPointerOperand()); In &i = f->code.back(); i.a = p; i.lv = &leaves(I.getType()); break; }
        case Instruction::Store: { emit(op, &I); auto &S = cast<StoreInst>(I); int v = opnd(S.getValueOperand()), p = opnd(S.getPointerOperand()); In &i = f->code.back(); i.a = v; i.b = p; i.lv = &leaves(S.getValueOperand()->getType()); break; }
        case Instruction::Alloca: {
          auto &A = cast<AllocaInst>(I); emit(op, &I); int n = opnd(A.getArraySize()); In &i = f->code.back(); i.a = n; i.b = (int)DL->getTypeAllocSize(A.getAllocatedType()); break; }
        case Instruction::ExtractValue: { auto &X = cast<ExtractValueInst>(I); emit(op, &I); int a = opnd(X.getAggregateOperand()); In &i = f->code.back(); i.a = a; i.b = flatIndex(X.getAggregateOperand()->getType(), X.getIndices()); break; }
        case Instruction::InsertValue: { auto &X = cast<InsertValueInst>(I); emit(op, &I); int a = opnd(X.getAggregateOperand()), v = opnd(X.getInsertedValueOperand()); In &i = f->code.back(); i.a = a; i.b = v; i.c = flatIndex(X.getType(), X.getIndices()); i.sub = flatN(X.getInsertedValueOperand()->getType()); break; }
        case Instruction::ICmp: case Instruction::FCmp: { emit(op, &I); auto &X = cast<CmpInst>(I); int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); In &i = f->code.back(); i.a = a; i.b = b; i.sub = X.getPredicate(); break; }
        case Instruction::ShuffleVector: {
          auto &X = cast<ShuffleVectorInst>(I); emit(op, &I); int a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); uint32_t st = f->pool.size();
          for (int m : X.getShuffleMask()) f->pool.push_back(m);
          In &i = f->code.back(); i.a = a; i.b = b; i.ops = st; i.nops = X.getShuffleMask().size(); i.c = flatN(I.getOperand(0)->getType()); break; }
        case Instruction::AtomicRMW: { auto &X = cast<AtomicRMWInst>(I); emit(op, &I); int a = opnd(X.getPointerOperand()), b = opnd(X.getValOperand()); In &i = f->code.back(); i.a = a; i.b = b; i.sub = X.getOperation(); i.lv = &leaves(I.getType()); break; }
        case Instruction::AtomicCmpXchg: { auto &X = cast<AtomicCmpXchgInst>(I); emit(op, &I); int a = opnd(X.getPointerOperand()), b = opnd(X.getCompareOperand()), c = opnd(X.getNewValOperand()); In &i = f->code.back(); i.a = a; i.b = b; i.c = c; i.lv = &leaves(X.getCompareOperand()->getType()); break; }
        case Instruction::Ret: { emit(op, &I); int a = I.getNumOperands() ? opnd(I.getOperand(0)) : 0; f->code.back().a = a; f->code.back().nops = f->retN; break; }
        case Instruction::BitCast: { emit(op, &I); int a = opnd(I.getOperand(0)); In &i = f->code.back(); i.a = a; i.b = flatN(I.getOperand(0)->getType()); break; }
        default: {
          emit(op, &I);
          int v[3] = {0, 0, 0};
          for (unsigned k = 0; k < I.getNumOperands() && k < 3; k++) if (!isa<BasicBlock>(I.getOperand(k)) && !isa<MetadataAsValue>(I.getOperand(k))) v[k] = opnd(I.getOperand(k));
          In &i = f->code.back(); i.a = v[0]; i.b = v[1]; i.c = v[2];
          if (op == Instruction::Select) i.sub = I.getOperand(0)->getType()->isVectorTy();
          if (op == Instruction::ExtractElement || op == Instruction::InsertElement) i.sub = flatN(I.getOperand(0)->getType());
        }
        }
      }
    }
    for (auto &x : fixes) {
      Edge &e = f->edges[x.edge]; e.target = bpc[x.to]; e.mv = f->moves.size();
      for (auto &I : *x.to) {
        auto *P = dyn_cast<PHINode>(&I); if (!P) break;
        int s = opnd(P->getIncomingValueForBlock(x.from));
        f->moves.push_back(Move{slotOf(P), s, (uint16_t)flatN(P->getType())});
      }
      e.nmv = f->moves.size() - e.mv;
    }
    f->decoded = true;
  }
  void decodeCall(const Instruction &I) {
    auto &C = cast<CallBase>(I);
    std::vector<int> tmp;
    const Function *callee = C.getCalledFunction();
    if (!callee) if (auto *k = dyn_cast<Constant>(C.getCalledOperand())) callee = dyn_cast<Function>(k->stripPointerCasts());
    if (callee && callee->isIntrinsic()) {
      switch (callee->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::x86_sse2_pause:
        return;
      default: break;
      }
    }
    bool isAsm = C.isInlineAsm();
    emit(0, &I);
    for (auto &A : C.args()) { if (A->getType()->isMetadataTy()) { tmp.push_back(0); tmp.push_back(0); continue; } tmp.push_back(opnd(A)); tmp.push_back(flatN(A->getType())); }
    int fp = (!callee && !isAsm) ? opnd(C.getCalledOperand()) : 0;
    uint32_t st = f->pool.size(); for (int x : tmp) f->pool.push_back(x);
    In &i = f->code.back(); i.ops = st; i.nops = tmp.size() / 2;
    if (isAsm) { i.op = P_NOP; }
    else if (!callee) { i.op = P_INDIRECT; i.a = fp; }
    else if (callee->isIntrinsic()) { i.op = P_INTR; i.sub = 0; i.a = (int)callee->getIntrinsicID(); }
    else { i.op = P_CALL; Func *t = getFunc(callee); for (size_t k = 0; k < funcList.size(); k++) if (funcList[k] == t) i.a = k; }
    if (auto *IV = dyn_cast<InvokeInst>(&I)) { emit(P_JMP, nullptr); int e = mkEdge(I.getParent(), IV->getNormalDest()); f->code.back().a = e; f->code.back().I = &I; }
  }
};
static void decode(Func *f) { Decoder d; d.f = f; d.run(); }

// ------------------------------------------------------------------ solver
static Z3_solver SOL;
static void solInit() {
  // a plain SMT solver object: incremental, works on quantifier-free bit-vectors and FP
  if (getenv("SYMEX_LOGIC")) SOL = Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, getenv("SYMEX_LOGIC"))); else
  SOL = Z3_mk_simple_solver(gZ); Z3_solver_inc_ref(gZ, SOL);
  Z3_params p = Z3_mk_params(gZ); Z3_params_inc_ref(gZ, p);
  Z3_params_set_uint(gZ, p, Z3_mk_string_symbol(gZ, "timeout"), 300000);
  if (getenv("SYMEX_MIN")) Z3_params_set_bool(gZ, p, Z3_mk_string_symbol(gZ, "core.minimize"), true);
  Z3_solver_set_params(gZ, SOL, p);
}
// Each constraint gets a literal defined once per solver life; a query is a check under assumptions.
static std::unordered_map<E, Z3_ast> litOf; static std::unordered_map<unsigned, E> litRev;
// unsat cores reported by the solver: a later query whose constraints include a known core is unsatisfiable too
static std::unordered_map<E, std::vector<std::vector<E>>> gCores; static uint32_t gMark = 0;
static size_t gLitCap = getenv("SYMEX_LITS") ? atoi(getenv("SYMEX_LITS")) : 150;
static Z3_ast litFor(E c) {

  auto it = litOf.find(c); if (it != litOf.end()) return it->second;
  Z3_ast z = toZ3(c), l = Z3_mk_fresh_const(gZ, "l", Z3_mk_bool_sort(gZ));
  Z3_solver_assert(gZ, SOL, Z3_mk_implies(gZ, l, z));
  litOf[c] = l; litRev[Z3_get_ast_id(gZ, l)] = c; return l;
}
static Z3_lbool solCheck(const std::vector<E> &pc, E c) {
  auto cit = gCores.find(c);
  if (cit != gCores.end()) {
    gMark++; for (E e : pc) e->mark = gMark;
    for (auto &core : cit->second) { bool in = true; for (E e : core) if (e->mark != gMark) { in = false; break; } if (in) { ST.corehits++; return Z3_L_FALSE; } }
  }
  if (litOf.size() > gLitCap) { Z3_solver_reset(gZ, SOL); litOf.clear(); litRev.clear(); }
  std::vector<Z3_ast> as; as.reserve(pc.size() + 1);
  for (E e : pc) as.push_back(litFor(e));
  as.push_back(litFor(c));
  ST.queries++;
  Z3_lbool r = Z3_solver_check_assumptions(gZ, SOL, as.size(), as.data());
  if (r == Z3_L_FALSE) {
    ST.qunsat++;
    Z3_ast_vector uc = Z3_solver_get_unsat_core(gZ, SOL); Z3_ast_vector_inc_ref(gZ, uc);
    std::vector<E> core; bool ok = true, hasC = false;
    for (unsigned k = 0; k < Z3_ast_vector_size(gZ, uc); k++) { auto it = litRev.find(Z3_get_ast_id(gZ, Z3_ast_vector_get(gZ, uc, k))); if (it == litRev.end()) { ok = false; break; } if (it->second == c) hasC = true; else core.push_back(it->second); }
    Z3_ast_vector_dec_ref(gZ, uc);
    auto &v = gCores[c];
    if (ok && hasC && v.size() < 64) v.push_back(core);
  }
  return r;
}
static void readModel(const State &s, Assign &out) {
  Z3_model m = Z3_solver_get_model(gZ, SOL); Z3_model_inc_ref(gZ, m);
  out.assign(s.syms.size(), 0);
  for (size_t i = 0; i < s.syms.size(); i++) {
    E v = s.syms[i].var; Z3_ast r;
    if (!Z3_model_eval(gZ, m, toZ3(v), true, &r)) err("model eval failed");
    if (v->w == 1) out[i] = Z3_get_bool_value(gZ, r) == Z3_L_TRUE;
    else { uint64_t u = 0; if (!Z3_get_numeral_uint64(gZ, r, &u)) err("numeral"); out[i] = u; }
  }
  Z3_model_dec_ref(gZ, m);
}
static std::map<const Instruction *, std::pair<long, double>> gProf;
// is pc && c satisfiable; on sat fills model
static bool sat(State &s, E c, Assign *out) {
  if (c->isC()) { if (c->c && out) *out = s.model; return c->c != 0; }
  if (evalE(c, s.model)) { if (out) *out = s.model; ST.trivial++; return true; }
  double t = now();
  Z3_lbool r = solCheck(s.pc, c);
  if (r == Z3_L_TRUE) {
    ST.qsat++;
    Assign tmp; readModel(s, tmp);
    if (!evalE(c, tmp)) { err("solver model does not satisfy the query (encoding mismatch): " + exprStr(c)); }
    if (out) *out = tmp;
  }
  ST.solver += now() - t;
  if (gVerbose > 1 && !s.fr.empty()) { auto &f = s.fr.back(); auto &p = gProf[f.f->code[f.pc].I]; p.first++; p.second += now() - t; }
  if (r == Z3_L_UNDEF) err("solver returned unknown");
  return r == Z3_L_TRUE;
}
static uint64_t concE(E e) {
  if (e->isC()) return (uint64_t)e->c;
  for (auto &p : cur->eq) if (p.first == e) return p.second;
  throw ForkNeeded{e};
}

// ------------------------------------------------------------------ value helpers
static E toE(const Val &v) {
  if (v.k == VC) return mkC(v.u, v.w);
  if (v.k == VE) return v.e;
  return fpBits(v);
}
static uint64_t concV(const Val &v) { if (v.k == VC) return v.u; return concE(toE(v)); }

// ------------------------------------------------------------------ memory access
static Obj *resolve(uint64_t addr, uint64_t n, bool wr) {
  uint32_t id = addr >> 32; uint32_t off = (uint32_t)addr;
  Obj *o = cur->mem.get(id);
  if (!o) throw Violation{"memory", "access to unmapped or freed memory"};
  if ((uint64_t)off + n > o->size) throw Violation{"memory", "out-of-bounds access"};
  if (wr) { if (o->ro) throw Violation{"memory", "write to read-only memory"}; o = cur->mem.getW(id); }
  return o;
}
static E cellByteE(const Obj *o, uint32_t i) {
  if (!o->c || !o->c[i].kind) return mkC(o->d[i], 8);
  const Cell &c = o->c[i];
  if (c.kind == 1) return mkExtract((E)c.p, 8 * c.b, 8);
  return mkExtract(fpBits(vf((const SymFP *)c.p)), 8 * c.b, 8);
}
static Val loadAt(uint64_t addr, const Leaf &l) {
  if (l.bytes == 0) return vc(0, 1);
  Obj *o = resolve(addr, l.bytes, false);
  uint32_t off = (uint32_t)addr; unsigned nb = l.bytes;
  bool symb = false;
  if (o->c) for (unsigned i = 0; i < nb; i++) if (o->c[off + i].kind) { symb = true; break; }
  if (!symb) {
    if (nb <= 8) { uint64_t u = 0; memcpy(&u, o->d + off, nb); return vc(u, l.bits); }
    u128 u = 0; memcpy(&u, o->d + off, nb); Val v; v.k = VE; v.w = l.bits; v.e = mkC(u, l.bits); return v;
  }
  const Cell &c0 = o->c[off];
  if (c0.kind && c0.b == 0 && c0.n == nb) {
    bool same = true;
    for (unsigned i = 1; i < nb; i++) { const Cell &c = o->c[off + i]; if (c.kind != c0.kind || c.p != c0.p || c.b != i) { same = false; break; } }
    if (same) {
      if (c0.kind == 2) return vf((const SymFP *)c0.p);
      E e = (E)c0.p; if (e->w != l.bits) e = mkExtract(e, 0, l.bits); return ve(e);
    }
  }
  E e = cellByteE(o, off);
  for (unsigned i = 1; i < nb; i++) e = mkConcat(cellByteE(o, off + i), e);
  if (e->w != l.bits) e = mkExtract(e, 0, l.bits);
  return ve(e);
}
static void ensureCells(Obj *o) { if (!o->c) o->c = (Cell *)calloc(o->size ? o->size : 1, sizeof(Cell)); }
static void storeAt(uint64_t addr, const Val &v, const Leaf &l) {
  if (l.bytes == 0) return;
  Obj *o = resolve(addr, l.bytes, true);
  uint32_t off = (uint32_t)addr; unsigned nb = l.bytes;
  if (v.k == VC) { memcpy(o->d + off, &v.u, nb); if (o->c) memset((void *)(o->c + off), 0, nb * sizeof(Cell)); return; }
  if (v.k == VE && v.e->isC()) { u128 c = v.e->c; memcpy(o->d + off, &c, nb); if (o->c) memset((void *)(o->c + off), 0, nb * sizeof(Cell)); return; }
  ensureCells(o);
  const void *p; uint8_t kind;
  if (v.k == VF) { p = v.f; kind = 2; if (nb != 8) err("symbolic f64 stored with other size"); }
  else { E e = v.e; if (e->w != nb * 8) e = mkZext(e, nb * 8); p = e; kind = 1; }
  for (unsigned i = 0; i < nb; i++) { Cell &c = o->c[off + i]; c.kind = kind; c.b = i; c.n = nb; c.p = p; }
}
static void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj *d = resolve(dst, n, true); Obj *s = resolve(src, n, false);
  uint32_t od = (uint32_t)dst, os = (uint32_t)src;
  memmove(d->d + od, s->d + os, n);
  if (s->c) { ensureCells(d); memmove((void *)(d->c + od), s->c + os, n * sizeof(Cell)); }
  else if (d->c) memset((void *)(d->c + od), 0, n * sizeof(Cell));
}
static uint8_t concByte(uint64_t addr) { Obj *o = resolve(addr, 1, false); uint32_t off = (uint32_t)addr; if (!o->c || !o->c[off].kind) return o->d[off]; return (uint8_t)concE(cellByteE(o, off)); }
static std::string cstr(uint64_t a) { std::string s; while (true) { char c = concByte(a++); if (!c) return s; s += c; } }
static std::string bstr(uint64_t a, uint64_t n) { std::string s; for (uint64_t i = 0; i < n; i++) s += (char)concByte(a + i); return s; }
static uint64_t heapAlloc(uint64_t n) { if (n > (1ull << 24)) err("huge allocation on one path (possible non-termination)"); return (uint64_t)cur->mem.alloc(n, 0) << 32; }

// Symbolic address: enumerate the feasible addresses; loads merge with ITE, stores fork.
static bool enumVals(State &s, E e, size_t cap, std::vector<std::pair<uint64_t, Assign>> &out) {
  out.clear();
  Assign m = s.model; uint64_t v = (uint64_t)evalE(e, m);
  out.push_back({v, m});
  E ne = mkNot(mkEq(e, mkC(v, e->w)));
  while (true) {
    Assign m2;
    if (!sat(s, ne, &m2)) return true;
    v = (uint64_t)evalE(e, m2);
    out.push_back({v, m2});
    if (out.size() > cap) return false;
    ne = mkAnd(ne, mkNot(mkEq(e, mkC(v, e->w))));
  }
}
static Val mergeIte(E c, const Val &a, const Val &b, bool fp) {
  if (a.k == VC && b.k == VC && a.u == b.u) return a;
  if (a.k == VF || b.k == VF) return fpSelect(c, a, b);
  if (fp && a.w == 64) return fpSelect(c, a, b);
  return ve(mkIte(c, toE(a), toE(b)));
}

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  std::string r;
  for (DILocation *L = I->getDebugLoc(); L; L = L->getInlinedAt()) {
    if (!r.empty()) r += " < ";
    r += L->getFilename().str() + ":" + std::to_string(L->getLine());
    if (r.size() > 400) break;
  }
  return r.empty() ? "?" : r;
}
static std::string stackTrace(State &s) {
  std::string r; int n = 0;
  for (size_t i = s.fr.size(); i-- > 0 && n < 14; n++) {
    Frame &f = s.fr[i]; uint32_t pc = f.pc < f.f->code.size() ? f.pc : f.f->code.size() - 1;
    if (i + 1 < s.fr.size() && pc) pc--;
    r += "    " + f.f->dem + " @ " + locOf(f.f->code[pc].I) + "\n";
  }
  return r;
}
struct Forked { std::vector<State *> extra; };
static std::vector<State *> pending; // states created by the current step

static void addPC(State *s, E c) {
  if (c->isC()) return;
  if (c->op == O_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  s->pc.push_back(c);
}
static State *cloneState(State *s, E c, const Assign &m) {
  State *n = new State(*s); addPC(n, c); n->model = m; n->depth++; ST.forks++; return n;
}
// decide a symbolic boolean; may fork (the sibling is put into pending with the register state unchanged and pc at the same instruction; decisions are recorded in eq)
static bool decide(E c) {
  if (c->isC()) return c->c;
  for (auto &p : cur->eq) if (p.first == c) return p.second;
  bool mv = evalE(c, cur->model);
  E other = mv ? mkNot(c) : c; Assign m2;
  if (sat(*cur, other, &m2)) {
    State *n = cloneState(cur, other, m2); n->eq.push_back({c, (uint64_t)!mv}); n->pathHash = n->pathHash * 1099511628211ull ^ (2 + !mv);
    pending.push_back(n);
    addPC(cur, mv ? c : mkNot(c)); cur->depth++;
    cur->eq.push_back({c, (uint64_t)mv}); cur->pathHash = cur->pathHash * 1099511628211ull ^ (2 + mv);
  } else { cur->eq.push_back({c, (uint64_t)mv}); }
  return mv;
}
#include "libc.h"

// ------------------------------------------------------------------ interpreter
static inline Val &R(uint32_t base, int s) { return cur->regs[base + s]; }
static Val icmpV(unsigned p, const Val &a, const Val &b);
static Val binV(unsigned op, Val a, Val b, unsigned w);

static Val icmpV(unsigned p, const Val &a, const Val &b) {
  if (a.k == VC && b.k == VC) {
    uint64_t x = a.u, y = b.u; bool r;
    int64_t sx = a.w >= 64 ? (int64_t)x : (int64_t)(x << (64 - a.w)) >> (64 - a.w), sy = a.w >= 64 ? (int64_t)y : (int64_t)(y << (64 - a.w)) >> (64 - a.w);
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
    case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
    default: abort();
    }
    return vc(r, 1);
  }
  E x = toE(a), y = toE(b);
  switch (p) {
  case CmpInst::ICMP_EQ: return ve(mkEq(x, y)); case CmpInst::ICMP_NE: return ve(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_ULT: return ve(mkBin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return ve(mkBin(O_ULE, x, y));
  case CmpInst::ICMP_UGT: return ve(mkBin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return ve(mkBin(O_ULE, y, x));
  case CmpInst::ICMP_SLT: return ve(mkBin(O_SLT, x, y)); case CmpInst::ICMP_SLE: return ve(mkBin(O_SLE, x, y));
  case CmpInst::ICMP_SGT: return ve(mkBin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return ve(mkBin(O_SLE, y, x));
  }
  abort();
}
static Op opMap(unsigned op) {
  switch (op) {
  case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
  case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
  case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
  case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
  }
  abort();
}
static Val binV(unsigned op, Val a, Val b, unsigned w) {
  if (a.k == VC && b.k == VC) {
    uint64_t x = a.u, y = b.u;
    switch (op) {
    case Instruction::Add: return vc(x + y, w); case Instruction::Sub: return vc(x - y, w); case Instruction::Mul: return vc(x * y, w);
    case Instruction::And: return vc(x & y, w); case Instruction::Or: return vc(x | y, w); case Instruction::Xor: return vc(x ^ y, w);
    case Instruction::Shl: return vc(y >= w ? 0 : x << y, w); case Instruction::LShr: return vc(y >= w ? 0 : x >> y, w);
    case Instruction::UDiv: if (!y) throw Violation{"arith", "division by zero"}; return vc(x / y, w);
    case Instruction::URem: if (!y) throw Violation{"arith", "division by zero"}; return vc(x % y, w);
    default:
      if ((op == Instruction::SDiv || op == Instruction::SRem) && !y) throw Violation{"arith", "division by zero"};
      return vc((uint64_t)foldBin(opMap(op), x, y, w), w);
    }
  }
  // bit operations on symbolic f64 patterns
  if (a.k == VF && b.k == VC) {
    if (op == Instruction::And && b.u == 0x7fffffffffffffffull) return fpAbs(a);
    if (op == Instruction::Xor && b.u == 0x8000000000000000ull) return fpNeg(a);
  }
  E x = toE(a), y = toE(b);
  return ve(mkBin(opMap(op), x, y));
}
static Val fpUn32or64(unsigned w, Val a, double (*fn)(double)) {
  if (w == 32) { uint32_t u = concV(a); float f; memcpy(&f, &u, 4); f = (float)fn(f); memcpy(&u, &f, 4); return vc(u, 32); }
  return fpMap(a, fn);
}
static float b2f(uint64_t u) { uint32_t x = u; float f; memcpy(&f, &x, 4); return f; }
static uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }

static void pushFrame(Func *t, const In &i, uint32_t base, int retDst) {
  if (!t->decoded) decode(t);
  t->executed = true; t->calls++;
  if (cur->fr.size() > 4000) throw Violation{"panic", "stack overflow (recursion depth > 4000)"};
  uint32_t nb = cur->fr.empty() ? 0 : cur->fr.back().base + cur->fr.back().f->nslots;
  if (cur->regs.size() < nb + t->nslots) cur->regs.resize(nb + t->nslots + 64, vc(0, 64));
  Func *cf = cur->fr.empty() ? nullptr : cur->fr.back().f;
  for (size_t k = 0; k < t->params.size() && cf; k++) {
    int src = cf->pool[i.ops + 2 * k]; int n = t->params[k].second;
    for (int j = 0; j < n; j++) cur->regs[nb + t->params[k].first + j] = src < 0 ? CP[~src + j] : cur->regs[base + src + j];
  }
  cur->fr.push_back(Frame{t, 0, nb, retDst, (uint32_t)cur->allocas.size()});
}
static void takeEdge(Frame &f, int ei) {
  Edge &e = f.f->edges[ei];
  if (e.nmv) {
    static std::vector<Val> tmp; tmp.clear();
    for (uint32_t k = 0; k < e.nmv; k++) { Move &m = f.f->moves[e.mv + k]; for (int j = 0; j < m.n; j++) tmp.push_back(m.src < 0 ? CP[~m.src + j] : cur->regs[f.base + m.src + j]); }
    size_t q = 0;
    for (uint32_t k = 0; k < e.nmv; k++) { Move &m = f.f->moves[e.mv + k]; for (int j = 0; j < m.n; j++) cur->regs[f.base + m.dst + j] = tmp[q++]; }
  }
  f.pc = e.target;
}
#include "intr.h"

static const int SLICE = 1 << 30;
// run `cur` until it ends (throws PathEnd / Violation / EngineError) or `pending` becomes non-empty and `yieldOnFork`
static void runState() {
  while (true) {
    Frame &f = cur->fr.back();
    const In &i = f.f->code[f.pc];
    uint32_t base = f.base;
    cur->steps++;
    if ((cur->steps & 0xfffff) == 0) {
      if (now() - gT0 > gMaxTime) err("time limit exceeded");
      if (cur->steps > gMaxSteps) err("step limit exceeded on one path (possible non-termination)");
      if (SH->stop) throw PathEnd{false};
    }
    auto G = [&](int s, int k = 0) -> const Val & { return s < 0 ? CP[~s + k] : cur->regs[base + s + k]; };
    try {
      switch (i.op) {
      case P_NOP: f.pc++; break;
      case P_JMP: takeEdge(f, i.a); break;
      case P_CBR: {
        const Val &c = G(i.a);
        if (c.k == VC) { takeEdge(f, (c.u & 1) ? i.b : i.c); break; }
        bool r = decide(toE(c));
        takeEdge(cur->fr.back(), r ? i.b : i.c);
        break;
      }
      case P_SWITCH: {
        const Val &c = G(i.a);
        if (c.k == VC) {
          int e = i.b;
          for (uint32_t k = 0; k < i.nops; k++) if (CP[f.f->pool[i.ops + 2 * k]].u == c.u) { e = f.f->pool[i.ops + 2 * k + 1]; break; }
          takeEdge(f, e); break;
        }
        E x = toE(c);
        std::map<uint32_t, E> bySucc; std::map<uint32_t, int> edgeOf; E any = mkFalse();
        std::vector<uint32_t> order;
        for (uint32_t k = 0; k < i.nops; k++) {
          int ei = f.f->pool[i.ops + 2 * k + 1]; E q = mkEq(x, toE(CP[f.f->pool[i.ops + 2 * k]]));
          any = mkOr(any, q);
          // group edges with the same target and identical phi moves only if there are no moves
          uint32_t key = f.f->edges[ei].nmv ? 0x80000000u + ei : f.f->edges[ei].target;
          if (!bySucc.count(key)) { bySucc[key] = mkFalse(); edgeOf[key] = ei; order.push_back(key); }
          bySucc[key] = mkOr(bySucc[key], q);
        }
        int chosen = -1;
        for (uint32_t key : order) { if (decide(bySucc[key])) { chosen = edgeOf[key]; break; } }
        takeEdge(cur->fr.back(), chosen < 0 ? i.b : chosen);
        break;
      }
      case P_GEP: {
        const Val &p = G(i.a);
        uint64_t off = (uint64_t)(uint32_t)f.f->pool[i.ops] | ((uint64_t)(uint32_t)f.f->pool[i.ops + 1] << 32);
        E sy = nullptr; uint64_t acc = off;
        if (p.k == VC) acc += p.u; else sy = toE(p);
        for (uint32_t k = 0; k < i.nops; k++) {
          const Val &x = G(f.f->pool[i.ops + 2 + 2 * k]); uint64_t sc = (uint32_t)f.f->pool[i.ops + 3 + 2 * k];
          if (x.k == VC) acc += (uint64_t)(int64_t)sextv(x.u, x.w) * sc;
          else { E t = mkBin(O_MUL, mkSext(toE(x), 64), mkC(sc, 64)); sy = sy ? mkBin(O_ADD, sy, t) : t; }
        }
        Val r = sy ? ve(mkBin(O_ADD, sy, mkC(acc, 64))) : vc(acc, 64);
        R(base, i.dst) = r; f.pc++; break;
      }
      case Instruction::Load: {
        const Val &p = G(i.a);
        if (p.k == VC) { uint32_t k = 0; uint64_t ad = p.u; for (auto &l : *i.lv) { Val v = loadAt(ad + l.off, l); R(base, i.dst + k) = v; k++; } f.pc++; break; }
        E a = toE(p);
        bool known = false; uint64_t kv = 0;
        for (auto &q : cur->eq) if (q.first == a) { known = true; kv = q.second; }
        if (!known) {
          std::vector<std::pair<uint64_t, Assign>> vals;
          if (!enumVals(*cur, a, 64, vals)) throw ForkNeeded{a};
          if (vals.size() == 1) { cur->eq.push_back({a, vals[0].first}); break; }
          uint32_t k = 0; std::vector<Val> res;
          for (auto &l : *i.lv) {
            Val v = loadAt(vals.back().first + l.off, l);
            for (size_t j = vals.size() - 1; j-- > 0;) { Val x = loadAt(vals[j].first + l.off, l); v = mergeIte(mkEq(a, mkC(vals[j].first, 64)), x, v, l.fp); }
            res.push_back(v); k++;
          }
          for (uint32_t j = 0; j < k; j++) R(base, i.dst + j) = res[j];
          f.pc++; break;
        }
        uint32_t k = 0; for (auto &l : *i.lv) { Val v = loadAt(kv + l.off, l); R(base, i.dst + k) = v; k++; }
        f.pc++; break;
      }
      case Instruction::Store: {
        uint64_t ad = concV(G(i.b)); uint32_t k = 0;
        for (auto &l : *i.lv) { storeAt(ad + l.off, G(i.a, k), l); k++; }
        f.pc++; break;
      }
      case Instruction::Alloca: {
        uint64_t n = concV(G(i.a)) * (uint64_t)i.b; uint32_t id = cur->mem.alloc(n, 1); cur->allocas.push_back(id);
        R(base, i.dst) = vc((uint64_t)id << 32, 64); f.pc++; break;
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (i.n == 1) { Val r = binV(i.op, G(i.a), G(i.b), i.w); R(base, i.dst) = r; }
        else for (int k = 0; k < i.n; k++) { Val r = binV(i.op, G(i.a, k), G(i.b, k), i.w); R(base, i.dst + k) = r; }
        f.pc++; break;
      case Instruction::ICmp:
        for (int k = 0; k < i.n; k++) { Val r = icmpV(i.sub, G(i.a, k), G(i.b, k)); R(base, i.dst + k) = r; }
        f.pc++; break;
      case Instruction::FCmp: {
        unsigned w = i.I->getOperand(0)->getType()->getScalarSizeInBits();
        for (int k = 0; k < i.n; k++) {
          Val r;
          if (w == 32) r = vc(fcmpC(i.sub, b2f(concV(G(i.a, k))), b2f(concV(G(i.b, k)))), 1);
          else r = ve(fpCmp(i.sub, G(i.a, k), G(i.b, k)));
          R(base, i.dst + k) = r;
        }
        f.pc++; break;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        int o = i.op == Instruction::FAdd ? 0 : i.op == Instruction::FSub ? 1 : i.op == Instruction::FMul ? 2 : i.op == Instruction::FDiv ? 3 : 4;
        for (int k = 0; k < i.n; k++) {
          Val r;
          if (i.w == 32) { float a = b2f(concV(G(i.a, k))), b = b2f(concV(G(i.b, k))); float q = o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : o == 3 ? a / b : fmodf(a, b); r = vc(f2b(q), 32); }
          else r = fpBin(o, G(i.a, k), G(i.b, k));
          R(base, i.dst + k) = r;
        }
        f.pc++; break;
      }
      case Instruction::FNeg:
        for (int k = 0; k < i.n; k++) { Val r = i.w == 32 ? vc(concV(G(i.a, k)) ^ 0x80000000u, 32) : fpNeg(G(i.a, k)); R(base, i.dst + k) = r; }
        f.pc++; break;
      case Instruction::Trunc:
        for (int k = 0; k < i.n; k++) { const Val &a = G(i.a, k); Val r = a.k == VC ? vc(a.u, i.w) : ve(mkExtract(toE(a), 0, i.w)); R(base, i.dst + k) = r; }
        f.pc++; break;
      case Instruction::ZExt:
        for (int k = 0; k < i.n; k++) { const Val &a = G(i.a, k); Val r; if (a.k == VC && i.w <= 64) r = vc(a.u, i.w); else { E e = mkZext(toE(a), i.w); r = ve(e); } R(base, i.dst + k) = r; }
        f.pc++; break;
      case Instruction::SExt:
        for (int k = 0; k < i.n; k++) { const Val &a = G(i.a, k); Val r; if (a.k == VC && i.w <= 64) r = vc((uint64_t)sextv(a.u, a.w), i.w); else r = ve(mkSext(toE(a), i.w)); R(base, i.dst + k) = r; }
        f.pc++; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        for (int k = 0; k < i.n; k++) { const Val &a = G(i.a, k); Val r; if (a.w == i.w) r = a; else if (a.k == VC && i.w <= 64) r = vc(a.u, i.w); else { E e = toE(a); r = ve(e->w > i.w ? mkExtract(e, 0, i.w) : mkZext(e, i.w)); } R(base, i.dst + k) = r; }
        f.pc++; break;
      }
      case Instruction::BitCast: {
        if (i.n == i.b) { for (int k = 0; k < i.n; k++) { Val r = G(i.a, k); R(base, i.dst + k) = r; } f.pc++; break; }
        // gather to one integer, then split
        E e = toE(G(i.a, 0));
        for (int k = 1; k < i.b; k++) e = mkConcat(toE(G(i.a, k)), e);
        if (i.n == 1) { R(base, i.dst) = ve(e); f.pc++; break; }
        unsigned ew = e->w / i.n;
        for (int k = 0; k < i.n; k++) { R(base, i.dst + k) = ve(mkExtract(e, k * ew, ew)); }
        f.pc++; break;
      }
      case Instruction::UIToFP: case Instruction::SIToFP:
        for (int k = 0; k < i.n; k++) {
          Val r; bool sg = i.op == Instruction::SIToFP;
          const Val &a = G(i.a, k);
          if (i.w == 32) { uint64_t u = concV(a); r = vc(f2b(sg ? (float)(int64_t)sextv(u, a.w) : (float)u), 32); }
          else if (a.w > 64) { E e = toE(a); if (e->hi < ((u128)1 << 63)) r = itofp(ve(mkExtract(e, 0, 64)), sg); else if (e->isC()) r = fpC(sg ? (double)sextv(e->c, e->w) : (double)e->c); else err("wide int to fp"); }
          else r = itofp(a, sg);
          R(base, i.dst + k) = r;
        }
        f.pc++; break;
      case Instruction::FPToUI: case Instruction::FPToSI:
        for (int k = 0; k < i.n; k++) {
          unsigned sw = i.I->getOperand(0)->getType()->getScalarSizeInBits(); Val a = G(i.a, k);
          if (sw == 32) a = fpC(b2f(concV(a)));
          Val r = fptoi(a, i.w, i.op == Instruction::FPToSI); R(base, i.dst + k) = r;
        }
        f.pc++; break;
      case Instruction::FPExt: { Val r = fpC(b2f(concV(G(i.a)))); R(base, i.dst) = r; f.pc++; break; }
      case Instruction::FPTrunc: { Val r = vc(f2b((float)concFP(G(i.a))), 32); R(base, i.dst) = r; f.pc++; break; }
      case Instruction::Select: {
        bool fp = i.I->getType()->isFPOrFPVectorTy();
        for (int k = 0; k < i.n; k++) {
          const Val &c = G(i.a, i.sub ? k : 0); Val r;
          if (c.k == VC) r = (c.u & 1) ? G(i.b, k) : G(i.c, k);
          else {
            E ce = toE(c); bool done = false;
            for (auto &q : cur->eq) if (q.first == ce) { r = q.second ? G(i.b, k) : G(i.c, k); done = true; break; }
            if (!done) r = mergeIte(ce, G(i.b, k), G(i.c, k), fp);
          }
          R(base, i.dst + k) = r;
        }
        f.pc++; break;
      }
      case Instruction::Freeze: for (int k = 0; k < i.n; k++) { Val r = G(i.a, k); R(base, i.dst + k) = r; } f.pc++; break;
      case Instruction::ExtractValue: for (int k = 0; k < i.n; k++) { Val r = G(i.a, i.b + k); R(base, i.dst + k) = r; } f.pc++; break;
      case Instruction::InsertValue: {
        for (int k = 0; k < i.n; k++) { Val r = (k >= i.c && k < i.c + i.sub) ? G(i.b, k - i.c) : G(i.a, k); R(base, i.dst + k) = r; }
        f.pc++; break;
      }
      case Instruction::ExtractElement: { uint64_t ix = concV(G(i.b)); Val r = G(i.a, ix % i.sub); R(base, i.dst) = r; f.pc++; break; }
      case Instruction::InsertElement: { uint64_t ix = concV(G(i.c)); for (int k = 0; k < i.n; k++) { Val r = (uint64_t)k == ix ? G(i.b) : G(i.a, k); R(base, i.dst + k) = r; } f.pc++; break; }
      case Instruction::ShuffleVector: {
        std::vector<Val> t;
        for (uint32_t k = 0; k < i.nops; k++) { int m = f.f->pool[i.ops + k]; t.push_back(m < 0 ? vc(0, i.w) : m < i.c ? G(i.a, m) : G(i.b, m - i.c)); }
        for (uint32_t k = 0; k < i.nops; k++) R(base, i.dst + k) = t[k];
        f.pc++; break;
      }
      case Instruction::AtomicRMW: {
        uint64_t ad = concV(G(i.a)); const Leaf &l = (*i.lv)[0]; Val old = loadAt(ad, l), v = G(i.b), nv;
        switch (i.sub) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binV(Instruction::Add, old, v, l.bits); break;
        case AtomicRMWInst::Sub: nv = binV(Instruction::Sub, old, v, l.bits); break;
        case AtomicRMWInst::And: nv = binV(Instruction::And, old, v, l.bits); break;
        case AtomicRMWInst::Or: nv = binV(Instruction::Or, old, v, l.bits); break;
        case AtomicRMWInst::Xor: nv = binV(Instruction::Xor, old, v, l.bits); break;
        default: err("atomicrmw op");
        }
        storeAt(ad, nv, l); R(base, i.dst) = old; f.pc++; break;
      }
      case Instruction::AtomicCmpXchg: {
        uint64_t ad = concV(G(i.a)); const Leaf &l = (*i.lv)[0]; Val old = loadAt(ad, l); Val eq = icmpV(CmpInst::ICMP_EQ, old, G(i.b));
        bool e = eq.k == VC ? eq.u : decide(eq.e);
        if (e) storeAt(ad, G(i.c), l);
        R(base, i.dst) = old; R(base, i.dst + 1) = vc(e, 1); cur->fr.back().pc++; break;
      }
      case Instruction::Fence: f.pc++; break;
      case Instruction::Unreachable: throw Violation{"unreachable", "reached an unreachable instruction"};
      case Instruction::Ret: {
        Frame fr = f; static std::vector<Val> tmp; tmp.clear();
        for (uint32_t k = 0; k < i.nops; k++) tmp.push_back(G(i.a, k));
        while (cur->allocas.size() > fr.allocaStart) { cur->mem.release(cur->allocas.back(), true); cur->allocas.pop_back(); }
        cur->fr.pop_back();
        if (cur->fr.empty()) throw PathEnd{true};
        if (fr.retDst >= 0) { uint32_t cb = cur->fr.back().base; for (size_t k = 0; k < tmp.size(); k++) cur->regs[cb + fr.retDst + k] = tmp[k]; }
        break;
      }
      case P_INTR: doIntrinsic(i, base); cur->fr.back().pc++; break;
      case P_CALL: case P_INDIRECT: {
        Func *t;
        if (i.op == P_CALL) t = funcList[i.a];
        else {
          uint64_t p = concV(G(i.a)); uint64_t ix = (p - FN_BASE) / 16;
          if (p < FN_BASE || ix >= funcList.size()) throw Violation{"memory", "call through an invalid function pointer"};
          t = funcList[ix];
        }
        if (t->ext >= 0) { t->executed = true; std::vector<Val> args; for (uint32_t k = 0; k < i.nops; k++) for (int j = 0; j < f.f->pool[i.ops + 2 * k + 1]; j++) args.push_back(G(f.f->pool[i.ops + 2 * k], j));
          std::vector<Val> res; doExt(t, args, res, i);
          uint32_t b2 = cur->fr.back().base;
          if (i.dst >= 0) for (size_t k = 0; k < res.size() && (int)k < i.n; k++) cur->regs[b2 + i.dst + k] = res[k];
          cur->fr.back().pc++; break; }
        if (t->isPanic) { std::vector<Val> args; for (uint32_t k = 0; k < i.nops; k++) for (int j = 0; j < f.f->pool[i.ops + 2 * k + 1]; j++) args.push_back(G(f.f->pool[i.ops + 2 * k], j)); throw Violation{"panic", t->dem + panicInfo(args)}; }
        if (!t->hasBody) err("call to unmodelled external function " + t->name);
        f.pc++;
        pushFrame(t, i, base, i.dst);
        break;
      }
      default: { std::string s; raw_string_ostream os(s); i.I->print(os); err("unsupported instruction " + os.str()); }
      }
    } catch (ForkNeeded &fn) {
      std::vector<std::pair<uint64_t, Assign>> vals;
      ST.concs++;
      if (fn.e->w > 64) err("concretisation of wide value");
      if (!enumVals(*cur, fn.e, gMaxEnum, vals)) err("too many values when concretising " + exprStr(fn.e, 4));
      if (vals.size() > 1) {
        for (size_t k = 1; k < vals.size(); k++) {
          State *n = cloneState(cur, mkEq(fn.e, mkC(vals[k].first, fn.e->w)), vals[k].second);
          n->eq.push_back({fn.e, vals[k].first}); n->pathHash = n->pathHash * 1099511628211ull ^ (1000 + vals[k].first);
          pending.push_back(n);
        }
        addPC(cur, mkEq(fn.e, mkC(vals[0].first, fn.e->w))); cur->depth++;
        cur->pathHash = cur->pathHash * 1099511628211ull ^ (1000 + vals[0].first);
      }
      cur->eq.push_back({fn.e, vals[0].first});
      cur->model = vals[0].second;
    }
    if (!pending.empty()) return;
  }
}

// ------------------------------------------------------------------ reporting
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeReplay(State *s, const Assign &m, const std::string &path, bool withObs, const std::string &outcome) {
  FILE *fp = fopen(path.c_str(), "w");
  if (!fp) { perror(path.c_str()); return; }
  for (size_t i = 0; i < s->syms.size(); i++) fprintf(fp, "v %llu %s\n", (unsigned long long)(i < m.size() ? (uint64_t)m[i] : (uint64_t)s->syms[i].var->lo), s->syms[i].name.c_str());
  if (withObs) {
    for (auto &o : s->obs) {
      uint64_t u;
      if (o.second.k == VC) u = o.second.u;
      else if (o.second.k == VE) u = (uint64_t)evalE(o.second.e, m);
      else { const SymFP *f = o.second.f; uint64_t x = (uint64_t)evalE(f->n, m); double d = f->isInt ? ldexp((double)(int64_t)sextv(x, f->n->w), -f->sc) : f->tab[x]; u = d2bits(d); }
      fprintf(fp, "o %llu %s\n", (unsigned long long)u, o.first.c_str());
    }
    fprintf(fp, "e %s\n", outcome.c_str());
  }
  fclose(fp);
}
static void reportViolation(State *s, const Violation &v) {
  __sync_fetch_and_add(&SH->violations, 1);
  std::string b = gOut + "/violation-" + std::to_string(gWorker) + "-" + std::to_string(getpid());
  writeReplay(s, s->model, b + ".replay", false, "");
  FILE *fp = fopen((b + ".txt").c_str(), "w");
  fprintf(fp, "%s: %s\n%s", v.kind.c_str(), v.msg.c_str(), stackTrace(*s).c_str()); fclose(fp);
  SH->stop = 1;
}
static void reportError(State *s, const std::string &m) {
  __sync_fetch_and_add(&SH->errors, 1);
  std::string b = gOut + "/error-" + std::to_string(gWorker) + "-" + std::to_string(getpid()) + ".txt";
  FILE *fp = fopen(b.c_str(), "w"); fprintf(fp, "%s\n%s", m.c_str(), s ? stackTrace(*s).c_str() : ""); fclose(fp);
  if (s) writeReplay(s, s->model, b + ".replay", false, "");
  SH->stop = 1;
}
static void pathDone(State *s, bool complete) {
  if (!complete) { ST.infeasible++; return; }
  ST.paths++;
  for (auto &c : s->covers) gCovers.insert(c);
  // deterministic sampling for native validation
  uint64_t h = (s->pathHash ^ (gSeed * 0x9E3779B97F4A7C15ull)) * 0xff51afd7ed558ccdull; h ^= h >> 33;
  static uint64_t best[16]; static int nb = 0; static bool init = false; if (!init) { for (auto &b : best) b = ~0ull; init = true; }
  int slot = -1;
  int cap = std::min(16, gSamples);
  if (nb < cap) slot = nb++;
  else { int w = 0; for (int k = 1; k < cap; k++) if (best[k] > best[w]) w = k; if (cap && h < best[w]) slot = w; }
  if (slot >= 0) { best[slot] = h; writeReplay(s, s->model, gOut + "/sample-" + std::to_string(gWorker + 1) + "-" + std::to_string(slot) + ".replay", true, "ok"); }
}
// run one state to its end or first fork; children are appended to `out`
static void advance(State *s, std::vector<State *> &out) {
  cur = s; pending.clear();
  uint64_t st0 = s->steps;
  try { runState(); out.push_back(s); for (auto *p : pending) out.push_back(p); ST.steps += s->steps - st0; pending.clear(); return; }
  catch (PathEnd &p) { ST.steps += s->steps - st0; pathDone(s, p.complete); }
  catch (Violation &v) { ST.steps += s->steps - st0; reportViolation(s, v); }
  catch (EngineError &e) { reportError(s, e.msg); }
  for (auto *p : pending) out.push_back(p);
  pending.clear();
  delete s;
}
static void dumpWorker() {
  FILE *fp = fopen((gOut + "/worker-" + std::to_string(gWorker) + ".txt").c_str(), "w");
  fprintf(fp, "stat paths %ld\nstat infeasible %ld\nstat queries %ld\nstat sat %ld\nstat unsat %ld\nstat forks %ld\nstat steps %ld\nstat concretisations %ld\nstat modelhits %ld\nstat corehits %ld\nstat solver_us %ld\n", ST.paths, ST.infeasible, ST.queries, ST.qsat, ST.qunsat, ST.forks, ST.steps, ST.concs, ST.trivial, ST.corehits, (long)(ST.solver * 1e6));
  for (auto &c : gCovers) fprintf(fp, "cover %s\n", c.c_str());
  for (auto &c : gAssertsSeen) fprintf(fp, "check %s\n", c.c_str());
  for (auto &p : gProf) fprintf(fp, "prof %ld %.3f %s\n", p.second.first, p.second.second, locOf(p.first).c_str());
  std::set<std::string> fs; // functions of /repo executed symbolically, inlined ones included
  for (auto *f : funcList) if (f->executed && f->F && !f->F->isDeclaration()) for (auto &B : *f->F) for (auto &I : B)
    for (DILocation *L = I.getDebugLoc(); L; L = L->getInlinedAt()) if (auto *SP = L->getScope()->getSubprogram()) {
      std::string fn = SP->getFilename().str(), dir = SP->getDirectory().str();
      if (fn.rfind("/", 0) != 0) fn = dir + "/" + fn;
      if (fn.rfind("/repo/src", 0) == 0) fs.insert(fn.substr(6) + ":" + std::to_string(SP->getLine()) + " " + SP->getName().str());
    }
  for (auto &x : fs) fprintf(fp, "func %s\n", x.c_str());
  fclose(fp);
}

static void initGlobals() {
  gInit = new State(); cur = gInit;
  for (auto &G : M->globals()) {
    if (G.hasExternalWeakLinkage()) { gAddr[&G] = 0; continue; }
    uint64_t sz = DL->getTypeAllocSize(G.getValueType());
    uint32_t id = gInit->mem.alloc(sz, 2); gAddr[&G] = (uint64_t)id << 32;
  }
  for (auto &F : *M) getFunc(&F);
  for (auto &G : M->globals()) {
    if (!G.hasInitializer()) continue;
    const Constant *C = G.getInitializer();
    uint64_t a = gAddr[&G];
    if (!isa<ConstantAggregateZero>(C) && !isa<UndefValue>(C)) {
      std::vector<Val> v; flattenConst(C, v); auto &ls = leaves(C->getType());
      for (size_t i = 0; i < ls.size(); i++) storeAt(a + ls[i].off, v[i], ls[i]);
    }
    if (G.isConstant()) gInit->mem.getW(a >> 32)->ro = true;
  }
  initLibc();
  for (int i = 0; i < 3; i++) { FD d; d.open = true; d.file = -1; gInit->fds.push_back(d); }
}

int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") gEntry = nx(); else if (a == "--out") gOut = nx(); else if (a == "--jobs") gJobs = atoi(nx().c_str());
    else if (a == "--max-time") gMaxTime = atof(nx().c_str()); else if (a == "--seed") gSeed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--samples") gSamples = atoi(nx().c_str()); else if (a == "--max-enum") gMaxEnum = strtoull(nx().c_str(), 0, 10);
    else if (a == "--split") gSplit = atoi(nx().c_str()); else if (a == "-v") gVerbose++; else if (a == "--max-steps") gMaxSteps = strtoull(nx().c_str(), 0, 10);
    else bc = a;
  }
  gT0 = now();
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof *SH);
  LLVMContext Ctx; SMDiagnostic D;
  auto Mo = parseIRFile(bc, D, Ctx);
  if (!Mo) { D.print("symex", errs()); return 2; }
  M = Mo.get(); DL = &M->getDataLayout();
  z3Init(); solInit();
  try { initGlobals(); } catch (EngineError &e) { fprintf(stderr, "init error: %s\n", e.msg.c_str()); return 2; }
  Function *F = M->getFunction(gEntry);
  if (!F) { fprintf(stderr, "entry %s not found\n", gEntry.c_str()); return 2; }
  In dummy; memset((void *)&dummy, 0, sizeof dummy); cur = gInit;
  try { pushFrame(getFunc(F), dummy, 0, -1); } catch (EngineError &e) { fprintf(stderr, "decode error: %s\n", e.msg.c_str()); return 2; }
  if (gVerbose) fprintf(stderr, "[symex] loaded in %.2fs\n", now() - gT0);
  int target = gSplit ? gSplit : (gJobs > 1 ? gJobs * 40 : 1);
  std::deque<State *> q; q.push_back(gInit);
  std::vector<State *> out;
  while (!q.empty() && (int)q.size() < target && !SH->stop && gJobs > 1) {
    State *s = q.front(); q.pop_front(); out.clear(); advance(s, out);
    for (auto *x : out) q.push_back(x);
  }
  std::vector<State *> seeds(q.begin(), q.end());
  if (gVerbose) fprintf(stderr, "[symex] %zu seed states after %.2fs, %ld paths done\n", seeds.size(), now() - gT0, ST.paths);
  auto work = [&](int w) {
    gWorker = w;
    while (!SH->stop) {
      long k = __sync_fetch_and_add(&SH->next, 1);
      if (k >= (long)seeds.size()) break;
      std::vector<State *> st; st.push_back(seeds[k]);
      while (!st.empty() && !SH->stop) {
        State *s = st.back(); st.pop_back(); out.clear(); 
        if (now() - gT0 > gMaxTime) { reportError(s, "time limit exceeded"); break; }
        advance(s, out);
        for (size_t j = out.size(); j-- > 0;) st.push_back(out[j]);
      }
    }
    dumpWorker();
  };
  if (gJobs <= 1 || seeds.empty()) { gWorker = -1; if (gJobs <= 1) work(-1); else dumpWorker(); }
  else {
    dumpWorker(); // stats of the splitting phase, worker -1
    std::vector<pid_t> pids;
    for (int w = 0; w < gJobs; w++) {
      pid_t p = fork();
      if (p == 0) { ST = Stats(); work(w); _exit(0); }
      pids.push_back(p);
    }
    for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { SH->errors++; FILE *fp = fopen((gOut + "/error-crash.txt").c_str(), "w"); fprintf(fp, "worker died, status %d\n", stt); fclose(fp); SH->stop = 1; } }
  }
  if (gVerbose) fprintf(stderr, "[symex] done in %.2fs\n", now() - gT0);
  if (SH->violations) return 10;
  if (SH->errors) return 2;
  return 0;
}
