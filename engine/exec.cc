// symex: symbolic executor for LLVM bitcode of the real code, started from live process memory.
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <poll.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <chrono>
#include <algorithm>
#include <set>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static double optCaseBudget = 60, optBudget = 600; static int optJobs = 8; static u64 optMaxPaths = 20000, optMaxInsts = 3000000; static int optThorough = 0; static int optMaxFork = 300;
static bool optDebug = false; static int optMaxViol = 12; static int optValidate = 1; static double optQueryTimeout = 20; static bool optPrint = false;
static std::string optOnly;

// ---------------------------------------------------------------- program
static LLVMContext ctx;
static std::vector<std::unique_ptr<Module>> mods;
static std::unordered_map<std::string, Function *> defs;
static std::unordered_map<std::string, Func *> funcs;
static std::unordered_map<u64, Func *> byAddr;
static std::unordered_map<std::string, u64> symAddr;
static const DataLayout *DL;
static void *lib;
static std::vector<std::string> stubs;
static std::set<std::string> funcsRun;

struct Obj { u64 lo, hi; bool ro; std::string *name; };
static std::vector<Obj> gobjs;      // globals sorted
static std::vector<Obj> hobjs;      // setup-time heap
static std::vector<std::pair<u64, u64>> maps;   // other readable mappings

static u64 symbolAddr(const std::string &n) {
  auto it = symAddr.find(n); if (it != symAddr.end()) return it->second;
  u64 a = (u64)dlsym(lib, n.c_str()); if (!a) a = (u64)dlsym(RTLD_DEFAULT, n.c_str());
  symAddr[n] = a; return a;
}

static std::map<Type *, const Ty *> tyMemo;
static const Ty *tyOf(Type *t) {
  auto it = tyMemo.find(t); if (it != tyMemo.end()) return it->second;
  Ty *r = new Ty; r->kind = 0; r->w = 0; r->bytes = 0;
  if (t->isVoidTy()) r->kind = 4;
  else if (t->isIntegerTy()) { r->w = t->getIntegerBitWidth(); r->bytes = DL->getTypeStoreSize(t); }
  else if (t->isPointerTy()) { r->w = 64; r->bytes = 8; }
  else if (t->isFloatTy()) { r->kind = 1; r->w = 32; r->bytes = 4; }
  else if (t->isDoubleTy()) { r->kind = 2; r->w = 64; r->bytes = 8; }
  else if (t->isFloatingPointTy()) { r->kind = 5; r->w = 64; r->bytes = DL->getTypeStoreSize(t); }
  else if (auto *st = dyn_cast<StructType>(t)) { r->kind = 3; if (!st->isOpaque()) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r->el.push_back({(u32)sl->getElementOffset(i), tyOf(st->getElementType(i))}); r->bytes = sl->getSizeInBytes(); } }
  else if (auto *at = dyn_cast<ArrayType>(t)) { r->kind = 3; u32 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements() && i < 4096; i++) r->el.push_back({i * es, tyOf(at->getElementType())}); r->bytes = DL->getTypeStoreSize(t); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { r->kind = 3; u32 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) r->el.push_back({i * es, tyOf(vt->getElementType())}); r->bytes = DL->getTypeStoreSize(t); }
  tyMemo[t] = r; return r;
}
static Val zeroOf(const Ty *t) {
  if (t->kind == 3) { std::vector<Val> v; for (auto &e : t->el) v.push_back(zeroOf(e.second)); return Val::sym(mkAgg(v)); }
  return Val(0);
}
[[noreturn]] static void fatal(const char *f, ...) { va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap); fputc('\n', stderr); exit(3); }

struct Unsup { std::string why; };

static Val constVal(Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue()); u128 v = ci->getValue().extractBitsAsZExtValue(64, 0); v |= (u128)ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64) << 64; Val r; r.e = mkConst(v, ci->getBitWidth()); return r; }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return Val(b.extractBitsAsZExtValue(std::min(64u, b.getBitWidth()), 0)); }
  if (isa<UndefValue>(c)) return zeroOf(tyOf(c->getType()));
  if (isa<ConstantAggregateZero>(c)) return zeroOf(tyOf(c->getType()));
  if (isa<ConstantAggregate>(c)) { std::vector<Val> v; for (auto &o : c->operands()) v.push_back(constVal(cast<Constant>(&o))); return Val::sym(mkAgg(v)); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return Val::sym(mkAgg(v)); }
  if (auto *g = dyn_cast<GlobalValue>(c)) { u64 a = symbolAddr(g->getName().str()); if (!a && !g->hasExternalWeakLinkage()) throw Unsup{"no address for " + g->getName().str()}; return Val(a); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (gep->accumulateConstantOffset(*DL, off)) return Val(constVal(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue()); }
    switch (ce->getOpcode()) {
    case Instruction::PtrToInt: return Val(constVal(ce->getOperand(0)).c & mask64(ce->getType()->getIntegerBitWidth()));
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); if (ce->getType()->isIntegerTy()) v.c &= mask64(ce->getType()->getIntegerBitWidth()); return v; }
    case Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
    case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
    default: break; }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw Unsup{"constant " + os.str()};
}

enum BI { B_NONE = 0, B_SYMINT, B_SYMARR, B_ASSUME, B_ASSERT, B_OBSERVE, B_THOROUGH, B_ISSYM, B_REACH, B_FORK, B_PRINT, B_RUNNING, B_MALLOC, B_FREE, B_BLKSZ, B_MEMCPY, B_MEMSET, B_RET0, B_NORETURN, B_ERRNO, B_MATH1, B_MATH2, B_VASTART, B_VACOPY,
  B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_FSHL, B_FSHR, B_OVF, B_USUBSAT, B_UADDSAT, B_STACKSAVE, B_STACKRESTORE, B_ARG0, B_OBJSIZE, B_TRAP, B_FMULADD, B_UNKNOWN, B_GUARDACQ, B_BITREV, B_ISCONST, B_SSUBSAT, B_SADDSAT, B_LOADREL };

static const std::map<std::string, int> builtins = {
  {"sym_int", B_SYMINT}, {"sym_array", B_SYMARR}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_observe", B_OBSERVE}, {"sym_thorough", B_THOROUGH}, {"sym_is_symbolic", B_ISSYM}, {"sym_reach", B_REACH}, {"sym_fork", B_FORK}, {"sym_print", B_PRINT}, {"sym_running", B_RUNNING},
  {"vrt_malloc", B_MALLOC}, {"vrt_free", B_FREE}, {"vrt_blocksize", B_BLKSZ}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"mempcpy", B_MEMCPY}, {"memset", B_MEMSET},
  {"printf", B_RET0}, {"fprintf", B_RET0}, {"vfprintf", B_RET0}, {"vprintf", B_RET0}, {"puts", B_RET0}, {"putchar", B_RET0}, {"fputc", B_RET0}, {"putc", B_RET0}, {"fputs", B_RET0}, {"fwrite", B_RET0}, {"fflush", B_RET0}, {"perror", B_RET0}, {"write", B_RET0}, {"gettimeofday", B_RET0}, {"time", B_RET0}, {"usleep", B_RET0}, {"getenv", B_RET0}, {"isatty", B_RET0}, {"fileno", B_RET0}, {"signal", B_RET0}, {"sleep", B_RET0}, {"nanosleep", B_RET0}, {"clock_gettime", B_RET0}, {"setlocale", B_RET0}, {"close", B_RET0}, {"select", B_RET0}, {"fclose", B_RET0},
  {"exit", B_NORETURN}, {"abort", B_NORETURN}, {"_exit", B_NORETURN}, {"__cxa_pure_virtual", B_TRAP}, {"__assert_fail", B_TRAP}, {"__errno_location", B_ERRNO}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_RET0}, {"__cxa_atexit", B_RET0}, {"atexit", B_RET0},
  {"pow", B_MATH2}, {"fmod", B_MATH2}, {"log", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"exp", B_MATH1}, {"sqrt", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"round", B_MATH1}, {"fabs", B_MATH1}, {"sin", B_MATH1}, {"cos", B_MATH1}, {"trunc", B_MATH1}};

static int intrinsicId(Intrinsic::ID id) {
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memset: return B_MEMSET;
  case Intrinsic::umin: return B_UMIN; case Intrinsic::umax: return B_UMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::smax: return B_SMAX;
  case Intrinsic::abs: return B_ABS; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::bitreverse: return B_BITREV;
  case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR;
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return B_OVF;
  case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::ssub_sat: return B_SSUBSAT; case Intrinsic::sadd_sat: return B_SADDSAT;
  case Intrinsic::load_relative: return B_LOADREL; case Intrinsic::vastart: return B_VASTART; case Intrinsic::vacopy: return B_VACOPY; case Intrinsic::vaend: return B_RET0;
  case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::stackrestore: return B_STACKRESTORE;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_ARG0;
  case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::trap: return B_TRAP; case Intrinsic::fmuladd: return B_FMULADD; case Intrinsic::is_constant: return B_ISCONST;
  case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::trunc: case Intrinsic::sin: case Intrinsic::cos: return B_MATH1;
  case Intrinsic::pow: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: return B_MATH2;
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return -1;
  default: return B_UNKNOWN; }
}

static Func *getFunc(const std::string &n) {
  auto it = funcs.find(n); if (it != funcs.end()) return it->second;
  auto d = defs.find(n); if (d == defs.end()) { funcs[n] = nullptr; return nullptr; }
  Func *f = new Func; f->name = n; f->F = d->second; f->addr = symbolAddr(n); funcs[n] = f; return f;
}
static bool isStub(const std::string &n) {
  if (stubs.empty()) return false;
  std::string dm = llvm::demangle(n);
  for (auto &s : stubs) if (dm.compare(0, s.size(), s) == 0 && (dm.size() == s.size() || dm[s.size()] == '(' || s.back() == ':')) return true;
  return false;
}

static void translate(Func *f) {
  if (f->ready) return;
  Function &F = *f->F;
  if (F.isMaterializable()) { if (auto e = F.materialize()) fatal("materialize %s", f->name.c_str()); }
  if (isStub(f->name)) f->stub = 1;
  std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbix; int n = 0;
  for (auto &a : F.args()) reg[&a] = n++;
  f->nargs = n; f->vararg = F.isVarArg(); f->ret = tyOf(F.getReturnType());
  int bi = 0;
  for (auto &b : F) { bbix[&b] = bi++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
  f->nregs = n; f->bbs.resize(bi);
  auto op = [&](const Value *v) -> Opnd { auto it = reg.find(v); if (it != reg.end()) return {it->second, Val()}; if (auto *c = dyn_cast<Constant>(v)) return {-1, constVal(const_cast<Constant *>(c))}; throw Unsup{"operand"}; };
  for (auto &b : F) {
    BB &ob = f->bbs[bbix[&b]];
    for (auto &i : b) {
      if (auto *ph = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { Opnd o; try { o = op(ph->getIncomingValue(k)); } catch (Unsup &u) { o = {-1, Val(0)}; } auto &v = ob.phi[bbix[ph->getIncomingBlock(k)]]; bool dup = false; for (auto &q : v) if (q.first == reg[ph]) dup = true; if (!dup) v.push_back({reg[ph], o}); } continue; }
      Inst in; in.I = &i; if (!i.getType()->isVoidTy()) in.dst = reg[&i]; in.ty = tyOf(i.getType()); in.w = in.ty->w; in.op = I_UNSUP;
      try {
        switch (i.getOpcode()) {
        case Instruction::Add: in.op = I_BIN; in.sub = ADD; break; case Instruction::Sub: in.op = I_BIN; in.sub = SUB; break; case Instruction::Mul: in.op = I_BIN; in.sub = MUL; break;
        case Instruction::UDiv: in.op = I_BIN; in.sub = UDIV; break; case Instruction::SDiv: in.op = I_BIN; in.sub = SDIV; break; case Instruction::URem: in.op = I_BIN; in.sub = UREM; break; case Instruction::SRem: in.op = I_BIN; in.sub = SREM; break;
        case Instruction::And: in.op = I_BIN; in.sub = AND; break; case Instruction::Or: in.op = I_BIN; in.sub = OR; break; case Instruction::Xor: in.op = I_BIN; in.sub = XOR; break;
        case Instruction::Shl: in.op = I_BIN; in.sub = SHL; break; case Instruction::LShr: in.op = I_BIN; in.sub = LSHR; break; case Instruction::AShr: in.op = I_BIN; in.sub = ASHR; break;
        case Instruction::ICmp: in.op = I_ICMP; in.sub = cast<ICmpInst>(i).getPredicate(); in.ty2 = tyOf(i.getOperand(0)->getType()); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: in.op = I_FBIN; in.sub = i.getOpcode() - Instruction::FAdd; in.x.push_back(i.getOpcode()); break;
        case Instruction::FNeg: in.op = I_FNEG; break;
        case Instruction::FCmp: in.op = I_FCMP; in.sub = cast<FCmpInst>(i).getPredicate(); in.ty2 = tyOf(i.getOperand(0)->getType()); break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::AddrSpaceCast:
          in.op = I_CAST; in.x.push_back(i.getOpcode()); in.ty2 = tyOf(i.getOperand(0)->getType()); break;
        case Instruction::Load: in.op = I_LOAD; break;
        case Instruction::Store: in.op = I_STORE; in.ty = tyOf(i.getOperand(0)->getType()); break;
        case Instruction::Select: in.op = I_SELECT; break;
        case Instruction::Freeze: in.op = I_COPY; break;
        case Instruction::Fence: in.op = I_NOP; break;
        case Instruction::Unreachable: in.op = I_UNREACH; break;
        case Instruction::Ret: in.op = I_RET; if (i.getNumOperands()) in.ty = tyOf(i.getOperand(0)->getType()); break;
        case Instruction::GetElementPtr: {
          in.op = I_GEP; auto &g = cast<GetElementPtrInst>(i); u64 off = 0; in.o.push_back(op(g.getPointerOperand()));
          for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) { Value *ix = gi.getOperand();
            if (auto *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += sz * ci->getSExtValue(); continue; }
            in.o.push_back(op(ix)); in.x.push_back(sz); in.x.push_back(ix->getType()->getIntegerBitWidth()); }
          in.x.insert(in.x.begin(), off); break; }
        case Instruction::Br: { auto &br = cast<BranchInst>(i); if (br.isConditional()) { in.op = I_CONDBR; in.o.push_back(op(br.getCondition())); in.t0 = bbix[br.getSuccessor(0)]; in.t1 = bbix[br.getSuccessor(1)]; } else { in.op = I_BR; in.t0 = bbix[br.getSuccessor(0)]; } break; }
        case Instruction::Switch: { auto &s = cast<SwitchInst>(i); in.op = I_SWITCH; in.o.push_back(op(s.getCondition())); in.w = s.getCondition()->getType()->getIntegerBitWidth(); in.t0 = bbix[s.getDefaultDest()]; for (auto &c : s.cases()) { in.x.push_back(c.getCaseValue()->getZExtValue()); in.x.push_back(bbix[c.getCaseSuccessor()]); } break; }
        case Instruction::Alloca: { auto &a = cast<AllocaInst>(i); in.op = I_ALLOCA; in.x.push_back(DL->getTypeAllocSize(a.getAllocatedType())); in.x.push_back(std::max<u64>(16, a.getAlign().value())); in.o.push_back(op(a.getArraySize())); break; }
        case Instruction::ExtractValue: in.op = I_EXTV; in.o.push_back(op(i.getOperand(0))); for (unsigned k : cast<ExtractValueInst>(i).indices()) in.x.push_back(k); break;
        case Instruction::InsertValue: in.op = I_INSV; in.o.push_back(op(i.getOperand(0))); in.o.push_back(op(i.getOperand(1))); for (unsigned k : cast<InsertValueInst>(i).indices()) in.x.push_back(k); break;
        case Instruction::ExtractElement: in.op = I_EXTE; break;
        case Instruction::InsertElement: in.op = I_INSE; break;
        case Instruction::ShuffleVector: in.op = I_SHUF; for (int k : cast<ShuffleVectorInst>(i).getShuffleMask()) in.x.push_back(k); break;
        case Instruction::Call: {
          auto &c = cast<CallInst>(i); in.op = I_CALL; in.ty = tyOf(c.getType());
          if (c.isInlineAsm()) { in.op = I_NOP; break; }
          for (auto &a : c.args()) { if (a->getType()->isMetadataTy()) { in.op = I_NOP; break; } }
          if (in.op == I_NOP) break;
          Function *cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCastsAndAliases());
          if (cf && cf->isIntrinsic()) { in.bi = intrinsicId(cf->getIntrinsicID()); if (in.bi == -1) { in.op = I_NOP; break; } in.ext = cf->getName().str(); in.x.push_back(cf->getIntrinsicID()); if (cf->getIntrinsicID() == Intrinsic::prefetch) in.op = I_NOP; }
          else if (cf) { std::string nm = cf->getName().str(); auto b = builtins.find(nm); if (b != builtins.end() && b->second == B_RET0 && defs.count(nm)) b = builtins.end(); if (b != builtins.end()) { in.bi = b->second; in.ext = nm; } else { in.callee = getFunc(nm); if (!in.callee) { in.bi = B_UNKNOWN; in.ext = nm; } } }
          for (auto &a : c.args()) in.o.push_back(op(a));
          if (!cf) in.o.push_back(op(c.getCalledOperand()));
          in.ty2 = c.arg_size() ? tyOf(c.getArgOperand(0)->getType()) : nullptr;
          break; }
        case Instruction::AtomicRMW: in.op = I_RMW; in.sub = cast<AtomicRMWInst>(i).getOperation(); break;
        default: in.op = I_UNSUP; in.ext = i.getOpcodeName(); }
        if (in.op != I_UNSUP && in.o.empty() && in.op != I_BR && in.op != I_CALL && in.op != I_NOP && in.op != I_GEP && in.op != I_ALLOCA) for (auto &o : i.operands()) in.o.push_back(op(o));
      } catch (Unsup &u) { in.op = I_UNSUP; in.ext = u.why; }
      ob.in.push_back(std::move(in));
    }
  }
  f->ready = true;
}

// ---------------------------------------------------------------- object table
static const u64 STK = 0x5e0000000000ULL, STKSZ = 64 << 20, HEAP2 = 0x700000000000ULL - (8ULL << 30);
static u64 errnoAddr;
static const Obj *findIn(const std::vector<Obj> &v, u64 a) {
  size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].lo <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; const Obj &o = v[lo - 1]; return a < o.hi ? &o : nullptr;
}
struct Bounds { u64 lo, hi; int kind; };   // kind: 0 none 1 global 2 heap 3 stack 4 symheap 5 map
struct OC { u64 key; Bounds b; }; static OC ocache[4096];
static Bounds findObj(const State &s, u64 a) {
  if (a >= STK + 4096 && a < STK + STKSZ) { for (size_t i = s.allocas.size(); i-- > 0;) if (a >= s.allocas[i].first && a < s.allocas[i].second) return {s.allocas[i].first, s.allocas[i].second, 3}; return {0, 0, 0}; }
  if (a >= HEAP2 && a < HEAP2 + (8ULL << 30)) { auto it = s.blocks.upper_bound(a); if (it == s.blocks.begin()) return {0, 0, 0}; --it; if (a < it->first + it->second && !s.freed.count(it->first)) return {it->first, it->first + it->second, 4}; return {0, 0, 0}; }
  OC &c = ocache[(a >> 4) & 4095];
  if (c.key == a >> 4 && a >= c.b.lo && a < c.b.hi) { if (c.b.kind == 2 && !s.freed.empty() && s.freed.count(c.b.lo)) return {0, 0, 0}; return c.b; }
  const Obj *o;
  if ((o = findIn(hobjs, a))) { if (s.freed.count(o->lo)) return {0, 0, 0}; c.key = a >> 4; c.b = {o->lo, o->hi, 2}; return c.b; }
  if (a >= 0x5f0000000000ULL && a < 0x700000000000ULL) return {0, 0, 0};
  if ((o = findIn(gobjs, a))) { c.key = a >> 4; c.b = {o->lo, o->hi, 1}; return c.b; }
  for (auto &m : maps) if (a >= m.first && a < m.second) return {m.first, m.second, 5};
  return {0, 0, 0};
}

// ---------------------------------------------------------------- executor
static Solver *solver;
struct Violation { std::string msg, kind, where; std::string inputs; bool replayed = false; std::string replayout; };
struct CaseResult { u64 paths = 0, killed = 0, asserts = 0, assertq = 0, forks = 0, insts = 0; std::vector<Violation> viol; std::map<std::string, int> undecided; std::map<std::string, u64> reach; u64 validated = 0, valfail = 0; std::string valmsg; bool opaque = false; u64 opaquepaths = 0; };
static CaseResult *R;
static std::vector<State *> work;
static double caseDeadline;
static long curCase;
static std::set<std::string> seenViol;

struct PathEnd { std::string why; };       // thrown to end the current path (undecided if why nonempty)
struct Forked {};                          // thrown when the current state was replaced by children

static inline Val V(E e) { return Val::sym(e); }
static inline E X(const Val &v, u32 w) { if (v.e) return v.e; return mkConst(v.c, w); }

static std::string inputsOf(State &s, const Model &m) {
  std::string o; char b[64];
  for (auto &i : s.ins) { auto it = m.vars.find(i.var->aux); u64 v = it == m.vars.end() ? 0 : it->second; snprintf(b, sizeof b, " %llx\n", (unsigned long long)v); o += "i " + i.name + b; }
  for (auto &a : s.arrs) { auto it = m.arrs.find(a.arr); if (it != m.arrs.end()) for (auto &kv : it->second) { snprintf(b, sizeof b, " %llx %llx\n", (unsigned long long)kv.first, (unsigned long long)kv.second); o += "a " + a.name + b; } }
  return o;
}
static std::string whereOf(State &s) {
  std::string w; int n = 0;
  for (size_t i = s.fr.size(); i-- > 0 && n < 4;) { std::string d = llvm::demangle(s.fr[i].f->name); auto p = d.find('('); if (p != std::string::npos) d = d.substr(0, p); if (n) w += " < "; w += d; n++; }
  return w;
}

// ---- native replay
static bool nativeMode = false; 
struct NatIn { std::map<std::string, u64> ints; std::map<std::string, std::map<u64, u64>> arrs; };
static NatIn nat; static std::map<std::string, int> natCnt; static std::string natOut; static int natFd = -1;
static void natEmit(const std::string &s) { size_t n = 0; while (n < s.size()) { ssize_t k = write(natFd, s.data() + n, s.size() - n); if (k <= 0) break; n += k; } }
static void (*t_test)(long); static void (*t_setup)(); static long (*t_ncases)(); static void (*t_casename)(long, char *, int);
static void parseInputs(const std::string &in) {
  nat = NatIn(); size_t p = 0;
  while (p < in.size()) { size_t e = in.find('\n', p); if (e == std::string::npos) e = in.size(); std::string l = in.substr(p, e - p); p = e + 1; char nm[300]; unsigned long long a, b;
    if (sscanf(l.c_str(), "i %299s %llx", nm, &a) == 2) nat.ints[nm] = a; else if (sscanf(l.c_str(), "a %299s %llx %llx", nm, &a, &b) == 3) nat.arrs[nm][a] = b; }
}
static void crash(int sig) { char b[64]; snprintf(b, sizeof b, "SIGNAL %d\n", sig); if (natFd >= 0) natEmit(b); _exit(0); }
// run the case natively in a forked child; returns its transcript
static std::string runNative(long c, const std::string &inputs, double tmo = 20) {
  int fd[2]; if (pipe(fd)) return "PIPE";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); natFd = fd[1]; int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, crash);
    signal(SIGALRM, crash); alarm((int)tmo);
    parseInputs(inputs); nativeMode = true; natCnt.clear();
    t_test(c); natEmit("DONE\n"); _exit(0);
  }
  close(fd[1]); std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n); close(fd[0]);
  int st; waitpid(pid, &st, 0); return o;
}

extern "C" {
unsigned long sym_int(const char *name, unsigned bits) {
  if (!nativeMode) return 0;
  int k = natCnt[name]++; std::string n = name; if (k) n += "#" + std::to_string(k);
  auto it = nat.ints.find(n); return it == nat.ints.end() ? 0 : it->second & mask64(bits);
}
void sym_array(void *p, unsigned long n, unsigned es, unsigned bits, const char *name) {
  if (!nativeMode) return;
  memset(p, 0, n * es); auto it = nat.arrs.find(name); if (it == nat.arrs.end()) return;
  for (auto &kv : it->second) if (kv.first < n) memcpy((char *)p + kv.first * es, &kv.second, es);
}
void sym_assume(int c) { if (nativeMode && !c) { natEmit("ASSUME-FALSE\n"); _exit(0); } }
void sym_assert(int c, const char *m) { if (nativeMode && !c) natEmit(std::string("ASSERT ") + m + "\n"); }
void sym_observe(const char *n, unsigned long v) { if (nativeMode) { char b[40]; snprintf(b, sizeof b, " %lx\n", v); natEmit(std::string("OBS ") + n + b); } }
void sym_print(const char *n, unsigned long v) { if (nativeMode) { char b[40]; snprintf(b, sizeof b, " %lx\n", v); natEmit(std::string("PRINT ") + n + b); } }
int sym_thorough() { return optThorough; }
int sym_is_symbolic(unsigned long) { return 0; }
int sym_running() { return nativeMode; }
void sym_reach(const char *) {}
unsigned long sym_fork(unsigned long v) { return v; }
void sym_stub(const char *p) { stubs.push_back(p); }
}

// ---- violations
static void reportViolation(State &s, const Model &m, const std::string &kind, const std::string &msg) {
  std::string where = whereOf(s); std::string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + where);
  if (seenViol.count(key)) return;
  Violation v; v.kind = kind; v.msg = msg; v.where = where; v.inputs = inputsOf(s, m);
  std::string o = runNative(curCase, v.inputs, kind == "hang" ? 5 : 20); v.replayout = o;
  if (kind == "assert") v.replayed = o.find("ASSERT " + msg + "\n") != std::string::npos;
  else if (kind == "div0" || kind == "trap") v.replayed = o.find("SIGNAL") != std::string::npos;
  else if (kind == "hang") v.replayed = o.find("SIGNAL 14") != std::string::npos;
  else if (kind == "exit") v.replayed = o.find("SIGNAL") == std::string::npos && o.find("ASSUME-FALSE") == std::string::npos && o.find("DONE") == std::string::npos;
  else v.replayed = o.find("ASSUME-FALSE") == std::string::npos;   // memory errors need not crash natively
  if (!v.replayed) { R->undecided["counterexample did not replay: " + kind + " " + msg + " at " + where + (s.opaque ? " (opaque)" : "")]++; if (optDebug) fprintf(stderr, "UNREPLAYED %s %s\n%s--\n%s\n", kind.c_str(), msg.c_str(), v.inputs.c_str(), o.c_str()); return; }
  seenViol.insert(key);
  R->viol.push_back(v);
}

static Res check(State &s, E q, Model *m) {
  struct timespec t0, t1; if (optDebug) clock_gettime(CLOCK_MONOTONIC, &t0);
  Res r = solver->check(s.pc, q, s.model, m);
  if (optDebug) { clock_gettime(CLOCK_MONOTONIC, &t1); double d = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9; if (d > 2) { fprintf(stderr, "SLOW %.1f s: %s\n", d, exprStr(q, 14).substr(0, 4000).c_str()); for (E e : s.pc) fprintf(stderr, "   under %s\n", exprStr(e, 8).substr(0, 300).c_str()); } }
  return r;
}
// rewriting with known equalities
static E rewr(State &s, E e, std::unordered_map<E, E> &memo) {
  if (e->op == CONST || e->op == AGG) return e;
  auto k = s.eqs.find(e); if (k != s.eqs.end()) return mkConst(k->second, e->w);
  if (e->op == VAR) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E a = e->k[0] ? rewr(s, e->k[0], memo) : nullptr, b = e->k[1] ? rewr(s, e->k[1], memo) : nullptr, c = e->k[2] ? rewr(s, e->k[2], memo) : nullptr;
  E r = e;
  if (a != e->k[0] || b != e->k[1] || c != e->k[2]) switch (e->op) {
    case SEL: r = mkSel(e->aux, a, e->w); break; case CONCAT: r = mkConcat(a, b); break; case EXTRACT: r = mkExtract(a, e->aux, e->w); break;
    case ZEXT: r = mkZext(a, e->w); break; case SEXT: r = mkSext(a, e->w); break; case ITE: r = mkIte(a, b, c); break; default: r = mkBin(e->op, a, b); }
  if (r != e) { auto k2 = s.eqs.find(r); if (k2 != s.eqs.end()) r = mkConst(k2->second, r->w); }
  memo[e] = r; return r;
}
static E rew(State &s, E e) { if (s.eqs.empty() || e->op == CONST || e->op == AGG) return e; std::unordered_map<E, E> memo; return rewr(s, e, memo); }

static void addPC(State &s, E c) {
  if (isC(c)) return;
  if (c->op == AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  s.pc.push_back(c);
  { bool neg = c->op == XOR && c->w == 1 && isC(c->k[1]); std::vector<u64> k = linKey(neg ? c->k[0] : c); if (!k.empty()) s.lineq[k] = !neg; }
  if (c->op == EQ && isC(c->k[1]) && c->k[0]->w <= 64) s.eqs[c->k[0]] = (u64)c->k[1]->val;
  else if (c->op == XOR && isC(c->k[1])) s.eqs[c->k[0]] = 0;
  else s.eqs[c] = 1;
}
// decide a width-1 condition; may fork.  Returns the truth value on the current state.
static State *cloneFor(State &s) { State *n = new State(s); R->forks++; if (optDebug) fprintf(stderr, "FORK %s\n", whereOf(s).c_str()); return n; }

static void assumeCond(State &s, E c) {   // add c to the path, ending the path when infeasible
  c = rew(s, c);
  if (isC(c)) { if (!c->val) throw PathEnd{""}; return; }
  Model m; Res r = check(s, c, &m); if (r == UNSAT) throw PathEnd{""}; if (r == UNKNOWN) throw PathEnd{"solver timeout (assume)"};
  addPC(s, c); s.model = m;
}
// fork on c without re-execution: the caller continues with the returned value in this state, and `other` is prepared by the callback
static bool forkCond(State &s, E c, const std::function<void(State &, bool)> &apply) {
  c = rew(s, c);
  if (!s.lineq.empty() && !isC(c)) { bool neg = c->op == XOR && c->w == 1 && isC(c->k[1]); E q = neg ? c->k[0] : c; if (q->op == EQ) { auto k = linKey(q); if (!k.empty()) { auto it = s.lineq.find(k); if (it != s.lineq.end()) { bool v = it->second != neg; apply(s, v); return v; } } } }
  if (isC(c)) { apply(s, c->val != 0); return c->val != 0; }
  Evaluator ev(s.model); bool b = ev.ev(c) != 0;
  E other = b ? mkNot(c) : c; Model m; Res r = check(s, other, &m);
  if (r == UNKNOWN) { R->undecided["solver timeout (branch) in " + whereOf(s)]++; r = UNSAT; }
  if (r == SAT) { State *n = cloneFor(s); addPC(*n, other); n->model = m; n->forks++; apply(*n, !b); work.push_back(n); addPC(s, b ? c : mkNot(c)); s.forks++; }
  else { addPC(s, b ? c : mkNot(c)); }
  apply(s, b); return b;
}
// enumerate values of expression e: each feasible value gets a state where apply(state,value) has been run
static void forkValues(State &s, E e, const std::function<void(State &, u64)> &apply, const char *what) {
  e = rew(s, e);
  if (isC(e)) { apply(s, (u64)e->val); return; }
  int n = 0; 
  for (;;) {
    Evaluator ev(s.model); u64 v = (u64)ev.ev(e); E c = mkBin(EQ, e, mkConst(v, e->w));
    E nc = mkNot(c); Model m; Res r = check(s, nc, &m);
    if (r == UNKNOWN) R->undecided[std::string("solver timeout (enumerate ") + what + ") in " + whereOf(s)]++;
    if (r != SAT) { addPC(s, c); apply(s, v); return; }
    if (++n > optMaxFork) { throw PathEnd{std::string("too many values for ") + what + " in " + whereOf(s)}; }
    State *k = cloneFor(s); addPC(*k, c); k->forks++; apply(*k, v); work.push_back(k);
    addPC(s, nc); s.model = m;
  }
}
static void setOpnd(State &s, const Opnd &o, u64 v) { if (o.r >= 0) s.fr.back().r[o.r] = Val(v); }
// concretise operand and re-execute the current instruction
[[noreturn]] static void concretise(State &s, const Opnd &o, E e, const char *what) {
  Frame &f = s.fr.back(); int ip = f.ip; (void)ip;
  forkValues(s, e, [&](State &t, u64 v) { setOpnd(t, o, v); }, what);
  throw Forked{};
}

// ---- memory
static inline Page *pageR(State &s, u64 a) { auto it = s.pages.find(a / PS); return it == s.pages.end() ? nullptr : it->second.get(); }
static inline Page *pageW(State &s, u64 a) {
  auto &p = s.pages[a / PS];
  if (!p) { p = std::make_shared<Page>(); memcpy(p->b, (void *)(a & ~(u64)(PS - 1)), PS); }
  else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  return p.get();
}
static Region *regionOf(State &s, u64 a) { for (auto &r : s.regs) if (a >= r.lo && a < r.hi) return &r; return nullptr; }

static E selInit(const Region &r, E idx) { E v = mkSel(r.arr, idx, r.vbits); return r.vbits == r.esz * 8 ? v : mkZext(v, r.esz * 8); }
static Val regLoad(State &s, Region &r, E idx) {   // idx 32-bit expr
  // walk the updates
  std::vector<Upd *> maybe; Upd *u = r.upd.get(); Val base; bool have = false;
  for (; u; u = u->next.get()) { int q = cmpEq(u->idx, idx); if (q == 1) { base = u->v; have = true; break; } if (q == 0) continue;
    E c = rew(s, mkBin(EQ, u->idx, idx)); if (isC(c)) { if (c->val) { base = u->v; have = true; break; } continue; } maybe.push_back(u); }
  u32 w = r.esz * 8;
  E v = have ? X(base, w) : selInit(r, idx);
  for (size_t i = maybe.size(); i-- > 0;) v = mkIte(mkBin(EQ, maybe[i]->idx, idx), X(maybe[i]->v, w), v);
  return V(v);
}
static void regStore(State &s, Region &r, E idx, Val v) {
  auto n = std::make_shared<Upd>(); n->idx = idx; n->v = v; n->next = r.upd; r.upd = n;
}
static Val loadRaw(State &s, u64 a, u32 bytes) {   // unchecked concrete-address load of <=16 bytes
  if (!s.regs.empty()) if (Region *r = regionOf(s, a)) {
    u64 ix = (a - r->lo) / r->esz, off = (a - r->lo) % r->esz;
    if (off == 0 && bytes == r->esz) return regLoad(s, *r, mkConst(ix, 32));
    // assemble bytewise
    E acc = nullptr; for (u32 i = 0; i < bytes; i++) { u64 k = (a + i - r->lo) / r->esz, of = (a + i - r->lo) % r->esz; Val ev = regLoad(s, *r, mkConst(k, 32)); E b = mkExtract(X(ev, r->esz * 8), of * 8, 8); acc = acc ? mkConcat(b, acc) : b; }
    return V(acc);
  }
  u64 pg = a / PS; 
  if ((a + bytes - 1) / PS == pg) {
    Page *p = pageR(s, a);
    if (!p) { if (bytes <= 8) { u64 v = 0; memcpy(&v, (void *)a, bytes); return Val(v); } u128 v = 0; memcpy(&v, (void *)a, bytes); Val r; r.e = mkConst(v, bytes * 8); return r; }
    u32 o = a % PS;
    if (!p->s) { if (bytes <= 8) { u64 v = 0; memcpy(&v, p->b + o, bytes); return Val(v); } u128 v = 0; memcpy(&v, p->b + o, bytes); Val r; r.e = mkConst(v, bytes * 8); return r; }
    bool any = false; for (u32 i = 0; i < bytes; i++) if (p->s[o + i].e) { any = true; break; }
    if (!any) { if (bytes <= 8) { u64 v = 0; memcpy(&v, p->b + o, bytes); return Val(v); } u128 v = 0; memcpy(&v, p->b + o, bytes); Val r; r.e = mkConst(v, bytes * 8); return r; }
    // whole?
    SymB &f = p->s[o]; if (f.e && f.off == 0 && f.e->w == bytes * 8) { bool all = true; for (u32 i = 1; i < bytes; i++) if (p->s[o + i].e != f.e || p->s[o + i].off != i) { all = false; break; } if (all) return V(f.e); }
    E acc = nullptr;
    for (u32 i = 0; i < bytes;) {
      E part; u32 n = 1; SymB &q = p->s[o + i];
      if (!q.e) { while (i + n < bytes && !p->s[o + i + n].e) n++; u128 v = 0; memcpy(&v, p->b + o + i, n); part = mkConst(v, n * 8); }
      else { while (i + n < bytes && p->s[o + i + n].e == q.e && p->s[o + i + n].off == q.off + n) n++; part = mkExtract(q.e, q.off * 8, n * 8); }
      acc = acc ? mkConcat(part, acc) : part; i += n; }
    if (acc->w > 64 && isC(acc)) { Val r; r.e = acc; return r; }
    return V(acc);
  }
  E acc = nullptr; for (u32 i = 0; i < bytes; i++) { Val b = loadRaw(s, a + i, 1); E e = X(b, 8); acc = acc ? mkConcat(e, acc) : e; }
  if (acc->w > 64 && isC(acc)) { Val r; r.e = acc; return r; }
  return V(acc);
}
static void storeRaw(State &s, u64 a, u32 bytes, const Val &v) {
  if (!s.regs.empty()) if (Region *r = regionOf(s, a)) {
    u64 ix = (a - r->lo) / r->esz, off = (a - r->lo) % r->esz;
    if (off == 0 && bytes == r->esz) { regStore(s, *r, mkConst(ix, 32), v); return; }
    E ve = X(v, bytes * 8);
    for (u32 i = 0; i < bytes; i++) { u64 k = (a + i - r->lo) / r->esz, of = (a + i - r->lo) % r->esz; E old = X(regLoad(s, *r, mkConst(k, 32)), r->esz * 8); E b = mkExtract(ve, i * 8, 8); E nw = b;
      if (of) nw = mkConcat(nw, mkExtract(old, 0, of * 8)); if (of + 1 < r->esz) nw = mkConcat(mkExtract(old, (of + 1) * 8, (r->esz - of - 1) * 8), nw); regStore(s, *r, mkConst(k, 32), V(nw)); }
    return;
  }
  if (v.e && v.e->w != bytes * 8) { E w = v.e->w < bytes * 8 ? mkZext(v.e, bytes * 8) : mkExtract(v.e, 0, bytes * 8); storeRaw(s, a, bytes, V(w)); return; }
  u32 o = a % PS;
  if (o + bytes > PS) { E ve = X(v, bytes * 8); for (u32 i = 0; i < bytes; i++) storeRaw(s, a + i, 1, V(mkExtract(ve, i * 8, 8))); return; }
  Page *p = pageW(s, a);
  if (!v.e) { memcpy(p->b + o, &v.c, bytes); if (p->s) for (u32 i = 0; i < bytes; i++) p->s[o + i].e = nullptr; return; }
  if (isC(v.e)) { u128 c = v.e->val; memcpy(p->b + o, &c, bytes); if (p->s) for (u32 i = 0; i < bytes; i++) p->s[o + i].e = nullptr; return; }
  if (!p->s) { p->s.reset(new SymB[PS]); memset((void *)p->s.get(), 0, sizeof(SymB) * PS); }
  for (u32 i = 0; i < bytes; i++) { p->s[o + i].e = v.e; p->s[o + i].off = i; }
}

static void memErr(State &s, const char *kind, u64 a, u32 n, const Model &m) {
  char b[200]; const char *what = a < 4096 ? "null pointer" : "address outside any live object";
  (void)n; snprintf(b, sizeof b, "%s through %s", kind, what);
  reportViolation(s, m, "memory", b);
}
static void checkAcc(State &s, u64 a, u32 n, bool wr) {
  Bounds b = findObj(s, a);
  if (b.kind && a + n <= b.hi && !(wr && b.kind == 5)) return;
  memErr(s, wr ? "write" : "read", a, n, s.model);
  throw PathEnd{""};
}

struct Peel { u64 base; u64 stride; E idx; };
static bool peel(E a, Peel &p) {
  p.base = 0; p.stride = 1; u64 add = 0; E e = a;
  for (;;) {
    if (e->op == ADD && isC(e->k[1])) { add += p.stride * (u64)e->k[1]->val; e = e->k[0]; if (e->w < 64) return false; continue; }
    if (e->op == SUB && isC(e->k[0])) return false;
    if (e->op == MUL && isC(e->k[1])) { p.stride *= (u64)e->k[1]->val; e = e->k[0]; continue; }
    break;
  }
  // now e should be a non-wrapping small expression
  if (e->op == ZEXT) e = e->k[0];
  for (;;) {
    if (e->w <= 64 && e->w > 1 && e->op != VAR && (e->kz & 1)) { u64 live = ~e->kz & mask64(e->w); int t = live ? __builtin_ctzll(live) : 0; if (t > 0 && t < (int)e->w) { p.stride <<= t; e = mkExtract(e, t, e->w - t); if (e->op == ZEXT) e = e->k[0]; continue; } }
    if (e->op == CONCAT && isC(e->k[1]) && e->k[1]->val == 0) { p.stride <<= e->k[1]->w; e = e->k[0]; if (e->op == ZEXT) e = e->k[0]; continue; }
    if (e->op == MUL && isC(e->k[1]) && (u128)e->k[0]->umax * (u64)e->k[1]->val <= mask64(e->w)) { p.stride *= (u64)e->k[1]->val; e = e->k[0]; if (e->op == ZEXT) e = e->k[0]; continue; }
    if (e->op == ADD && isC(e->k[1]) && (u128)e->k[0]->umax + (u64)e->k[1]->val <= mask64(e->w)) { add += p.stride * (u64)e->k[1]->val; e = e->k[0]; if (e->op == ZEXT) e = e->k[0]; continue; }
    break;
  }
  p.base = add; p.idx = e; return true;
}

struct SymAcc { bool isRegion; Region *r; E ridx; u64 base, stride, k0, k1; E idx; Bounds b; };
static const u64 MAXSCAN = 1 << 21;

// tighten [lo,hi] of idx under the path
static void tighten(State &s, E idx, u64 &lo, u64 &hi) {
  auto q = [&](E c) { Model m; return check(s, c, &m); };
  u32 w = idx->w; u64 l = lo, h = hi;
  // upper bound
  Evaluator ev(s.model); u64 cur = (u64)ev.ev(idx);
  u64 a = cur, b = h; while (a < b) { u64 m = a + (b - a + 1) / 2; if (q(mkBin(ULE, mkConst(m, w), idx)) == SAT) a = m; else b = m - 1; } hi = a;
  a = l; b = cur; while (a < b) { u64 m = a + (b - a) / 2; if (q(mkBin(ULE, idx, mkConst(m, w))) == SAT) b = m; else a = m + 1; } lo = b;
}

// resolve a symbolic address; may fork (throws Forked/PathEnd)
static SymAcc resolve(State &s, E addr, u32 n, bool wr, const Opnd &aop) {
  Evaluator ev(s.model); u64 a0 = (u64)ev.ev(addr);
  Bounds b = findObj(s, a0);
  if (!b.kind || a0 + n > b.hi || (wr && b.kind == 5)) {
    memErr(s, wr ? "write" : "read", a0, n, s.model);
    // continue with the in-bounds values, if any: exclude this one
    Model m; E ne = mkNot(mkBin(EQ, addr, mkConst(a0, 64))); 
    // exclude everything outside the surrounding object guess: try addresses of the nearest object
    if (check(s, ne, &m) == SAT) { s.model = m; addPC(s, ne); if (++s.forks > 64) throw PathEnd{"memory error enumeration"}; State *k = cloneFor(s); work.push_back(k); }
    throw PathEnd{""};
  }
  // can it leave the object?
  E out = mkBin(OR, mkBin(ULT, addr, mkConst(b.lo, 64)), mkBin(ULT, mkConst(b.hi - n, 64), addr));
  if (!isC(out) || out->val) {
    Model m; Res r = check(s, out, &m);
    if (r == UNKNOWN) R->undecided["solver timeout (bounds) in " + whereOf(s)]++;
    if (r == SAT) { State *k = cloneFor(s); addPC(*k, out); k->model = m; k->forks++; work.push_back(k); }
    addPC(s, mkNot(out));
  }
  SymAcc A; A.b = b; A.isRegion = false;
  Peel p;
  if (!peel(addr, p)) concretise(s, aop, addr, "address");
  Region *rg = regionOf(s, a0);
  if (rg) {
    if (p.base >= rg->lo && p.stride == rg->esz && (p.base - rg->lo) % rg->esz == 0 && n == rg->esz && p.idx->w <= 32) {
      E ix = mkZext(p.idx, 32); u64 k = (p.base - rg->lo) / rg->esz; if (k) ix = mkBin(ADD, ix, mkConst(k, 32)); A.isRegion = true; A.r = rg; A.ridx = ix; 
      if (rg->lo != b.lo || rg->hi != b.hi) { E o2 = mkBin(OR, mkBin(ULT, addr, mkConst(rg->lo, 64)), mkBin(ULT, mkConst(rg->hi - n, 64), addr)); o2 = rew(s, o2); if (!isC(o2) || o2->val) { Model m; Res r = check(s, o2, &m); if (r != UNSAT) concretise(s, aop, addr, "region address"); } }
      return A; }
    // general: element index = (addr - lo) / esz with constant offset 0
    E off = mkBin(SUB, addr, mkConst(rg->lo, 64));
    if (n == rg->esz && b.lo >= rg->lo - 4096 && rg->hi - rg->lo < (1ULL << 32)) {
      bool al = rg->esz == 1; if (!al) { E rem = mkExtract(off, 0, rg->esz == 2 ? 1 : rg->esz == 4 ? 2 : 3); al = isC(rem) && rem->val == 0; }
      E o2 = mkBin(OR, mkBin(ULT, addr, mkConst(rg->lo, 64)), mkBin(ULT, mkConst(rg->hi - n, 64), addr)); Model m;
      o2 = rew(s, o2); bool in = isC(o2) ? !o2->val : check(s, o2, &m) == UNSAT;
      if (al && in) { u32 sh = rg->esz == 1 ? 0 : rg->esz == 2 ? 1 : rg->esz == 4 ? 2 : 3; A.isRegion = true; A.r = rg; A.ridx = mkExtract(off, sh, 32); return A; }
    }
    concretise(s, aop, addr, "region address");
  }
  if (p.stride == 0 || p.idx->w > 64) concretise(s, aop, addr, "address");
  // a signed index: count from its most negative value
  if (p.idx->op == SEXT && p.idx->k[0]->w <= 16) { u32 iw = p.idx->k[0]->w; E ix = mkZext(mkBin(XOR, p.idx->k[0], mkConst(1ULL << (iw - 1), iw)), p.idx->w); u64 nb = p.base - (p.stride << (iw - 1)); if (ev.ev(ix) * p.stride + nb == a0) { p.idx = ix; p.base = nb; } }
  // candidate index range: object bounds and expression range
  u64 lo = p.idx->umin, hi = p.idx->umax;
  if (p.base <= b.hi - n && (i64)p.stride > 0) {
    u64 kmax = (b.hi - n - p.base) / p.stride; if (hi > kmax) hi = kmax; if (p.base < b.lo) { u64 kmin = (b.lo - p.base + p.stride - 1) / p.stride; if (lo < kmin) lo = kmin; }
  } else concretise(s, aop, addr, "address");
  if (lo > hi) concretise(s, aop, addr, "address");
  { u64 cur = (u64)ev.ev(p.idx); if (cur < lo || cur > hi) concretise(s, aop, addr, "address"); }
  A.base = p.base; A.stride = p.stride; A.k0 = lo; A.k1 = hi; A.idx = p.idx;
  if (hi - lo + 1 > MAXSCAN) { tighten(s, p.idx, lo, hi); A.k0 = lo; A.k1 = hi; }
  if (hi - lo + 1 > MAXSCAN) concretise(s, aop, addr, "address");
  return A;
}

static E muxBits(const std::vector<E> &v, E idx, u64 base, int bit) {
  // v indexes [base, base+2^(bit+1))
  if (bit < 0) return v[base];
  E a = muxBits(v, idx, base, bit - 1), b = muxBits(v, idx, base + (1ULL << bit), bit - 1);
  if (a == b) return a;
  return mkIte(mkExtract(idx, bit, 1), b, a);
}

struct SumKey { u64 base, stride, k0, k1; u32 n; bool operator<(const SumKey &o) const { return std::tie(base, stride, k0, k1, n) < std::tie(o.base, o.stride, o.k0, o.k1, o.n); } };
struct Run { u64 k; u64 v; u64 d; };
static std::map<SumKey, std::vector<Run>> sumMemo;

static Val loadSym(State &s, E addr, u32 n, const Opnd &aop);
static Val iteLoad(State &s, E addr, u32 n, const Opnd &aop, int depth) {
  // addr is an ITE tree of pointers
  if (addr->op == ITE && depth < 12) {
    E c = rew(s, addr->k[0]); if (isC(c)) return c->val ? iteLoad(s, addr->k[1], n, aop, depth + 1) : iteLoad(s, addr->k[2], n, aop, depth + 1);
    auto okc = [&](E a) { if (isC(a)) { Bounds b = findObj(s, (u64)a->val); return b.kind && (u64)a->val + n <= b.hi; } return true; };
    if (!okc(addr->k[1]) || !okc(addr->k[2]) || !isC(addr->k[1]) || !isC(addr->k[2])) {
      // decide feasibility by forking on the condition, then retry with the operand narrowed
      forkCond(s, c, [&](State &t, bool v) { Frame &f = t.fr.back(); if (aop.r >= 0) f.r[aop.r] = V(v ? addr->k[1] : addr->k[2]); });
      throw Forked{};
    }
    Val a = iteLoad(s, addr->k[1], n, aop, depth + 1), b = iteLoad(s, addr->k[2], n, aop, depth + 1);
    return V(mkIte(c, X(a, n * 8), X(b, n * 8)));
  }
  if (isC(addr)) { checkAcc(s, (u64)addr->val, n, false); return loadRaw(s, (u64)addr->val, n); }
  return loadSym(s, addr, n, aop);
}
static bool pagesTouched(State &s, u64 lo, u64 hi) {
  u64 a = lo / PS, b = hi / PS;
  if (b - a > s.pages.size()) { for (auto &kv : s.pages) if (kv.first >= a && kv.first <= b) return true; return false; }
  for (u64 p = a; p <= b; p++) if (s.pages.count(p)) return true;
  return false;
}
static Val loadSym(State &s, E addr, u32 n, const Opnd &aop) {
  addr = rew(s, addr);
  if (isC(addr)) { checkAcc(s, (u64)addr->val, n, false); return loadRaw(s, (u64)addr->val, n); }
  if (addr->op == ITE) return iteLoad(s, addr, n, aop, 0);
  SymAcc A = resolve(s, addr, n, false, aop);
  if (A.isRegion) return regLoad(s, *A.r, A.ridx);
  u32 w = n * 8; bool tight = false;
  if (n > 8) concretise(s, aop, addr, "wide address");
 again:
  u64 cnt; cnt = A.k1 - A.k0 + 1;  if (A.k0 > A.k1) concretise(s, aop, addr, "address");
  if (A.k1 >= 65536 && A.k1 > 4 * cnt) { A.idx = mkBin(SUB, A.idx, mkConst(A.k0, A.idx->w)); A.base += A.k0 * A.stride; A.k1 -= A.k0; A.k0 = 0; }
  {
  u64 alo = A.base + A.k0 * A.stride, ahi = A.base + A.k1 * A.stride + n;
  bool touched = pagesTouched(s, alo, ahi) || (!s.regs.empty() && [&] { for (auto &r : s.regs) if (r.lo < ahi && alo < r.hi) return true; return false; }());
  // runs
  std::vector<Run> runs; bool symbolic = false; std::vector<E> vals; SumKey key{A.base, A.stride, A.k0, A.k1, n};
  auto mi = touched ? sumMemo.end() : sumMemo.find(key);
  if (!touched && mi != sumMemo.end()) runs = mi->second;
  else {
    std::vector<u64> cv; cv.reserve(cnt);
    for (u64 k = A.k0; k <= A.k1; k++) { u64 a = A.base + k * A.stride; u64 v = 0;
      if (!touched) memcpy(&v, (void *)a, n); else { Val x = loadRaw(s, a, n); if (x.e) { symbolic = true; break; } v = x.c; }
      cv.push_back(v); }
    if (!symbolic) {
      u64 i = 0; while (i < cnt) { Run r; r.k = A.k0 + i; r.v = cv[i]; r.d = 0; u64 j = i + 1; if (j < cnt) { r.d = (cv[j] - cv[i]); if (n < 8) r.d &= mask64(w); if (n < 4) r.d = 0; if (r.d && n < 8 && cv[j] < cv[i]) r.d = 0; if (r.d && (j + 1 >= cnt || ((cv[j + 1] - cv[j]) & mask64(w)) != r.d)) r.d = 0; while (j < cnt && cv[j] == ((cv[i] + r.d * (j - i)) & mask64(w))) j++; } runs.push_back(r); i = j; if (runs.size() > 4096) break; }
      if (!touched) sumMemo[key] = runs;
    }
  }
  if (!symbolic && runs.size() <= 10) {
    E res = nullptr; u32 iw = A.idx->w;
    for (size_t i = runs.size(); i-- > 0;) {
      E v; if (runs[i].d == 0) v = mkConst(runs[i].v, w); else { E ix = w >= iw ? mkZext(A.idx, w) : mkTrunc(A.idx, w); u64 c = runs[i].v - runs[i].d * runs[i].k; E m = mkBin(MUL, ix, mkConst(runs[i].d, w)); v = mkBin(ADD, m, mkConst(c, w)); }
      if (!res) res = v; else res = mkIte(mkBin(ULT, A.idx, mkConst(runs[i + 1].k, iw)), v, res);
    }
    return V(res);
  }
  if (!tight && cnt > 16) { tight = true; u64 a = A.k0, b = A.k1; tighten(s, A.idx, A.k0, A.k1); if (A.k0 != a || A.k1 != b) goto again; }
  if (cnt <= 4096 || (!symbolic && cnt <= 65536 && runs.size() <= 2048)) {
    if (cnt > 4096) { // run based mux over boundaries (balanced)
      std::function<E(size_t, size_t)> bal = [&](size_t i, size_t j) -> E { if (j - i == 1) { E v; if (runs[i].d == 0) v = mkConst(runs[i].v, w); else { E ix = w >= A.idx->w ? mkZext(A.idx, w) : mkTrunc(A.idx, w); v = mkBin(ADD, mkBin(MUL, ix, mkConst(runs[i].d, w)), mkConst(runs[i].v - runs[i].d * runs[i].k, w)); } return v; } size_t m = (i + j) / 2; return mkIte(mkBin(ULT, A.idx, mkConst(runs[m].k, A.idx->w)), bal(i, m), bal(m, j)); };
      E r = bal(0, runs.size()); return V(r);
    }
    if (symbolic && cnt > 512) concretise(s, aop, addr, "address (symbolic table)");
    int bits = 0; while (bits < 64 && (bits == 0 ? A.k1 > 0 : (A.k1 >> bits))) bits++;
    std::vector<E> v(1ULL << bits, nullptr);
    for (u64 k = A.k0; k <= A.k1; k++) { Val x = loadRaw(s, A.base + k * A.stride, n); v[k] = X(x, w); }
    for (u64 k = 0; k < v.size(); k++) if (!v[k]) v[k] = k < A.k0 ? v[A.k0] : v[A.k1];
    E ix = A.idx; if ((u32)bits > ix->w) ix = mkZext(ix, bits);
    if (bits == 0) return V(v[0]);
    return V(muxBits(v, ix, 0, bits - 1));
  }
  }
  concretise(s, aop, addr, "address");
}
static void storeSym(State &s, E addr, u32 n, const Val &v, const Opnd &aop) {
  addr = rew(s, addr);
  if (isC(addr)) { checkAcc(s, (u64)addr->val, n, true); storeRaw(s, (u64)addr->val, n, v); return; }
  if (addr->op == ITE) {
    // fork on the leaves
    E c = addr->k[0]; 
    bool simple = isC(addr->k[1]) && isC(addr->k[2]);
    if (simple) { u64 a = (u64)addr->k[1]->val, b = (u64)addr->k[2]->val; Bounds x = findObj(s, a), y = findObj(s, b);
      if (x.kind && y.kind && x.kind != 5 && y.kind != 5 && a + n <= x.hi && b + n <= y.hi && !regionOf(s, a) && !regionOf(s, b)) {
        E ve = X(v, n * 8); Val oa = loadRaw(s, a, n); storeRaw(s, a, n, V(mkIte(c, ve, X(oa, n * 8)))); Val ob = loadRaw(s, b, n); storeRaw(s, b, n, V(mkIte(c, X(ob, n * 8), ve))); return; } }
    forkCond(s, c, [&](State &t, bool b) { Frame &f = t.fr.back(); if (aop.r >= 0) f.r[aop.r] = V(b ? addr->k[1] : addr->k[2]); });
    throw Forked{};
  }
  SymAcc A = resolve(s, addr, n, true, aop);
  if (A.isRegion) { regStore(s, *A.r, A.ridx, v); return; }
  u64 cnt = A.k1 - A.k0 + 1;
  if (cnt > 64 || n > 8) concretise(s, aop, addr, "store address");
  E ve = X(v, n * 8);
  for (u64 k = A.k0; k <= A.k1; k++) { u64 a = A.base + k * A.stride; Val o = loadRaw(s, a, n); storeRaw(s, a, n, V(mkIte(mkBin(EQ, A.idx, mkConst(k, A.idx->w)), ve, X(o, n * 8)))); }
}
static Val loadTy(State &s, const Val &a, u64 off, const Ty *t, const Opnd &aop) {
  if (t->kind == 3) { std::vector<Val> v; for (auto &e : t->el) v.push_back(loadTy(s, a, off + e.first, e.second, aop)); return V(mkAgg(v)); }
  Val r;
  if (!a.e) { checkAcc(s, a.c + off, t->bytes, false); r = loadRaw(s, a.c + off, t->bytes > 16 ? 16 : t->bytes); }
  else { if (off) { E ae = mkBin(ADD, a.e, mkConst(off, 64)); concretise(s, aop, a.e, "aggregate address"); (void)ae; } r = loadSym(s, a.e, t->bytes, aop); }
  if (t->kind == 5) return Val(0);
  if (t->w < t->bytes * 8) { if (r.e) r = V(mkTrunc(r.e, t->w)); else r.c &= mask64(t->w); }
  return r;
}
static void storeTy(State &s, const Val &a, u64 off, const Ty *t, const Val &v, const Opnd &aop) {
  if (t->kind == 3) { if (!v.e || v.e->op != AGG) throw PathEnd{"aggregate store"}; auto &el = aggOf(v.e); for (size_t i = 0; i < t->el.size(); i++) storeTy(s, a, off + t->el[i].first, t->el[i].second, el[i], aop); return; }
  Val x = v; if (t->w < t->bytes * 8 && x.e) x = V(mkZext(x.e, t->bytes * 8));
  if (!a.e) { checkAcc(s, a.c + off, t->bytes, true); storeRaw(s, a.c + off, t->bytes > 16 ? 16 : t->bytes, x); return; }
  if (off) concretise(s, aop, a.e, "aggregate address");
  storeSym(s, a.e, t->bytes, x, aop);
}

static u64 stackAlloc(State &s, u64 n, u64 al) {
  s.sp = (s.sp + al - 1) & ~(al - 1); u64 a = s.sp; s.sp += n + 32; if (s.sp > STK + STKSZ) throw PathEnd{"stack overflow"};
  s.allocas.push_back({a, a + (n ? n : 1)}); return a;
}
static std::string cstr(State &s, u64 a) { std::string r; for (int i = 0; i < 400; i++) { Val v = loadRaw(s, a + i, 1); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }

static void flushAsserts(State &s) {
  if (s.pend.empty()) return;
  std::vector<Pend> P; P.swap(s.pend);
  std::vector<Pend> open;
  E bad = mkConst(0, 1);
  for (auto &p : P) { E n = mkNot(rew(s, p.c)); if (isC(n) && !n->val) continue; open.push_back(p); bad = mkBin(OR, bad, n); }
  if (open.empty()) return;
  R->assertq++;
  Model m; Res r = check(s, bad, &m);
  if (r == UNSAT) return;
  // find the individual ones
  for (auto &p : open) {
    if (seenViol.count("assert|" + p.msg)) continue;
    Model mm; Res q = check(s, mkNot(p.c), &mm);
    if (q == SAT) reportViolation(s, mm, "assert", p.msg);
    else if (q == UNKNOWN) R->undecided["solver timeout on assertion: " + p.msg]++;
  }
}

static void finishPath(State &s) {
  flushAsserts(s);
  R->paths++; if (s.opaque) R->opaquepaths++;
  if (optValidate && !s.opaque && (R->paths <= 2 || (R->paths & 63) == 0) && s.regs.size() < 50) {
    std::string in = inputsOf(s, s.model); std::string exp; Evaluator ev(s.model);
    for (auto &o : s.obs) { char b[64]; u64 v = o.v.e ? (u64)ev.ev(o.v.e) : o.v.c; snprintf(b, sizeof b, " %llx\n", (unsigned long long)v); exp += "OBS " + o.name + b; }
    std::string got = runNative(curCase, in);
    std::string g2; size_t p = 0; while (p < got.size()) { size_t e = got.find('\n', p); if (e == std::string::npos) e = got.size(); std::string l = got.substr(p, e - p + 1); if (l.compare(0, 4, "OBS ") == 0) g2 += l; p = e + 1; }
    bool ok = g2 == exp && got.size() >= 5 && got.compare(got.size() - 5, 5, "DONE\n") == 0;
    if (ok) R->validated++; else { R->valfail++; if (R->valmsg.empty()) R->valmsg = "expected: " + exp.substr(0, 400) + " got: " + got.substr(0, 400); if (optDebug) fprintf(stderr, "VALIDATION MISMATCH case %ld\ninputs:\n%s\nexpected:\n%s\ngot:\n%s\n", curCase, in.c_str(), exp.c_str(), got.c_str()); }
  }
}

// opaque results for symbolic floating point
static Val opaque(State &s, const std::string &key, u32 w) { if (optDebug && !s.opaque) fprintf(stderr, "OPAQUE %s in %s\n", key.substr(0, 300).c_str(), s.fr.empty() ? "?" : s.fr.back().f->name.c_str()); s.opaque = true; E v = mkVar("opq:" + key, w); return V(v); }
static std::string vkey(const Val &v) { char b[40]; if (v.e) snprintf(b, sizeof b, "e%u", v.e->id); else snprintf(b, sizeof b, "c%llx", (unsigned long long)v.c); return b; }
static double asD(const Val &v, int kind) { if (kind == 1) { float f; u32 x = (u32)v.c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, int kind) { if (kind == 1) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return Val((u64)x); } u64 x; memcpy(&x, &d, 8); return Val(x); }

static Val binop(State &s, u8 op, const Val &a, const Val &b, u32 w) {
  if (!a.e && !b.e) {
    u64 M = mask64(w), x = a.c & M, y = b.c & M;
    switch (op) {
    case ADD: return Val((x + y) & M); case SUB: return Val((x - y) & M); case MUL: return Val((x * y) & M);
    case AND: return Val(x & y); case OR: return Val(x | y); case XOR: return Val(x ^ y);
    case SHL: if (y >= w) y &= (w == 64 ? 63 : 31); return Val(y >= 64 ? 0 : (x << y) & M); case LSHR: if (y >= w) y &= (w == 64 ? 63 : 31); return Val(y >= 64 ? 0 : x >> y);
    case ASHR: if (y >= w) y &= (w == 64 ? 63 : 31); return Val((u64)(sext64(x, w) >> y) & M);
    case UDIV: return Val(y ? x / y : 0); case UREM: return Val(y ? x % y : 0);
    case SDIV: { i64 p = sext64(x, w), q = sext64(y, w); if (!q) return Val(0); if (q == -1) return Val((u64)(0 - (u64)p) & M); return Val((u64)(p / q) & M); }
    case SREM: { i64 p = sext64(x, w), q = sext64(y, w); if (!q || q == -1) return Val(0); return Val((u64)(p % q) & M); } }
  }
  E x = X(a, w), y = X(b, w);
  if ((op == SHL || op == LSHR || op == ASHR) && !isC(y) && w <= 64 && y->umax >= w) { if (w == 32 || w == 64) y = mkBin(AND, y, mkConst(w - 1, w)); }
  else if ((op == SHL || op == LSHR || op == ASHR) && isC(y) && w <= 64 && y->val >= w) y = mkConst(y->val & (w == 64 ? 63 : 31), w);
  return Val::sym(mkBin((Op)op, x, y)).e || true ? [&] { E r = mkBin((Op)op, x, y); if (r->op == CONST && r->w > 64) { Val q; q.e = r; return q; } return Val::sym(r); }() : Val();
}
static Val icmp(int pred, const Val &a, const Val &b, u32 w) {
  if (!a.e && !b.e) { u64 M = mask64(w), x = a.c & M, y = b.c & M; i64 p = sext64(x, w), q = sext64(y, w);
    switch (pred) { case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y); case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y); case CmpInst::ICMP_UGT: return Val(x > y); case CmpInst::ICMP_UGE: return Val(x >= y);
      case CmpInst::ICMP_SLT: return Val(p < q); case CmpInst::ICMP_SLE: return Val(p <= q); case CmpInst::ICMP_SGT: return Val(p > q); default: return Val(p >= q); } }
  E x = X(a, w), y = X(b, w);
  switch (pred) { case CmpInst::ICMP_EQ: return V(mkBin(EQ, x, y)); case CmpInst::ICMP_NE: return V(mkNot(mkBin(EQ, x, y))); case CmpInst::ICMP_ULT: return V(mkBin(ULT, x, y)); case CmpInst::ICMP_ULE: return V(mkBin(ULE, x, y)); case CmpInst::ICMP_UGT: return V(mkBin(ULT, y, x)); case CmpInst::ICMP_UGE: return V(mkBin(ULE, y, x));
    case CmpInst::ICMP_SLT: return V(mkBin(SLT, x, y)); case CmpInst::ICMP_SLE: return V(mkBin(SLE, x, y)); case CmpInst::ICMP_SGT: return V(mkBin(SLT, y, x)); default: return V(mkBin(SLE, y, x)); }
}
static Val selVal(const Val &c, const Val &a, const Val &b, const Ty *t) {
  if (t->kind == 3) { if (!a.e || !b.e) throw PathEnd{"select agg"}; auto &x = aggOf(a.e); auto &y = aggOf(b.e); std::vector<Val> v; for (size_t i = 0; i < t->el.size(); i++) v.push_back(selVal(c, x[i], y[i], t->el[i].second)); return V(mkAgg(v)); }
  return V(mkIte(c.e, X(a, t->w), X(b, t->w)));
}

static void jump(State &s, Frame &f, int bb) {
  f.prev = f.bb; f.bb = bb; f.ip = 0;
  BB &B = f.f->bbs[bb]; if (B.phi.empty()) return;
  auto it = B.phi.find(f.prev); if (it == B.phi.end()) return;
  auto &mv = it->second; if (mv.size() == 1) { auto &m = mv[0]; f.r[m.first] = m.second.r >= 0 ? f.r[m.second.r] : m.second.c; return; }
  static std::vector<Val> tmp; tmp.clear(); for (auto &m : mv) tmp.push_back(m.second.r >= 0 ? f.r[m.second.r] : m.second.c);
  for (size_t i = 0; i < mv.size(); i++) f.r[mv[i].first] = tmp[i];
}
static void pushFrame(State &s, Func *f, const std::vector<Val> &args, int retdst) {
  translate(f);
  if (f->stub) { if (retdst >= 0) s.fr.back().r[retdst] = zeroOf(f->ret); return; }
  if (s.fr.size() > 400) throw PathEnd{"call depth"};
  funcsRun.insert(f->name);
  Frame n; n.f = f; n.bb = 0; n.ip = 0; n.prev = -1; n.r.resize(f->nregs); n.retdst = retdst; n.sp = s.sp; n.nalloca = s.allocas.size(); n.va = 0;
  for (int i = 0; i < f->nargs && i < (int)args.size(); i++) n.r[i] = args[i];
  if (f->vararg && (int)args.size() > f->nargs) { u64 k = args.size() - f->nargs; u64 a = stackAlloc(s, k * 8, 16); n.va = a; for (u64 i = 0; i < k; i++) { Val v = args[f->nargs + i]; if (v.e && v.e->w < 64) v = V(mkZext(v.e, 64)); storeRaw(s, a + i * 8, 8, v); } }
  s.fr.push_back(std::move(n));
}

static Val applyOvf(u32 id, const Val &a, const Val &b, u32 w) {
  E x = X(a, w), y = X(b, w); E r, o; u32 W = w * 2 <= 128 ? w * 2 : 128;
  bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
  E xx = sg ? mkSext(x, W) : mkZext(x, W), yy = sg ? mkSext(y, W) : mkZext(y, W); Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? SUB : MUL;
  E full = mkBin(op, xx, yy); r = mkBin(op, x, y); o = mkNot(mkBin(EQ, full, sg ? mkSext(r, W) : mkZext(r, W)));
  return V(mkAgg({V(r), V(o)}));
}

static Frame *curF(State &s) { return &s.fr.back(); }

static void doBuiltin(State &s, Inst &in, std::vector<Val> &a) {
  Frame &f = s.fr.back(); 
  auto ret = [&](const Val &v) { if (in.dst >= 0) f.r[in.dst] = v; };
  auto conc = [&](int i, const char *what) -> u64 { if (a[i].e) { E e = rew(s, a[i].e); if (isC(e)) return (u64)e->val; concretise(s, in.o[i], e, what); } return a[i].c; };
  u32 w = in.ty ? in.ty->w : 0;
  switch (in.bi) {
  case B_SYMINT: { std::string nm = cstr(s, conc(0, "name")); u32 bits = (u32)conc(1, "bits"); int k = s.names[nm]++; if (k) nm += "#" + std::to_string(k); E v = mkVar(nm, bits); s.ins.push_back({nm, bits, v}); ret(V(bits < 64 ? mkZext(v, 64) : v)); break; }
  case B_SYMARR: { Region r; r.lo = conc(0, "array"); u64 n = conc(1, "n"); r.esz = (u32)conc(2, "esz"); r.vbits = (u32)conc(3, "bits"); r.hi = r.lo + n * r.esz; r.name = cstr(s, conc(4, "name")); r.arr = mkArr(r.name, r.vbits, n); 
      std::vector<Region> keep; for (auto &o : s.regs) if (o.hi <= r.lo || o.lo >= r.hi) keep.push_back(o); s.regs = keep; s.regs.push_back(r);
      bool have = false; for (auto &x : s.arrs) if (x.arr == (u32)r.arr) have = true; if (!have) s.arrs.push_back({r.name, (u32)r.arr}); break; }
  case B_ASSUME: { flushAsserts(s); if (!a[0].e) { if (!(a[0].c & 0xffffffff)) throw PathEnd{"\1"}; break; } E c = mkNot(mkBin(EQ, X(a[0], 32), mkConst(0, 32))); assumeCond(s, c); break; }
  case B_ASSERT: { R->asserts++; E c = mkNot(mkBin(EQ, X(a[0], 32), mkConst(0, 32))); if (isC(c) && c->val) break; s.pend.push_back({c, cstr(s, conc(1, "msg"))}); break; }
  case B_OBSERVE: s.obs.push_back({cstr(s, conc(0, "name")), a[1]}); break;
  case B_PRINT: if (optPrint) { Evaluator ev(s.model); fprintf(stderr, "PRINT %s = %s  [%llx]\n", cstr(s, conc(0, "name")).c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : "", (unsigned long long)(a[1].e ? (u64)ev.ev(a[1].e) : a[1].c)); } break;
  case B_THOROUGH: ret(Val(optThorough)); break;
  case B_RUNNING: ret(Val(1)); break;
  case B_ISSYM: ret(Val(a[0].e ? 1 : 0)); break;
  case B_REACH: R->reach[cstr(s, conc(0, "name"))]++; break;
  case B_FORK: { u64 v = conc(0, "fork"); ret(Val(v)); break; }
  case B_MALLOC: { u64 n = conc(0, "malloc size"); if (n > (1ULL << 31)) { ret(Val(0)); break; } u64 p = (s.heap + 31) & ~15ULL; s.heap = p + n + 32; s.blocks[p] = n; ret(Val(p)); break; }
  case B_FREE: { u64 p = conc(0, "free"); if (!p) break; { auto z = s.blocks.find(p); if (z != s.blocks.end() && !z->second && !s.freed.count(p)) { s.freed.insert(p); break; } } Bounds b = findObj(s, p); if ((b.kind != 2 && b.kind != 4) || b.lo != p) { memErr(s, "free", p, 0, s.model); throw PathEnd{""}; } s.freed.insert(p); break; }
  case B_BLKSZ: { u64 p = conc(0, "blk"); Bounds b = findObj(s, p); ret(Val(b.kind ? b.hi - b.lo : 0)); break; }
  case B_MEMCPY: { u64 n = conc(2, "memcpy length"); u64 d, t; 
      if (n == 0) { if (in.dst >= 0) ret(a[0]); break; }
      if ((a[0].e || a[1].e) && (n == 1 || n == 2 || n == 4 || n == 8)) { Val v = a[1].e ? loadSym(s, a[1].e, n, in.o[1]) : (checkAcc(s, a[1].c, n, false), loadRaw(s, a[1].c, n)); if (a[0].e) storeSym(s, a[0].e, n, v, in.o[0]); else { checkAcc(s, a[0].c, n, true); storeRaw(s, a[0].c, n, v); } ret(a[0]); break; }
      d = conc(0, "memcpy dst"); t = conc(1, "memcpy src"); checkAcc(s, t, n, false); checkAcc(s, d, n, true);
      std::vector<Val> v; u64 i = 0; while (i < n) { u32 k = (n - i >= 8) ? 8 : 1; v.push_back(loadRaw(s, t + i, k)); i += k; } i = 0; size_t q = 0; while (i < n) { u32 k = (n - i >= 8) ? 8 : 1; storeRaw(s, d + i, k, v[q++]); i += k; }
      ret(in.ext == "mempcpy" ? Val(d + n) : a[0]); break; }
  case B_MEMSET: { u64 n = conc(2, "memset length"), d = conc(0, "memset dst"); if (n == 0) { ret(a[0]); break; } checkAcc(s, d, n, true); Val b = a[1]; if (b.e) b = V(mkTrunc(b.e, 8)); else b.c &= 0xff; for (u64 i = 0; i < n; i++) storeRaw(s, d + i, 1, b); ret(a[0]); break; }
  case B_RET0: if (in.dst >= 0) ret(zeroOf(in.ty)); 
    if (in.ext == "gettimeofday" || in.ext == "clock_gettime") { int k = in.ext[0] == 'g' ? 0 : 1; if (!a[k].e && a[k].c) { storeRaw(s, a[k].c, 8, Val(0)); storeRaw(s, a[k].c + 8, 8, Val(0)); } }
    break;
  case B_GUARDACQ: { u64 p = conc(0, "guard"); Val v = loadRaw(s, p, 1); if (!v.e && v.c) ret(Val(0)); else { storeRaw(s, p, 1, Val(1)); ret(Val(1)); } break; }
  case B_NORETURN: flushAsserts(s); reportViolation(s, s.model, "exit", "the simulator process exits"); if (seenViol.count("exit|the simulator process exits|" + whereOf(s))) throw PathEnd{""}; throw PathEnd{"program exit called in " + whereOf(s)};
  case B_TRAP: reportViolation(s, s.model, "trap", in.ext); throw PathEnd{""};
  case B_ERRNO: ret(Val(errnoAddr)); break;
  case B_ARG0: ret(a[0]); break;
  case B_ISCONST: ret(Val(0)); break;
  case B_OBJSIZE: ret(Val(~0ULL)); break;
  case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: { int p = in.bi == B_UMIN ? CmpInst::ICMP_ULT : in.bi == B_UMAX ? CmpInst::ICMP_UGT : in.bi == B_SMIN ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; Val c = icmp(p, a[0], a[1], w); ret(c.e ? V(mkIte(c.e, X(a[0], w), X(a[1], w))) : c.c ? a[0] : a[1]); break; }
  case B_LOADREL: { u64 p = conc(0, "table"), o = conc(1, "offset"); int32_t d; memcpy(&d, (void *)(p + o), 4); ret(Val(p + (int64_t)d)); break; }
  case B_ABS: { Val c = icmp(CmpInst::ICMP_SLT, a[0], Val(0), w); Val n = binop(s, SUB, Val(0), a[0], w); ret(c.e ? V(mkIte(c.e, X(n, w), X(a[0], w))) : c.c ? n : a[0]); break; }
  case B_BSWAP: { E x = X(a[0], w), r = nullptr; for (u32 i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret(V(r)); break; }
  case B_BITREV: { E x = X(a[0], w), r = nullptr; for (u32 i = 0; i < w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } ret(V(r)); break; }
  case B_CTPOP: { E x = X(a[0], w), r = mkConst(0, w); for (u32 i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); ret(V(r)); break; }
  case B_CTLZ: { E x = X(a[0], w), r = mkConst(w, w); for (u32 i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); ret(V(r)); break; }
  case B_CTTZ: { E x = X(a[0], w), r = mkConst(w, w); for (u32 i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); ret(V(r)); break; }
  case B_FSHL: case B_FSHR: { if (w > 64) throw PathEnd{"fsh width"}; E hi = X(a[0], w), lo = X(a[1], w), sh = X(a[2], w); E m = mkBin(UREM, sh, mkConst(w, w)); E cc = mkConcat(hi, lo), mm = mkZext(m, 2 * w); E r = in.bi == B_FSHL ? mkExtract(mkBin(SHL, cc, mm), w, w) : mkExtract(mkBin(LSHR, cc, mm), 0, w); ret(V(r)); break; }
  case B_OVF: { u32 ww = in.ty->el[0].second->w; ret(applyOvf((u32)in.x[0], a[0], a[1], ww)); break; }
  case B_USUBSAT: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); Val d = binop(s, SUB, a[0], a[1], w); ret(c.e ? V(mkIte(c.e, mkConst(0, w), X(d, w))) : c.c ? Val(0) : d); break; }
  case B_UADDSAT: { Val d = binop(s, ADD, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, d, a[0], w); ret(c.e ? V(mkIte(c.e, mkConst(~(u128)0, w), X(d, w))) : c.c ? Val(mask64(w)) : d); break; }
  case B_VASTART: { u64 p = conc(0, "va"); storeRaw(s, p, 4, Val(48)); storeRaw(s, p + 4, 4, Val(304)); storeRaw(s, p + 8, 8, Val(f.va)); storeRaw(s, p + 16, 8, Val(0)); break; }
  case B_VACOPY: { u64 d = conc(0, "va"), t = conc(1, "va"); for (int i = 0; i < 24; i += 8) storeRaw(s, d + i, 8, loadRaw(s, t + i, 8)); break; }
  case B_STACKSAVE: ret(Val(s.sp)); break; case B_STACKRESTORE: break;
  case B_MATH1: { int k = in.ty->kind; if (a[0].e) { ret(opaque(s, in.ext + vkey(a[0]), w)); break; } double x = asD(a[0], k), r; std::string n = in.ext; if (n.compare(0, 5, "llvm.") == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); }
      r = n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : n == "sqrt" ? sqrt(x) : n == "fabs" ? fabs(x) : n == "exp" ? exp(x) : n == "log" ? log(x) : n == "log2" ? log2(x) : n == "log10" ? log10(x) : n == "round" ? round(x) : n == "trunc" ? trunc(x) : n == "sin" ? sin(x) : n == "cos" ? cos(x) : rint(x); ret(fromD(r, k)); break; }
  case B_MATH2: { int k = in.ty->kind; if (a[0].e || a[1].e) { ret(opaque(s, in.ext + vkey(a[0]) + vkey(a[1]), w)); break; } double x = asD(a[0], k), y = asD(a[1], k); std::string n = in.ext; if (n.compare(0, 5, "llvm.") == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); } ret(fromD(n == "pow" ? pow(x, y) : n == "fmod" ? fmod(x, y) : n == "maxnum" ? fmax(x, y) : n == "minnum" ? fmin(x, y) : copysign(x, y), k)); break; }
  case B_FMULADD: { int k = in.ty->kind; if (a[0].e || a[1].e || a[2].e) { ret(opaque(s, in.ext + vkey(a[0]) + vkey(a[1]) + vkey(a[2]), w)); break; } ret(fromD(asD(a[0], k) * asD(a[1], k) + asD(a[2], k), k)); break; }
  default: throw PathEnd{"external call " + in.ext + " in " + whereOf(s)};
  }
}

// run a state until it ends; throws nothing
static void runState(State &s) {
  for (;;) {
    if ((++s.icount & 0x3fff) == 0 && now() > caseDeadline) throw PathEnd{"case time budget"};
    if (s.icount > optMaxInsts) { flushAsserts(s); reportViolation(s, s.model, "hang", "does not terminate"); if (seenViol.count("hang|does not terminate|" + whereOf(s))) throw PathEnd{""}; } if (s.icount > optMaxInsts) throw PathEnd{"instruction bound in " + whereOf(s)};
    R->insts++;
    Frame &f = s.fr.back(); Inst &in = f.f->bbs[f.bb].in[f.ip];
    auto G = [&](int i) -> const Val & { const Opnd &o = in.o[i]; return o.r >= 0 ? f.r[o.r] : o.c; };
    switch (in.op) {
    case I_BIN: {
      if (in.ty->kind == 3) { auto &x = aggOf(G(0).e); auto &y = aggOf(G(1).e); std::vector<Val> v; for (size_t i = 0; i < in.ty->el.size(); i++) v.push_back(binop(s, in.sub, x[i], y[i], in.ty->el[i].second->w)); f.r[in.dst] = V(mkAgg(v)); f.ip++; break; }
      if (in.sub == UDIV || in.sub == SDIV || in.sub == UREM || in.sub == SREM) {
        const Val &d = G(1);
        if (!d.e) { if ((d.c & mask64(in.w)) == 0 && in.w <= 64) { reportViolation(s, s.model, "div0", "division by zero"); throw PathEnd{""}; } }
        else { E z = rew(s, mkBin(EQ, d.e, mkConst(0, in.w))); if (!isC(z) || z->val) { Model m; Res r = check(s, z, &m); if (r == SAT) { reportViolation(s, m, "div0", "division by zero"); assumeCond(s, mkNot(z)); } else if (r == UNKNOWN) R->undecided["solver timeout (div)"]++; else addPC(s, mkNot(z)); } }
        if ((in.sub == SDIV || in.sub == SREM) && (in.w == 32 || in.w == 64)) { // the most negative value divided by -1 traps too
          const Val &n = G(0); u64 mn = 1ULL << (in.w - 1), m1 = mask64(in.w);
          if ((d.e || (d.c & m1) == m1) && (n.e || (n.c & m1) == mn)) {
            E z = rew(s, mkBin(AND, mkBin(EQ, n.e ? n.e : mkConst(mn, in.w), mkConst(mn, in.w)), mkBin(EQ, d.e ? d.e : mkConst(m1, in.w), mkConst(m1, in.w))));
            if (!isC(z) || z->val) { Model m; Res r = check(s, z, &m); if (r == SAT) { reportViolation(s, m, "div0", "quotient does not fit"); if (isC(z)) throw PathEnd{""}; assumeCond(s, mkNot(z)); } else if (r == UNKNOWN) R->undecided["solver timeout (div)"]++; else addPC(s, mkNot(z)); } } }
      }
      f.r[in.dst] = binop(s, in.sub, G(0), G(1), in.w); f.ip++; break; }
    case I_ICMP: {
      if (in.ty2->kind == 3) { auto &x = aggOf(G(0).e); auto &y = aggOf(G(1).e); std::vector<Val> v; for (size_t i = 0; i < in.ty2->el.size(); i++) v.push_back(icmp(in.sub, x[i], y[i], in.ty2->el[i].second->w)); f.r[in.dst] = V(mkAgg(v)); f.ip++; break; }
      f.r[in.dst] = icmp(in.sub, G(0), G(1), in.ty2->w); f.ip++; break; }
    case I_FBIN: { const Val &a = G(0), &b = G(1); int k = in.ty->kind; if (k == 3) throw PathEnd{"fp vector"};
      if (a.e || b.e || k == 5) { f.r[in.dst] = opaque(s, "fb" + std::to_string(in.sub) + vkey(a) + vkey(b), in.w); f.ip++; break; }
      double x = asD(a, k), y = asD(b, k), r; switch (in.x[0]) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
      f.r[in.dst] = fromD(r, k); f.ip++; break; }
    case I_FNEG: { const Val &a = G(0); if (a.e) f.r[in.dst] = V(mkBin(XOR, a.e, mkConst((u128)1 << (in.w - 1), in.w))); else f.r[in.dst] = Val(a.c ^ (1ULL << (in.w - 1))); f.ip++; break; }
    case I_FCMP: { const Val &a = G(0), &b = G(1); int k = in.ty2->kind; if (k == 3) throw PathEnd{"fp vector"}; if (a.e || b.e || k == 5) { f.r[in.dst] = opaque(s, "fc" + std::to_string(in.sub) + vkey(a) + vkey(b), 1); f.ip++; break; }
      double x = asD(a, k), y = asD(b, k); bool un = std::isnan(x) || std::isnan(y), r = false; 
      switch (in.sub) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; }
      f.r[in.dst] = Val(r); f.ip++; break; }
    case I_CAST: {
      const Val &a = G(0); u32 sw = in.ty2->w, dw = in.w; Val r;
      if (in.ty->kind == 3 || in.ty2->kind == 3) {
        if (in.ty->kind == 3 && in.ty2->kind == 3 && in.ty->el.size() == in.ty2->el.size() && (in.x[0] == Instruction::ZExt || in.x[0] == Instruction::SExt || in.x[0] == Instruction::Trunc)) { auto &v = aggOf(a.e); std::vector<Val> o; for (size_t i = 0; i < v.size(); i++) { E x = X(v[i], in.ty2->el[i].second->w); u32 d = in.ty->el[i].second->w; o.push_back(V(in.x[0] == Instruction::ZExt ? mkZext(x, d) : in.x[0] == Instruction::SExt ? mkSext(x, d) : mkTrunc(x, d))); } f.r[in.dst] = V(mkAgg(o)); f.ip++; break; }
        if (in.x[0] == Instruction::BitCast) { // via concatenation
          E acc = nullptr; if (in.ty2->kind == 3) { for (size_t i = 0; i < in.ty2->el.size(); i++) { E x = X(aggOf(a.e)[i], in.ty2->el[i].second->w); acc = acc ? mkConcat(x, acc) : x; } } else acc = X(a, sw);
          if (in.ty->kind == 3) { std::vector<Val> o; u32 at = 0; for (auto &e : in.ty->el) { o.push_back(V(mkExtract(acc, at, e.second->w))); at += e.second->w; } f.r[in.dst] = V(mkAgg(o)); } else f.r[in.dst] = V(acc); f.ip++; break; }
        throw PathEnd{"vector cast"}; }
      switch (in.x[0]) {
      case Instruction::Trunc: if (a.e) r = V(mkTrunc(a.e, dw)); else r = Val(a.c & mask64(dw)); break;
      case Instruction::ZExt: if (a.e) r = V(mkZext(a.e, dw)); else if (dw > 64) { r.e = mkConst(a.c, dw); } else r = Val(a.c & mask64(sw)); break;
      case Instruction::SExt: if (a.e) r = V(mkSext(a.e, dw)); else if (dw > 64) { r.e = mkSext(mkConst(a.c, sw), dw); } else r = Val((u64)sext64(a.c, sw) & mask64(dw)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.e) r = V(dw < sw ? mkTrunc(a.e, dw) : mkZext(a.e, dw)); else r = Val(a.c & mask64(dw)); break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: r = a; break;
      default: { int k = in.ty->kind, k2 = in.ty2->kind; if (a.e || k == 5 || k2 == 5) { r = opaque(s, "cv" + std::to_string(in.x[0]) + "_" + std::to_string(dw) + vkey(a), dw); break; }
        switch (in.x[0]) { case Instruction::UIToFP: r = fromD((double)(a.c & mask64(sw)), k); break; case Instruction::SIToFP: r = fromD((double)sext64(a.c, sw), k); break; case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(a, k2), k); break;
          case Instruction::FPToUI: { double d = asD(a, k2); u64 v = d < 0 ? (u64)(i64)d : d >= 9.3e18 ? (u64)d : (u64)d; r = Val(v & mask64(dw)); break; } case Instruction::FPToSI: r = Val((u64)(i64)asD(a, k2) & mask64(dw)); break; default: throw PathEnd{"cast"}; } } }
      f.r[in.dst] = r; f.ip++; break; }
    case I_LOAD: f.r[in.dst] = loadTy(s, G(0), 0, in.ty, in.o[0]); curF(s)->ip++; break;
    case I_STORE: storeTy(s, G(1), 0, in.ty, G(0), in.o[1]); curF(s)->ip++; break;
    case I_GEP: {
      Val b = G(0); if (b.e) b = V(mkBin(ADD, b.e, mkConst(in.x[0], 64))); else b.c += in.x[0];
      for (size_t i = 1; i < in.o.size(); i++) { Val ix = G(i); u64 sc = in.x[1 + 2 * (i - 1)]; u32 w = (u32)in.x[2 + 2 * (i - 1)];
        if (!ix.e) { u64 o = (u64)sext64(ix.c, w) * sc; if (b.e) b = V(mkBin(ADD, b.e, mkConst(o, 64))); else b.c += o; }
        else { E x = mkSext(ix.e, 64); 
          if (x->op == SEXT) { // usually provably non-negative on this path
            E neg = rew(s, mkExtract(ix.e, w - 1, 1)); bool nn = false; if (isC(neg)) nn = !neg->val; else { Model m; Res r = check(s, neg, &m); if (r == UNSAT) { addPC(s, mkNot(neg)); nn = true; } } if (nn) x = mkZext(ix.e, 64); }
          E m = mkBin(MUL, x, mkConst(sc, 64)); b = V(mkBin(ADD, m, X(b, 64))); } }
      f.r[in.dst] = b; f.ip++; break; }
    case I_SELECT: { Val c = G(0);
      if (c.e && c.e->op == AGG) { auto &cv = aggOf(c.e); auto &x = aggOf(G(1).e); auto &y = aggOf(G(2).e); std::vector<Val> v; for (size_t i = 0; i < cv.size(); i++) v.push_back(cv[i].e ? V(mkIte(cv[i].e, X(x[i], in.ty->el[i].second->w), X(y[i], in.ty->el[i].second->w))) : cv[i].c & 1 ? x[i] : y[i]); f.r[in.dst] = V(mkAgg(v)); f.ip++; break; }
      if (c.e) { E q = rew(s, c.e); c = V(q); }
      f.r[in.dst] = c.e ? selVal(c, G(1), G(2), in.ty) : (c.c & 1) ? G(1) : G(2); f.ip++; break; }
    case I_COPY: f.r[in.dst] = G(0); f.ip++; break;
    case I_NOP: if (in.dst >= 0) f.r[in.dst] = zeroOf(in.ty); f.ip++; break;
    case I_BR: jump(s, f, in.t0); break;
    case I_CONDBR: { const Val &c = G(0); if (!c.e) { jump(s, f, (c.c & 1) ? in.t0 : in.t1); break; }
      int t0 = in.t0, t1 = in.t1; forkCond(s, c.e, [&](State &t, bool b) { Frame &g = t.fr.back(); jump(t, g, b ? t0 : t1); }); break; }
    case I_SWITCH: { Val c = G(0); if (c.e) { E e = rew(s, c.e); if (isC(e)) c = Val((u64)e->val); else {
          // fork over distinct targets
          E dflt = mkConst(1, 1); std::map<int, E> tg; for (size_t i = 0; i < in.x.size(); i += 2) { E q = mkBin(EQ, e, mkConst(in.x[i], in.w)); dflt = mkBin(AND, dflt, mkNot(q)); auto it = tg.find((int)in.x[i + 1]); if (it == tg.end()) tg[(int)in.x[i + 1]] = q; else it->second = mkBin(OR, it->second, q); }
          auto d = tg.find(in.t0); if (d == tg.end()) tg[in.t0] = dflt; else d->second = mkBin(OR, d->second, dflt);
          std::vector<std::pair<int, E>> feas; std::vector<Model> ms; for (auto &kv : tg) { Model m; E q = rew(s, kv.second); if (isC(q) && !q->val) continue; Res r = check(s, q, &m); if (r == UNKNOWN) R->undecided["solver timeout (switch)"]++; if (r == SAT) { feas.push_back({kv.first, q}); ms.push_back(m); } }
          if (feas.empty()) throw PathEnd{"switch"};
          for (size_t i = 1; i < feas.size(); i++) { State *n = cloneFor(s); addPC(*n, feas[i].second); n->model = ms[i]; n->forks++; jump(*n, n->fr.back(), feas[i].first); work.push_back(n); }
          addPC(s, feas[0].second); s.model = ms[0]; jump(s, s.fr.back(), feas[0].first); break; } }
      int t = in.t0; u64 v = c.c & mask64(in.w); for (size_t i = 0; i < in.x.size(); i += 2) if (in.x[i] == v) { t = (int)in.x[i + 1]; break; } jump(s, f, t); break; }
    case I_RET: { Val v; if (!in.o.empty()) v = G(0); int rd = f.retdst; s.sp = f.sp; s.allocas.resize(f.nalloca); s.fr.pop_back(); if (s.fr.empty()) { finishPath(s); return; } Frame &c = s.fr.back(); if (rd >= 0) c.r[rd] = v; break; }
    case I_ALLOCA: { const Val &n = G(0); if (n.e) concretise(s, in.o[0], n.e, "alloca"); f.r[in.dst] = Val(stackAlloc(s, in.x[0] * n.c, in.x[1])); f.ip++; break; }
    case I_EXTV: { Val v = G(0); for (u64 k : in.x) { if (!v.e || v.e->op != AGG) throw PathEnd{"extractvalue"}; v = aggOf(v.e)[k]; } f.r[in.dst] = v; f.ip++; break; }
    case I_INSV: { std::function<Val(const Val &, size_t)> ins = [&](const Val &v, size_t d) -> Val { if (d == in.x.size()) return G(1); if (!v.e || v.e->op != AGG) throw PathEnd{"insertvalue"}; std::vector<Val> e = aggOf(v.e); e[in.x[d]] = ins(e[in.x[d]], d + 1); return V(mkAgg(e)); }; f.r[in.dst] = ins(G(0), 0); f.ip++; break; }
    case I_EXTE: { const Val &ix = G(1); if (ix.e) concretise(s, in.o[1], ix.e, "extractelement"); f.r[in.dst] = aggOf(G(0).e)[ix.c]; f.ip++; break; }
    case I_INSE: { const Val &ix = G(2); if (ix.e) concretise(s, in.o[2], ix.e, "insertelement"); std::vector<Val> e = aggOf(G(0).e); e[ix.c] = G(1); f.r[in.dst] = V(mkAgg(e)); f.ip++; break; }
    case I_SHUF: { auto &a = aggOf(G(0).e); auto &b = aggOf(G(1).e); std::vector<Val> v; for (u64 k : in.x) { int q = (int)k; v.push_back(q < 0 ? Val(0) : q < (int)a.size() ? a[q] : b[q - a.size()]); } f.r[in.dst] = V(mkAgg(v)); f.ip++; break; }
    case I_UNREACH: throw PathEnd{"unreachable in " + whereOf(s)};
    case I_CALL: {
      static std::vector<Val> a; a.clear(); size_t na = in.o.size(); bool ind = in.bi < 0 && !in.callee; if (ind) na--;
      for (size_t i = 0; i < na; i++) a.push_back(G(i));
      if (in.bi >= 0) { doBuiltin(s, in, a); s.fr.back().ip++; break; }
      Func *cf = in.callee;
      if (ind) { Val t = G(na); if (t.e) { E e = rew(s, t.e); if (isC(e)) t = Val((u64)e->val); else concretise(s, in.o[na], e, "call target"); }
        auto it = byAddr.find(t.c); if (it == byAddr.end()) { if (optDebug) fprintf(stderr, "bad call target %llx\n", (unsigned long long)t.c); 
          Dl_info di; if (t.c && findObj(s, t.c).kind && dladdr((void *)t.c, &di) && di.dli_sname) throw PathEnd{std::string("indirect external call ") + di.dli_sname}; reportViolation(s, s.model, "memory", "call through invalid function pointer"); throw PathEnd{""}; } cf = it->second; }
      std::vector<Val> args(a); f.ip++; pushFrame(s, cf, args, in.dst); break; }
    case I_RMW: { Val old = loadTy(s, G(0), 0, in.ty, in.o[0]); Val nv; switch (in.sub) { case AtomicRMWInst::Add: nv = binop(s, ADD, old, G(1), in.w); break; case AtomicRMWInst::Sub: nv = binop(s, SUB, old, G(1), in.w); break; case AtomicRMWInst::Xchg: nv = G(1); break; default: throw PathEnd{"rmw"}; } storeTy(s, G(0), 0, in.ty, nv, in.o[0]); f.r[in.dst] = old; f.ip++; break; }
    default: throw PathEnd{"unsupported instruction " + in.ext + " in " + whereOf(s)};
    }
  }
}

static void runCase(long c, CaseResult &res) {
  R = &res; curCase = c; work.clear(); seenViol.clear(); caseDeadline = now() + optCaseBudget;
  State *s = new State; s->sp = STK + 4096; s->heap = HEAP2;
  Func *f = getFunc("sym_test"); if (!f) fatal("no sym_test");
  s->fr.reserve(32);
  { Frame n; translate(f); n.f = f; n.bb = 0; n.ip = 0; n.prev = -1; n.r.resize(f->nregs); n.retdst = -1; n.sp = s->sp; n.nalloca = 0; n.va = 0; n.r[0] = Val((u64)c); s->fr.push_back(n); funcsRun.insert(f->name); }
  work.push_back(s);
  while (!work.empty()) {
    State *t = work.back(); work.pop_back();
    if (now() > caseDeadline) { res.undecided["case time budget"]++; delete t; for (auto *k : work) delete k; work.clear(); break; }
    if (res.paths + res.killed > optMaxPaths) { res.undecided["path bound"]++; delete t; for (auto *k : work) delete k; work.clear(); break; }
    if ((int)res.viol.size() >= optMaxViol) { delete t; for (auto *k : work) delete k; work.clear(); break; }
    try { for (;;) { try { runState(*t); break; } catch (Forked &) {} } }
    catch (PathEnd &p) { res.killed++; if (!p.why.empty() && p.why != "\1") { try { flushAsserts(*t); } catch (PathEnd &) {} res.undecided[p.why]++; if (optDebug) fprintf(stderr, "path end: %s  [%s]\n", p.why.c_str(), whereOf(*t).c_str()); } else { try { flushAsserts(*t); } catch (PathEnd &) {} } }
    delete t;
  }
}

// ---------------------------------------------------------------- output
static std::string jesc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string toJson(long c, const std::string &name, const CaseResult &r, double t, const Solver &s0, const Solver &s1) {
  char b[800]; std::string o = "{\"case\":" + std::to_string(c) + ",\"name\":\"" + jesc(name) + "\"";
  snprintf(b, sizeof b, ",\"paths\":%llu,\"killed\":%llu,\"asserts\":%llu,\"assertq\":%llu,\"forks\":%llu,\"insts\":%llu,\"validated\":%llu,\"valfail\":%llu,\"opaque\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhits\":%llu,\"solver_s\":%.3f,\"time_s\":%.3f",
    (unsigned long long)r.paths, (unsigned long long)r.killed, (unsigned long long)r.asserts, (unsigned long long)r.assertq, (unsigned long long)r.forks, (unsigned long long)r.insts, (unsigned long long)r.validated, (unsigned long long)r.valfail, (unsigned long long)r.opaquepaths,
    (unsigned long long)(s1.queries - s0.queries), (unsigned long long)(s1.sat - s0.sat), (unsigned long long)(s1.unsat - s0.unsat), (unsigned long long)(s1.unknown - s0.unknown), (unsigned long long)(s1.cachehits - s0.cachehits), (unsigned long long)(s1.modelhits - s0.modelhits), s1.secs - s0.secs, t);
  o += b; o += ",\"undecided\":{"; bool first = true; for (auto &kv : r.undecided) { if (!first) o += ","; first = false; o += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
  o += "},\"reach\":{"; first = true; for (auto &kv : r.reach) { if (!first) o += ","; first = false; o += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
  o += "},\"valmsg\":\"" + jesc(r.valmsg) + "\",\"violations\":["; first = true;
  for (auto &v : r.viol) { if (!first) o += ","; first = false; o += "{\"kind\":\"" + v.kind + "\",\"msg\":\"" + jesc(v.msg) + "\",\"where\":\"" + jesc(v.where) + "\",\"inputs\":\"" + jesc(v.inputs) + "\",\"replay\":\"" + jesc(v.replayout.substr(0, 2000)) + "\"}"; }
  o += "]}\n"; return o;
}

struct Shared { volatile long next; volatile long done; };

int main(int argc, char **argv) {
  std::string so, out, replay, listf; std::vector<std::string> bcs; long only = -1; bool list = false; std::string bcl;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--so") so = nx(); else if (a == "--out") out = nx(); else if (a == "--bclist") bcl = nx(); else if (a == "--case") only = atol(nx().c_str()); else if (a == "--only") optOnly = nx(); else if (a == "--jobs") optJobs = atoi(nx().c_str());
    else if (a == "--case-budget") optCaseBudget = atof(nx().c_str()); else if (a == "--budget") optBudget = atof(nx().c_str()); else if (a == "--max-paths") optMaxPaths = atoll(nx().c_str()); else if (a == "--max-insts") optMaxInsts = atoll(nx().c_str()); else if (a == "--thorough") optThorough = 1; else if (a == "--debug") optDebug = optPrint = true; else if (a == "--print") optPrint = true; else if (a == "--replay") replay = nx(); else if (a == "--list") list = true; else if (a == "--no-validate") optValidate = 0; else if (a == "--query-timeout") optQueryTimeout = atof(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--max-fork") optMaxFork = atoi(nx().c_str());
    else fatal("unknown option %s", a.c_str()); }
  setenv("LC_ALL", "C", 1);
  void *st = mmap((void *)STK, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (st != (void *)STK) fatal("mmap stack");
  // zero page backing for the symbolic heap (never written for real)
  if (mmap((void *)HEAP2, 8ULL << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)HEAP2) fatal("mmap heap");
  double t0 = now();
  lib = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!lib) fatal("dlopen: %s", dlerror());
  t_setup = (void (*)())dlsym(lib, "sym_setup"); t_test = (void (*)(long))dlsym(lib, "sym_test"); t_ncases = (long (*)())dlsym(lib, "sym_ncases"); t_casename = (void (*)(long, char *, int))dlsym(lib, "sym_casename");
  if (!t_setup || !t_test || !t_ncases) fatal("harness symbols missing");
  int so1 = dup(1), so2 = dup(2); if (!optDebug) { int dn = open("/dev/null", O_RDWR); fflush(stdout); dup2(dn, 1); close(dn); }
  t_setup(); long n = t_ncases(); fflush(stdout); dup2(so1, 1); (void)so2;
  auto nameOf = [&](long c) { char b[200]; snprintf(b, sizeof b, "case%ld", c); if (t_casename) t_casename(c, b, sizeof b); return std::string(b); };
  if (list) { for (long i = 0; i < n; i++) printf("%ld %s\n", i, nameOf(i).c_str()); return 0; }
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r"); if (!f) fatal("cannot open %s", replay.c_str()); std::string in; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) in.append(b, k); fclose(f);
    long c = only; std::string cn; size_t p = in.find("case "); if (p != std::string::npos && (p == 0 || in[p - 1] == '\n')) { size_t e = in.find('\n', p); cn = in.substr(p + 5, e - p - 5); for (long i = 0; i < n; i++) if (nameOf(i) == cn) c = i; }
    if (c < 0) fatal("no case in replay");
    std::string o = runNative(c, in); fputs(o.c_str(), stdout); bool bad = o.find("ASSERT ") != std::string::npos || o.find("SIGNAL") != std::string::npos; return bad ? 1 : 0; }
  // modules
  { FILE *f = fopen(bcl.c_str(), "r"); if (!f) fatal("bclist"); char b[4096]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) bcs.push_back(b); } fclose(f); }
  for (auto &p : bcs) { SMDiagnostic e; auto M = getLazyIRFileModule(p, e, ctx); if (!M) { e.print("symex", errs()); return 3; } mods.push_back(std::move(M)); }
  if (mods.empty()) fatal("no modules");
  DL = &mods[0]->getDataLayout(); errnoAddr = STK + 64;
  for (auto &M : mods) {
    for (auto &F : *M) if (!F.isDeclaration()) { std::string nm = F.getName().str(); if (!defs.count(nm)) { defs[nm] = &F; u64 a = (u64)dlsym(lib, nm.c_str()); symAddr[nm] = a; if (a) byAddr[a] = nullptr; } }
    for (auto &A : M->aliases()) if (auto *F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) { std::string nm = A.getName().str(); if (!defs.count(nm)) { defs[nm] = F; u64 a = (u64)dlsym(lib, nm.c_str()); symAddr[nm] = a; if (a && !byAddr.count(a)) byAddr[a] = nullptr; } }
    for (auto &g : M->globals()) if (!g.isDeclaration() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") { std::string nm = g.getName().str(); u64 a = (u64)dlsym(lib, nm.c_str()); if (!a) continue; symAddr[nm] = a; u64 sz = DL->getTypeAllocSize(g.getValueType()); gobjs.push_back({a, a + sz, g.isConstant(), nullptr}); }
  }
  for (auto &kv : defs) { u64 a = symAddr[kv.first]; if (a) { Func *&f = byAddr[a]; if (!f) f = getFunc(kv.first); } }
  std::sort(gobjs.begin(), gobjs.end(), [](const Obj &a, const Obj &b) { return a.lo < b.lo || (a.lo == b.lo && a.hi > b.hi); });
  { u64 nb = *(u64 *)dlsym(lib, "vrt_nblocks"); struct B { u64 s, n; } *bl = *(B **)dlsym(lib, "vrt_blocks"); for (u64 i = 0; i < nb; i++) if (!(bl[i].n >> 63)) hobjs.push_back({bl[i].s, bl[i].s + (bl[i].n ? bl[i].n : 1), false, nullptr}); std::sort(hobjs.begin(), hobjs.end(), [](const Obj &a, const Obj &b) { return a.lo < b.lo; }); }
  { FILE *f = fopen("/proc/self/maps", "r"); char b[1000]; while (fgets(b, sizeof b, f)) { unsigned long lo, hi; char p[8]; if (sscanf(b, "%lx-%lx %7s", &lo, &hi, p) == 3 && p[0] == 'r' && !strstr(b, so.c_str()) && !(lo >= 0x5e0000000000ULL && lo < 0x700000000000ULL)) maps.push_back({lo, hi}); } fclose(f); gobjs.push_back({STK + 64, STK + 72, false, nullptr}); }
  // errno lives in the stack page
  { std::sort(gobjs.begin(), gobjs.end(), [](const Obj &a, const Obj &b) { return a.lo < b.lo; }); }
  double tload = now() - t0;
  std::vector<long> cases; for (long i = 0; i < n; i++) if (only < 0 || i == only) { if (!optOnly.empty() && nameOf(i).find(optOnly) == std::string::npos) continue; cases.push_back(i); }
  Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->done = 0;
  FILE *of = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!of) fatal("out");
  fprintf(of, "{\"meta\":1,\"ncases\":%ld,\"selected\":%zu,\"load_s\":%.2f,\"functions_defined\":%zu}\n", n, cases.size(), tload, defs.size()); fflush(of); int ofd = fileno(of);
  int jobs = std::min<int>(optJobs, std::max<size_t>(1, cases.size())); double tstart = now();
  auto worker = [&]() {
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 400ULL << 30; setrlimit(RLIMIT_AS, &rl);
    solver = new Solver; solver->timeout_ms = (unsigned)(optQueryTimeout * 1000);
    auto emit = [&](const std::string &l) { // atomic append via flock-free single write to O_APPEND
      size_t k = 0; while (k < l.size()) { ssize_t w = write(ofd, l.data() + k, l.size() - k); if (w <= 0) break; k += w; } };
    std::string funcsLine; u64 base = g_nexpr;
    for (;;) {
      long i = __sync_fetch_and_add(&sh->next, 1); if (i >= (long)cases.size()) break;
      long c = cases[i]; std::string nm = nameOf(c);
      if (now() - tstart > optBudget) { emit("{\"case\":" + std::to_string(c) + ",\"name\":\"" + jesc(nm) + "\",\"skipped\":1}\n"); continue; }
      emit("{\"start\":" + std::to_string(c) + "}\n");
      CaseResult r; Solver s0 = *solver; double a = now(); runCase(c, r); emit(toJson(c, nm, r, now() - a, s0, *solver));
      if (g_nexpr - base > 6000000) { std::string l = "{\"funcs\":["; bool first = true; for (auto &x : funcsRun) { if (!first) l += ","; first = false; l += "\"" + jesc(x) + "\""; } l += "]}\n"; emit(l); _exit(77); }
    }
    std::string l = "{\"funcs\":["; bool first = true; for (auto &x : funcsRun) { if (!first) l += ","; first = false; l += "\"" + jesc(x) + "\""; } l += "]}\n"; emit(l);
  };
  fcntl(ofd, F_SETFL, fcntl(ofd, F_GETFL) | O_APPEND);
  if (optDebug && jobs == 1) { worker(); return 0; }
  std::set<pid_t> kids; auto spawn = [&] { fflush(nullptr); pid_t p = fork(); if (p == 0) { worker(); _exit(0); } kids.insert(p); };
  for (int i = 0; i < jobs; i++) spawn();
  while (!kids.empty()) { int stt; pid_t p = wait(&stt); if (p < 0) break; if (!kids.erase(p)) continue; bool ok = WIFEXITED(stt) && WEXITSTATUS(stt) == 0; bool recycle = WIFEXITED(stt) && WEXITSTATUS(stt) == 77; if (!ok && sh->next < (long)cases.size()) spawn(); if (!ok && !recycle) { char b[100]; int k = snprintf(b, sizeof b, "{\"crash\":%d}\n", WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt)); if (write(ofd, b, k) < 0) {} } }
  return 0;
}
