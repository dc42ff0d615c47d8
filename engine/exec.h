#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <memory>
#include <functional>

enum IOp : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_LOAD, I_STORE, I_GEP, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA,
  I_EXTV, I_INSV, I_COPY, I_UNREACH, I_EXTE, I_INSE, I_SHUF, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP };

struct Ty {                     // flattened type descriptor
  u8 kind;                      // 0 int/ptr, 1 float(32) 2 double(64) 3 aggregate 4 void 5 other fp
  u32 w; u32 bytes;             // bits / store bytes
  std::vector<std::pair<u32, const Ty *>> el;   // offset, type
};
struct Opnd { int r; Val c; };
struct Func;
struct Inst {
  IOp op; u8 sub = 0; int dst = -1; u32 w = 0; const Ty *ty = nullptr; const Ty *ty2 = nullptr;
  std::vector<Opnd> o; std::vector<u64> x;      // extra ints
  int t0 = -1, t1 = -1;                          // branch targets
  Func *callee = nullptr; std::string ext; const llvm::Instruction *I = nullptr;
  int bi = -1;                                   // builtin id
};
struct BB { std::vector<Inst> in; std::map<int, std::vector<std::pair<int, Opnd>>> phi; };
struct Func { std::string name; llvm::Function *F = nullptr; u64 addr = 0; bool ready = false; int nregs = 0, nargs = 0; bool vararg = false; std::vector<BB> bbs; const Ty *ret = nullptr; int stub = 0; };

static const u32 PS = 256;
struct SymB { E e; u8 off; };
struct Page { u8 b[PS]; std::unique_ptr<SymB[]> s; Page() {} Page(const Page &o) { memcpy(b, o.b, PS); if (o.s) { s.reset(new SymB[PS]); memcpy((void *)s.get(), o.s.get(), sizeof(SymB) * PS); } } };
struct Upd { E idx; Val v; std::shared_ptr<Upd> next; };
struct Region { u64 lo, hi; u32 esz; u32 vbits; int arr; std::shared_ptr<Upd> upd; std::string name; };
struct Frame { Func *f; int bb, ip, prev; std::vector<Val> r; int retdst; u64 sp; u64 va; size_t nalloca; };
struct InRec { std::string name; u32 w; E var; };
struct ArrRec { std::string name; u32 arr; };
struct Pend { E c; std::string msg; };
struct Obs { std::string name; Val v; };
struct State {
  std::vector<Frame> fr; std::unordered_map<u64, std::shared_ptr<Page>> pages; std::vector<Region> regs;
  std::vector<E> pc; Model model; std::vector<Pend> pend; std::vector<Obs> obs; std::vector<InRec> ins; std::vector<ArrRec> arrs;
  std::map<std::string, int> names; std::unordered_map<E, u64> eqs; std::map<std::vector<u64>, bool> lineq;
  u64 sp = 0, heap = 0, icount = 0; std::map<u64, u64> blocks; std::set<u64> freed; std::vector<std::pair<u64, u64>> allocas; bool opaque = false;
  int forks = 0; u32 rseed = 0;
};
