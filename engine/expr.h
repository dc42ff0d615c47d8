// Hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
typedef unsigned __int128 u128;

enum Op : u8 { CONST, VAR, SEL, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE, AGG };

struct Expr;
typedef const Expr *E;
struct Expr {
  Op op; u32 w; u32 id; u32 aux;    // aux: EXTRACT low bit; VAR var id; SEL array id
  u128 val;                         // CONST
  E k[3];
  u64 umin, umax, kz;               // for w<=64: unsigned range, bits known zero
  u32 symlo;                        // index into symbol-set table
  u32 size;                         // dag-ish size cap
  bool hasite;
};
struct AggData { std::vector<struct Val> v; };

struct Val {                        // a machine value: concrete (e==null) or symbolic
  E e; u64 c;
  Val(): e(nullptr), c(0) {}
  Val(u64 x): e(nullptr), c(x) {}
  static Val sym(E x);
};

static inline u64 mask64(u32 w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline u128 mask128(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i64 sext64(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= mask64(w); return (i64)((v ^ m) - m); }

E mkConst(u128 v, u32 w);
E mkVar(const std::string &name, u32 w);         // fresh or same-named variable
E mkSel(u32 arr, E idx, u32 w);                  // initial content of array
E mkBin(Op op, E a, E b);
E mkExtract(E x, u32 lo, u32 w);
E mkConcat(E hi, E lo);
E mkZext(E x, u32 w);
E mkSext(E x, u32 w);
E mkTrunc(E x, u32 w);
E mkIte(E c, E a, E b);
E mkNot(E a);                                    // bitwise
E mkAgg(std::vector<Val> v);
const std::vector<Val> &aggOf(E e);
static inline bool isC(E e) { return e->op == CONST; }
std::string exprStr(E e, int depth = 6);

struct LinForm { u64 c; std::map<E, u64> t; };   // c + sum coef*atom (mod 2^w)
void linForm(E e, LinForm &lf, u64 mul = 1);
// 1: definitely equal, 0: definitely different, -1: unknown
int cmpEq(E a, E b);
std::vector<u64> linKey(E c);

struct VarInfo { std::string name; u32 w; E e; };
extern std::vector<VarInfo> g_vars;
struct ArrInfo { std::string name; u32 elemw; u64 n; };
extern std::vector<ArrInfo> g_arrs;
u32 mkArr(const std::string &name, u32 elemw, u64 n);
// symbol set (VARs as id, arrays as 0x80000000|id)
const std::vector<u32> &symsOf(E e);
void collectLeaves(E e, std::set<E> &vars, std::set<E> &sels, std::set<E> &seen);

struct Model {
  std::unordered_map<u32, u64> vars;                        // var id -> value
  std::unordered_map<u32, std::map<u64, u64>> arrs;         // arr id -> idx -> value
};
// evaluate under model
struct Evaluator {
  const Model &m; std::unordered_map<E, u128> memo;
  Evaluator(const Model &mm): m(mm) {}
  u128 ev(E e);
};
extern u64 g_nexpr;
