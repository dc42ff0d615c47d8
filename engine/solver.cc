#include "solver.h"
#include <z3.h>
#include <cstdio>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <string>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver::Impl {
  Z3_context c; std::unordered_map<E, Z3_ast> memo; 
  std::map<std::vector<u32>, int> cache;       // slice (expr ids) -> UNSAT only / SAT w/ model index
  std::vector<Model> models;                   // per cached SAT
  std::map<std::vector<u32>, int> satcache;
  Z3_sort bv(u32 w) { return Z3_mk_bv_sort(c, w); }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int(c, 1, bv(1)), Z3_mk_unsigned_int(c, 0, bv(1))); }
  Z3_ast tob(E e);   // width-1 expr as Bool
  Z3_ast tov(E e);   // as bit-vector
  std::unordered_map<E, Z3_ast> bmemo;
  Z3_ast cst(u128 v, u32 w) {
    if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, bv(w));
    Z3_ast hi = Z3_mk_unsigned_int64(c, (u64)(v >> 64), bv(w - 64)), lo = Z3_mk_unsigned_int64(c, (u64)v, bv(64));
    return Z3_mk_concat(c, hi, lo);
  }
  Z3_ast symconst(E e) { char nm[64]; snprintf(nm, sizeof nm, "%c%u", e->op == VAR ? 'v' : 's', e->id); return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), bv(e->w)); }
};
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
Solver::Solver() { im = new Impl; Z3_config cfg = Z3_mk_config(); im->c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(im->c, z3err); }
Solver::~Solver() {}

Z3_ast Solver::Impl::tob(E e) {
  auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case CONST: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
  case EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(c, tob(e->k[0]), tob(e->k[1])); else r = Z3_mk_eq(c, tov(e->k[0]), tov(e->k[1])); break;
  case ULT: r = Z3_mk_bvult(c, tov(e->k[0]), tov(e->k[1])); break;
  case ULE: r = Z3_mk_bvule(c, tov(e->k[0]), tov(e->k[1])); break;
  case SLT: r = Z3_mk_bvslt(c, tov(e->k[0]), tov(e->k[1])); break;
  case SLE: r = Z3_mk_bvsle(c, tov(e->k[0]), tov(e->k[1])); break;
  case AND: { Z3_ast a[2] = {tob(e->k[0]), tob(e->k[1])}; r = Z3_mk_and(c, 2, a); break; }
  case OR: { Z3_ast a[2] = {tob(e->k[0]), tob(e->k[1])}; r = Z3_mk_or(c, 2, a); break; }
  case XOR: if (isC(e->k[1])) { r = e->k[1]->val ? Z3_mk_not(c, tob(e->k[0])) : tob(e->k[0]); } else r = Z3_mk_xor(c, tob(e->k[0]), tob(e->k[1])); break;
  case ITE: r = Z3_mk_ite(c, tob(e->k[0]), tob(e->k[1]), tob(e->k[2])); break;
  default: r = Z3_mk_eq(c, tov(e), Z3_mk_unsigned_int(c, 1, bv(1))); break;
  }
  bmemo[e] = r; return r;
}
Z3_ast Solver::Impl::tov(E e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case CONST: r = cst(e->val, e->w); break;
  case VAR: case SEL: r = symconst(e); break;
  case CONCAT: r = Z3_mk_concat(c, tov(e->k[0]), tov(e->k[1])); break;
  case EXTRACT: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, tov(e->k[0])); break;
  case ZEXT: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, tov(e->k[0])); break;
  case SEXT: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, tov(e->k[0])); break;
  case ITE: r = Z3_mk_ite(c, tob(e->k[0]), tov(e->k[1]), tov(e->k[2])); break;
  case EQ: case ULT: case ULE: case SLT: case SLE: r = b2v(tob(e)); break;
  default: {
    if (e->w == 1 && (e->op == AND || e->op == OR || e->op == XOR)) { r = b2v(tob(e)); break; }
    Z3_ast a = tov(e->k[0]), b = tov(e->k[1]);
    switch (e->op) {
    case ADD: r = Z3_mk_bvadd(c, a, b); break; case SUB: r = Z3_mk_bvsub(c, a, b); break; case MUL: r = Z3_mk_bvmul(c, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(c, a, b); break; case SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
    case UREM: r = Z3_mk_bvurem(c, a, b); break; case SREM: r = Z3_mk_bvsrem(c, a, b); break;
    case AND: r = Z3_mk_bvand(c, a, b); break; case OR: r = Z3_mk_bvor(c, a, b); break; case XOR: r = Z3_mk_bvxor(c, a, b); break;
    case SHL: r = Z3_mk_bvshl(c, a, b); break; case LSHR: r = Z3_mk_bvlshr(c, a, b); break; case ASHR: r = Z3_mk_bvashr(c, a, b); break;
    default: fprintf(stderr, "tov: bad op %d\n", e->op); abort();
    } }
  }
  memo[e] = r; return r;
}

Res Solver::check(const std::vector<E> &pc, E q, const Model &base, Model *upd) {
  if (isC(q)) { if (!q->val) return UNSAT; if (upd) *upd = base; return SAT; }
  // does the base model already satisfy q?
  { Evaluator ev(base); if (ev.ev(q)) { modelhits++; if (upd) *upd = base; return SAT; } }
  // slice
  std::vector<E> sl; std::vector<char> used(pc.size(), 0);
  std::set<u32> syms(symsOf(q).begin(), symsOf(q).end());
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto &s = symsOf(pc[i]); bool hit = false; for (u32 x : s) if (syms.count(x)) { hit = true; break; }
      if (hit) { used[i] = 1; sl.push_back(pc[i]); for (u32 x : s) if (syms.insert(x).second) ch = true; } } }
  sl.push_back(q);
  std::vector<u32> key; for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto ci = im->cache.find(key);
  if (ci != im->cache.end()) { cachehits++; return UNSAT; }
  auto cs = im->satcache.find(key);
  auto merge = [&](const Model &part) {
    if (!upd) return;
    Model m = base;
    for (u32 x : syms) { if (x & 0x80000000u) { u32 a = x & 0x7fffffff; auto it = part.arrs.find(a); if (it != part.arrs.end()) m.arrs[a] = it->second; else m.arrs.erase(a); }
      else { auto it = part.vars.find(x); if (it != part.vars.end()) m.vars[x] = it->second; else m.vars.erase(x); } }
    *upd = m; };
  if (cs != im->satcache.end()) { cachehits++; merge(im->models[cs->second]); return SAT; }
  // solve
  double t0 = now(); queries++;
  Z3_context c = im->c;
  std::set<E> vars, sels, seen; for (E e : sl) collectLeaves(e, vars, sels, seen);
  static Z3_solver s = nullptr; static Z3_context sc = nullptr;
  if (sc != c) { s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); sc = c;
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); }
  Z3_solver_reset(c, s);
  for (E e : sl) Z3_solver_assert(c, s, im->tob(e));
  // ackermannise SELs
  std::map<u32, std::vector<E>> by; for (E e : sels) by[e->aux].push_back(e);
  for (auto &kv : by) { auto &v = kv.second; std::sort(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
      E a = v[i]->k[0], b = v[j]->k[0]; E eq = mkBin(EQ, a, b); if (isC(eq) && !eq->val) continue;
      E imp = mkBin(OR, mkNot(eq), mkBin(EQ, v[i], v[j])); if (isC(imp)) continue;
      Z3_solver_assert(c, s, im->tob(imp)); } }
  Z3_lbool r = Z3_solver_check(c, s);
  Res out = UNKNOWN;
  if (r == Z3_L_FALSE) { out = UNSAT; unsat++; im->cache[key] = 1; }
  else if (r == Z3_L_TRUE) {
    out = SAT; sat++;
    Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
    auto val = [&](E e) -> u64 { Z3_ast o; if (!Z3_model_eval(c, m, im->symconst(e), true, &o)) return 0;
      if (e->w <= 64) { uint64_t v = 0; Z3_get_numeral_uint64(c, o, &v); return v; } return 0; };
    Model part; for (E e : vars) part.vars[e->aux] = val(e);
    std::vector<E> ss(sels.begin(), sels.end()); std::sort(ss.begin(), ss.end(), [](E a, E b) { return a->id < b->id; });
    // SEL indices may contain other SELs: creation order (id) guarantees inner ones come first
    for (E e : ss) { Evaluator ev(part); u64 ix = (u64)ev.ev(e->k[0]); part.arrs[e->aux][ix] = val(e); }
    Z3_model_dec_ref(c, m);
    { Evaluator ev(part); for (E e : sl) if (!ev.ev(e)) { fprintf(stderr, "solver: model does not satisfy slice: %s\n", exprStr(e, 8).c_str()); out = UNKNOWN; break; } }
    if (out == SAT) { im->satcache[key] = im->models.size(); im->models.push_back(part); merge(part); }
  } else { unknown++; }
  secs += now() - t0;
  return out;
}
