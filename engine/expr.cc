#include "expr.h"
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>

std::vector<VarInfo> g_vars;
std::vector<ArrInfo> g_arrs;
u64 g_nexpr = 0;

static std::vector<std::vector<u32>> symsets;
static std::map<std::vector<u32>, u32> symset_ix;
static u32 internSyms(const std::vector<u32> &v) {
  auto it = symset_ix.find(v);
  if (it != symset_ix.end()) return it->second;
  u32 i = symsets.size(); symsets.push_back(v); symset_ix[v] = i; return i;
}
const std::vector<u32> &symsOf(E e) { return symsets[e->symlo]; }

struct Key { Op op; u32 w, aux; u128 val; E k0, k1, k2;
  bool operator==(const Key &o) const { return op==o.op&&w==o.w&&aux==o.aux&&val==o.val&&k0==o.k0&&k1==o.k1&&k2==o.k2; } };
struct KeyH { size_t operator()(const Key &k) const {
  u64 h = k.op * 0x9E3779B97F4A7C15ULL; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
  mix(k.w); mix(k.aux); mix((u64)k.val); mix((u64)(k.val >> 64)); mix((u64)k.k0); mix((u64)k.k1); mix((u64)k.k2); return h; } };
static std::unordered_map<Key, Expr *, KeyH> table;

static void ranges(Expr *e);
static E tabulate(E e);
static E intern(Op op, u32 w, u32 aux, u128 val, E a = nullptr, E b = nullptr, E c = nullptr) {
  Key k{op, w, aux, val, a, b, c};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  Expr *e = new Expr;
  e->op = op; e->w = w; e->aux = aux; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->id = g_nexpr++;
  e->size = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (c ? c->size : 0);
  if (e->size > 1000000) e->size = 1000000;
  if (op == CONST) e->symlo = internSyms({});
  else if (op == VAR) e->symlo = internSyms({aux});
  else {
    u32 s = internSyms({}); bool multi = false; 
    for (int i = 0; i < 3; i++) if (e->k[i]) { u32 t = e->k[i]->symlo; if (symsets[t].empty()) continue; if (symsets[s].empty()) s = t; else if (t != s) multi = true; }
    if (multi || op == SEL) {
      std::vector<u32> v;
      for (int i = 0; i < 3; i++) if (e->k[i]) { auto &o = symsets[e->k[i]->symlo]; v.insert(v.end(), o.begin(), o.end()); }
      if (op == SEL) v.push_back(0x80000000u | aux);
      std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
      s = internSyms(v);
    }
    e->symlo = s;
  }
  ranges(e);
  e->hasite = op == ITE || (op == SEL ? 0 : (a && a->hasite) || (b && b->hasite) || (c && c->hasite));
  if (e->hasite && w <= 64) { E r = tabulate(e); if (r) { table[k] = const_cast<Expr *>(r); return r; } }
  table[k] = e;
  return e;
}

// Expressions with conditionals over at most 9 bits of variables: compare the whole truth table with a constant and with each variable.
static u128 cbin(Op op, u128 a, u128 b, u32 w);
static std::unordered_map<E, std::vector<u64>> tabs;
static std::map<std::pair<u32, u32>, std::vector<unsigned short>> tabmap;
static std::unordered_map<u32, int> tabbits;
static int bitsOf(u32 s) {
  auto it = tabbits.find(s); if (it != tabbits.end()) return it->second;
  int n = 0; for (u32 v : symsets[s]) { if (v & 0x80000000u) { n = 99; break; } n += g_vars[v].w; if (n > 9) { n = 99; break; } }
  return tabbits[s] = n;
}
static const std::vector<unsigned short> &mapOf(u32 s, u32 t) {
  auto &r = tabmap[{s, t}]; if (!r.empty()) return r;
  int n = bitsOf(s); r.resize((size_t)1 << n);
  for (u32 i = 0; i < r.size(); i++) { u32 x = 0, at = 0; for (u32 v : symsets[t]) { u32 p = 0; for (u32 u : symsets[s]) { if (u == v) break; p += g_vars[u].w; } x |= ((i >> p) & ((1u << g_vars[v].w) - 1)) << at; at += g_vars[v].w; } r[i] = x; }
  return r;
}
static const std::vector<u64> &tabOf(E e) {
  auto it = tabs.find(e); if (it != tabs.end()) return it->second;
  size_t n = (size_t)1 << bitsOf(e->symlo); std::vector<u64> r(n);
  if (e->op == CONST) r[0] = (u64)e->val;
  else if (e->op == VAR) for (size_t i = 0; i < n; i++) r[i] = i;
  else {
    const std::vector<u64> *kt[3] = {}; const std::vector<unsigned short> *km[3] = {};
    for (int j = 0; j < 3; j++) if (e->k[j]) tabOf(e->k[j]);
    for (int j = 0; j < 3; j++) if (e->k[j]) { kt[j] = &tabs[e->k[j]]; km[j] = &mapOf(e->symlo, e->k[j]->symlo); }
    for (size_t i = 0; i < n; i++) {
      auto K = [&](int j) -> u64 { return (*kt[j])[(*km[j])[i]]; };
      u64 v;
      switch (e->op) {
      case CONCAT: v = (K(0) << e->k[1]->w) | K(1); break;
      case EXTRACT: v = (K(0) >> e->aux) & mask64(e->w); break;
      case ZEXT: v = K(0); break;
      case SEXT: v = (u64)sext64(K(0), e->k[0]->w) & mask64(e->w); break;
      case ITE: v = K(0) ? K(1) : K(2); break;
      default: v = (u64)cbin(e->op, K(0), K(1), e->k[0]->w); break;
      }
      r[i] = v;
    }
  }
  return tabs[e] = std::move(r);
}
static bool narrow(E e) { if (e->w > 64) return false; for (int i = 0; i < 3; i++) if (e->k[i] && (e->k[i]->w > 64)) return false; return true; }
static E tabulate(E e) {
  if (bitsOf(e->symlo) > 9) return nullptr;
  if (!narrow(e)) { return nullptr; }
  for (int i = 0; i < 3; i++) if (e->k[i] && !tabs.count(e->k[i])) { // children made of wide parts cannot be tabulated
    std::vector<E> st{e->k[i]}; std::set<E> seen; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second || tabs.count(x)) continue; if (!narrow(x) || x->op == SEL || x->op == AGG) return nullptr; for (int j = 0; j < 3; j++) if (x->k[j]) st.push_back(x->k[j]); } }
  const std::vector<u64> &t = tabOf(e);
  bool same = true; for (u64 v : t) if (v != t[0]) { same = false; break; }
  if (same) return mkConst(t[0], e->w);
  u32 at = 0;
  for (u32 s : symsets[e->symlo]) {
    u32 vw = g_vars[s].w; if (vw <= e->w) { bool eq = true; for (size_t i = 0; i < t.size() && eq; i++) eq = t[i] == ((i >> at) & mask64(vw)); if (eq && e != g_vars[s].e) return mkZext(g_vars[s].e, e->w); }
    at += vw;
  }
  return nullptr;
}

E mkConst(u128 v, u32 w) { return intern(CONST, w, 0, v & mask128(w)); }
static std::unordered_map<std::string, u32> var_ix;
E mkVar(const std::string &name, u32 w) {
  auto it = var_ix.find(name);
  if (it != var_ix.end()) { VarInfo &v = g_vars[it->second]; if (v.w == w) return v.e; return mkVar(name + "'", w); }
  u32 id = g_vars.size(); var_ix[name] = id; g_vars.push_back({name, w, nullptr});
  E e = intern(VAR, w, id, 0); g_vars[id].e = e; return e;
}
static std::unordered_map<std::string, u32> arr_ix;
u32 mkArr(const std::string &name, u32 elemw, u64 n) {
  auto it = arr_ix.find(name);
  if (it != arr_ix.end() && g_arrs[it->second].elemw == elemw) return it->second;
  u32 id = g_arrs.size(); arr_ix[name] = id; g_arrs.push_back({name, elemw, n}); return id;
}
E mkSel(u32 arr, E idx, u32 w) { return intern(SEL, w, arr, 0, idx); }

static std::vector<std::vector<Val> *> aggs;
E mkAgg(std::vector<Val> v) { Expr *e = new Expr; memset((void *)e, 0, sizeof *e); e->op = AGG; e->w = 0; e->id = g_nexpr++; e->aux = aggs.size(); e->symlo = internSyms({}); aggs.push_back(new std::vector<Val>(std::move(v))); return e; }
const std::vector<Val> &aggOf(E e) { assert(e && e->op == AGG); return *aggs[e->aux]; }

Val Val::sym(E x) { Val v; if (x->op == CONST && x->w <= 64) { v.c = (u64)x->val; } else v.e = x; return v; }

static u64 upmask(u64 x) { if (!x) return 0; int b = 63 - __builtin_clzll(x); return b == 63 ? ~0ULL : ((2ULL << b) - 1); }

static void ranges(Expr *e) {
  u32 w = e->w;
  e->umin = 0; e->umax = ~0ULL; e->kz = 0;
  if (w > 64) return;
  u64 M = mask64(w); e->umax = M; e->kz = ~M;
  E a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->op) {
  case CONST: e->umin = e->umax = (u64)e->val; e->kz = ~(u64)e->val; break;
  case ADD: {
    u128 s = (u128)a->umax + b->umax;
    if (s <= M) { e->umin = a->umin + b->umin; e->umax = (u64)s; }
    // low zero bits common
    u64 za = ~a->kz, zb = ~b->kz; int ta = za ? __builtin_ctzll(za) : 64, tb = zb ? __builtin_ctzll(zb) : 64; int t = std::min(ta, tb);
    if (t > 0) e->kz |= t >= 64 ? ~0ULL : ((1ULL << t) - 1);
    break; }
  case MUL: {
    u128 s = (u128)a->umax * b->umax; if (s <= M) { e->umin = a->umin * b->umin; e->umax = (u64)s; }
    u64 za = ~a->kz, zb = ~b->kz; int t = (za ? __builtin_ctzll(za) : 64) + (zb ? __builtin_ctzll(zb) : 64);
    if (t > 0) e->kz |= t >= 64 ? ~0ULL : ((1ULL << t) - 1);
    break; }
  case SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
  case UDIV: if (b->umin > 0) { e->umax = a->umax / b->umin; e->umin = a->umin / b->umax; } break;
  case UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); } break;
  case AND: e->kz |= a->kz | b->kz; e->umax = std::min(a->umax, b->umax); break;
  case OR: e->kz = a->kz & b->kz; e->umin = std::max(a->umin, b->umin); break;
  case XOR: e->kz = a->kz & b->kz; break;
  case CONCAT: if (true) { u32 lw = b->w; e->umin = (a->umin << lw) + b->umin; e->umax = (a->umax << lw) + b->umax; e->kz = (lw >= 64 ? 0 : (a->kz << lw)) | (b->kz & mask64(lw)); e->kz |= ~M; } break;
  case EXTRACT: if (a->w <= 64) { e->kz |= (a->kz >> e->aux); if (e->aux == 0) { if (a->umax <= M) { e->umin = a->umin; e->umax = a->umax; } } else { u64 hi = a->umax >> e->aux; if (hi <= M) { e->umax = hi; e->umin = a->umin >> e->aux; } } } break;
  case ZEXT: e->umin = a->umin; e->umax = a->umax; e->kz = a->kz; break;
  case SEXT: if (a->umax <= (mask64(a->w) >> 1)) { e->umin = a->umin; e->umax = a->umax; e->kz = a->kz; } break;
  case LSHR: e->umax = a->umax >> std::min<u64>(b->umin, 63); break;
  case ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); e->kz = b->kz & c->kz; break;
  default: break;
  }
  // combine
  u64 zmax = ~e->kz & M; if (e->umax > zmax) e->umax = zmax;
  e->kz |= ~upmask(e->umax);
  if (e->umin > e->umax) e->umin = 0;
}

static u128 cbin(Op op, u128 a, u128 b, u32 w) {
  u128 M = mask128(w); a &= M; b &= M;
  auto sx = [&](u128 v) -> __int128 { if (w == 128) return (__int128)v; u128 m = (u128)1 << (w - 1); return (__int128)((v ^ m) - m); };
  switch (op) {
  case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
  case UDIV: return b ? a / b : M; case UREM: return b ? a % b : a;
  case SDIV: { __int128 x = sx(a), y = sx(b); if (y == 0) return (x >= 0) ? M : 1; if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
  case SREM: { __int128 x = sx(a), y = sx(b); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & M; case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: { __int128 x = sx(a); u64 s = b >= w ? w - 1 : (u64)b; return (u128)(x >> s) & M; }
  case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
  case SLT: return sx(a) < sx(b); case SLE: return sx(a) <= sx(b);
  default: abort();
  }
}

static bool isCmp(Op o) { return o == EQ || o == ULT || o == ULE || o == SLT || o == SLE; }
static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

// count constant leaves of an ITE tree (0 if some leaf is not constant)
static int constLeaves(E e, int lim) {
  if (isC(e)) return 1;
  if (e->op != ITE || lim <= 1) return 0;
  int a = constLeaves(e->k[1], lim - 1); if (!a) return 0;
  int b = constLeaves(e->k[2], lim - a); if (!b) return 0;
  return a + b;
}
static E mapLeaves(E e, const std::vector<int> &, E (*f)(E, void *), void *u) {
  if (e->op != ITE) return f(e, u);
  return mkIte(e->k[0], mapLeaves(e->k[1], {}, f, u), mapLeaves(e->k[2], {}, f, u));
}

E mkNot(E a) { return mkBin(XOR, a, mkConst(~(u128)0, a->w)); }

static const int LEAFLIM = 12;
struct BinCtx { Op op; E o; bool left; };
static E fbin(E l, void *u) { BinCtx *c = (BinCtx *)u; return c->left ? mkBin(c->op, l, c->o) : mkBin(c->op, c->o, l); }

static E mkBin1(Op op, E a, E b);
static std::unordered_map<Key, E, KeyH> binMemo;
E mkBin(Op op, E a, E b) {
  assert(a->w == b->w);
  if (isC(a) && isC(b)) return mkConst(cbin(op, a->val, b->val, a->w), isCmp(op) ? 1 : a->w);
  if (a->size + b->size < 6) return mkBin1(op, a, b);
  Key k{op, a->w, 0, 0, a, b, nullptr};
  auto it = binMemo.find(k); if (it != binMemo.end()) return it->second;
  E r = mkBin1(op, a, b); binMemo[k] = r; return r;
}
static E mkBin1(Op op, E a, E b) {
  u32 w = a->w; u32 rw = isCmp(op) ? 1 : w;
  if (commut(op)) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
  bool cb = isC(b), ca = isC(a);
  u128 M = mask128(w);
  // ITE with constant leaves against constant: push in
  if (cb && a->op == ITE && constLeaves(a, LEAFLIM)) { BinCtx c{op, b, true}; return mapLeaves(a, {}, fbin, &c); }
  if (ca && b->op == ITE && constLeaves(b, LEAFLIM)) { BinCtx c{op, a, false}; return mapLeaves(b, {}, fbin, &c); }
  switch (op) {
  case ADD:
    if (cb && b->val == 0) return a;
    if (cb && a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
    if (cb && a->op == SUB && isC(a->k[0])) return mkBin(SUB, mkConst(a->k[0]->val + b->val, w), a->k[1]);
    if (!cb && a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
    if (!cb && b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
    if (w == 1) return mkBin(XOR, a, b);
    if (w <= 64 && ((~a->kz & ~b->kz & mask64(w)) == 0)) return mkBin(OR, a, b);
    if (a == b) return mkBin(SHL, a, mkConst(1, w));
    // (x - y) + y = x
    if (a->op == SUB && a->k[1] == b) return a->k[0];
    if (b->op == SUB && b->k[1] == a) return b->k[0];
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (cb) return mkBin(ADD, a, mkConst((~b->val + 1), w));
    if (w == 1) return mkBin(XOR, a, b);
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
    if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(~b->k[1]->val + 1, w));
    if (ca && b->op == SUB && isC(b->k[0])) return mkBin(ADD, b->k[1], mkConst(a->val - b->k[0]->val, w));
    break;
  case MUL:
    if (!cb && a->op == ZEXT && b->op == ZEXT && a->k[0]->w + b->k[0]->w < w) { u32 nw = a->k[0]->w + b->k[0]->w; return mkZext(mkBin(MUL, mkZext(a->k[0], nw), mkZext(b->k[0], nw)), w); }
    if (cb) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      u128 v = b->val; if ((v & (v - 1)) == 0) { int s = 0; while (!((v >> s) & 1)) s++; return mkBin(SHL, a, mkConst(s, w)); }
      if (a->op == MUL && isC(a->k[1])) return mkBin(MUL, a->k[0], mkConst(a->k[1]->val * b->val, w));
      if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(MUL, a->k[0], b), mkConst(a->k[1]->val * b->val, w));
    }
    break;
  case UDIV:
    if (cb) { u128 v = b->val; if (v == 1) return a; if (v && (v & (v - 1)) == 0) { int s = 0; while (!((v >> s) & 1)) s++; return mkBin(LSHR, a, mkConst(s, w)); } if (w <= 64 && a->umax < (u64)v) return mkConst(0, w); }
    if (a->op == ZEXT && w <= 64) { u32 iw = a->k[0]->w; if (cb ? (b->val <= mask128(iw)) : (b->umax <= mask64(iw))) { E nb = mkTrunc(b, iw); if (b->umin > 0) return mkZext(mkBin(UDIV, a->k[0], nb), w); } }
    break;
  case UREM:
    if (cb) { u128 v = b->val; if (v == 1) return mkConst(0, w); if (v && (v & (v - 1)) == 0) return mkBin(AND, a, mkConst(v - 1, w)); if (w <= 64 && a->umax < (u64)v) return a; }
    if (a->op == ZEXT && w <= 64) { u32 iw = a->k[0]->w; if (b->umax <= mask64(iw) && b->umin > 0) return mkZext(mkBin(UREM, a->k[0], mkTrunc(b, iw)), w); }
    break;
  case SDIV: case SREM:
    if (w <= 64 && a->umax <= (mask64(w) >> 1) && b->umax <= (mask64(w) >> 1)) { if (b->umin > 0) return mkBin(op == SDIV ? UDIV : UREM, a, b); }
    if (cb && b->val == 1) return op == SDIV ? a : mkConst(0, w);
    break;
  case AND:
    if (cb) {
      if (b->val == 0) return b;
      if (b->val == M) return a;
      if (a->op == AND && isC(a->k[1])) return mkBin(AND, a->k[0], mkConst(a->k[1]->val & b->val, w));
      if (w <= 64) {
        u64 m = (u64)b->val, live = ~a->kz & mask64(w);
        if ((live & ~m) == 0) return a;
        if ((live & m) == 0) return mkConst(0, w);
        if ((m & (m + 1)) == 0) { int n = 64 - __builtin_clzll(m); return mkZext(mkExtract(a, 0, n), w); }
        // contiguous field
        int lo = __builtin_ctzll(m); u64 mm = m >> lo;
        if ((mm & (mm + 1)) == 0) { int n = 64 - __builtin_clzll(mm); E f = mkExtract(a, lo, n); E r = mkConcat(f, mkConst(0, lo)); return mkZext(r, w); }
        if ((live & m) != m) return mkBin(AND, a, mkConst(live & m, w));
      }
      if (a->op == OR && isC(a->k[1])) return mkBin(OR, mkBin(AND, a->k[0], b), mkConst(a->k[1]->val & b->val, w));
      if (a->op == ITE) return mkIte(a->k[0], mkBin(AND, a->k[1], b), mkBin(AND, a->k[2], b));
    }
    if (a == b) return a;
    if (w == 1) { if (a->op == XOR && isC(a->k[1]) && a->k[0] == b) return mkConst(0, 1); if (b->op == XOR && isC(b->k[1]) && b->k[0] == a) return mkConst(0, 1); }
    if (w <= 64 && ((~a->kz & ~b->kz & mask64(w)) == 0)) return mkConst(0, w);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkBin(AND, a->k[0], b->k[0]), w);
    break;
  case OR:
    if (cb) { if (b->val == 0) return a; if (b->val == M) return b;
      if (a->op == OR && isC(a->k[1])) return mkBin(OR, a->k[0], mkConst(a->k[1]->val | b->val, w)); }
    if (a == b) return a;
    if (w == 1) { if (a->op == XOR && isC(a->k[1]) && a->k[0] == b) return mkConst(1, 1); if (b->op == XOR && isC(b->k[1]) && b->k[0] == a) return mkConst(1, 1); }
    if (w <= 64) {
      // disjoint split into concat
      for (int sw = 0; sw < 2; sw++) { E x = sw ? b : a, y = sw ? a : b; // x high part, y low part
        u64 ly = ~y->kz & mask64(w), lx = ~x->kz & mask64(w);
        if (!ly || !lx) continue;
        int n = 64 - __builtin_clzll(ly);           // y < 2^n
        int lo = __builtin_ctzll(lx);
        if (lo >= n && n < (int)w && n > 0) {
          E r = mkConcat(mkExtract(x, n, w - n), mkExtract(y, 0, n));
          return r; } }
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkBin(OR, a->k[0], b->k[0]), w);
      if (cb && a->op == ZEXT && (b->val & ~mask128(a->k[0]->w)) == 0) return mkZext(mkBin(OR, a->k[0], mkConst(b->val, a->k[0]->w)), w);
      if (cb && a->op == CONCAT) { u32 lw = a->k[1]->w; return mkConcat(mkBin(OR, a->k[0], mkConst(b->val >> lw, w - lw)), mkBin(OR, a->k[1], mkConst(b->val, lw))); }
    }
    break;
  case XOR:
    if (cb) { if (b->val == 0) return a;
      if (a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
      if (w == 1) { // negation of comparisons
        if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
        if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
        if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
        if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]); }
      if (a->op == CONCAT) { u32 lw = a->k[1]->w; return mkConcat(mkBin(XOR, a->k[0], mkConst(b->val >> lw, w - lw)), mkBin(XOR, a->k[1], mkConst(b->val, lw))); }
      if (a->op == ZEXT && (b->val & ~mask128(a->k[0]->w)) == 0) return mkZext(mkBin(XOR, a->k[0], mkConst(b->val, a->k[0]->w)), w);
    }
    if (a == b) return mkConst(0, w);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkBin(XOR, a->k[0], b->k[0]), w);
    break;
  case SHL:
    if (cb) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); u32 s = (u32)b->val; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    break;
  case LSHR:
    if (cb) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); u32 s = (u32)b->val; return mkZext(mkExtract(a, s, w - s), w); }
    break;
  case ASHR:
    if (cb) { if (b->val == 0) return a; u32 s = b->val >= w ? w - 1 : (u32)b->val; return mkSext(mkExtract(a, s, w - s), w); }
    break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && cb) return b->val ? a : mkNot(a);
    if (w <= 64) {
      if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
      if (cb && (a->kz & (u64)b->val)) return mkConst(0, 1);
    }
    if (cb) {
      if (a->op == ADD && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
      if (a->op == SUB && isC(a->k[0])) return mkBin(EQ, a->k[1], mkConst(a->k[0]->val - b->val, w));
      if (a->op == XOR && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
      if (a->op == ZEXT) return (b->val & ~mask128(a->k[0]->w)) ? mkConst(0, 1) : mkBin(EQ, a->k[0], mkConst(b->val, a->k[0]->w));
      if (a->op == SEXT) { u32 iw = a->k[0]->w; E t = mkConst(b->val, iw); E back = mkSext(t, w); return back->val == b->val ? mkBin(EQ, a->k[0], t) : mkConst(0, 1); }
      if (a->op == CONCAT) { u32 lw = a->k[1]->w; E lo = mkBin(EQ, a->k[1], mkConst(b->val, lw)); if (isC(lo) && !lo->val) return lo; E hi = mkBin(EQ, a->k[0], mkConst(b->val >> lw, w - lw)); return mkBin(AND, hi, lo); }
      if (a->op == ITE) { E x = mkBin(EQ, a->k[1], b), y = mkBin(EQ, a->k[2], b); if (isC(x) || isC(y)) return mkIte(a->k[0], x, y); }
      if (b->val == 0 && a->op == OR) return mkBin(AND, mkBin(EQ, a->k[0], b), mkBin(EQ, a->k[1], b));
    } else {
      if (a->op == ZEXT && b->op == ZEXT) { u32 m = std::max(a->k[0]->w, b->k[0]->w); return mkBin(EQ, mkZext(a->k[0], m), mkZext(b->k[0], m)); }
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(EQ, a->k[0], b->k[0]);
      if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w) return mkBin(AND, mkBin(EQ, a->k[0], b->k[0]), mkBin(EQ, a->k[1], b->k[1]));
      if (w > 1 && w <= 64 && a->size + b->size < 300 && (a->op == ADD || b->op == ADD || a->op == SUB || b->op == SUB)) {
        LinForm lf; lf.c = 0; linForm(a, lf); LinForm lg; lg.c = 0; linForm(b, lg);
        if (lf.t == lg.t) return mkConst(((lf.c - lg.c) & mask64(w)) == 0, 1);
      }
    }
    break;
  case ULT:
    if (a == b) return mkConst(0, 1);
    if (w <= 64) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
    if (cb && b->val == 1) return mkBin(EQ, a, mkConst(0, w));
    if (ca && a->val == 0) return mkNot(mkBin(EQ, b, mkConst(0, w)));
    if (a->op == ZEXT && b->op == ZEXT) { u32 m = std::max(a->k[0]->w, b->k[0]->w); return mkBin(ULT, mkZext(a->k[0], m), mkZext(b->k[0], m)); }
    if (cb && a->op == ZEXT && b->val <= mask128(a->k[0]->w)) return mkBin(ULT, a->k[0], mkConst(b->val, a->k[0]->w));
    if (ca && b->op == ZEXT && a->val <= mask128(b->k[0]->w)) return mkBin(ULT, mkConst(a->val, b->k[0]->w), b->k[0]);
    break;
  case ULE:
    if (a == b) return mkConst(1, 1);
    if (w <= 64) { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); }
    if (cb && b->val == 0) return mkBin(EQ, a, b);
    if (a->op == ZEXT && b->op == ZEXT) { u32 m = std::max(a->k[0]->w, b->k[0]->w); return mkBin(ULE, mkZext(a->k[0], m), mkZext(b->k[0], m)); }
    if (cb && a->op == ZEXT && b->val <= mask128(a->k[0]->w)) return mkBin(ULE, a->k[0], mkConst(b->val, a->k[0]->w));
    if (ca && b->op == ZEXT && a->val <= mask128(b->k[0]->w)) return mkBin(ULE, mkConst(a->val, b->k[0]->w), b->k[0]);
    break;
  case SLT: case SLE:
    if (a == b) return mkConst(op == SLE, 1);
    if (w <= 64) {
      u64 P = mask64(w) >> 1;
      if (a->umax <= P && b->umax <= P) return mkBin(op == SLT ? ULT : ULE, a, b);
      if (op == SLT && cb && b->val == 0) return mkExtract(a, w - 1, 1);
      if (op == SLE && ca && a->val == 0) return mkNot(mkExtract(b, w - 1, 1));
      if (op == SLT && ca && a->val == (u128)mask64(w)) return mkNot(mkExtract(b, w - 1, 1));
      if (op == SLE && cb && b->val == (u128)mask64(w)) return mkExtract(a, w - 1, 1);
    }
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == ZEXT && a->k[0]->w > b->k[0]->w) return mkBin(op, a->k[0], mkZext(b->k[0], a->k[0]->w));
    if (cb && a->op == SEXT) { u32 iw = a->k[0]->w; E t = mkConst(b->val, iw); if (mkSext(t, w)->val == b->val) return mkBin(op, a->k[0], t); }
    if (ca && b->op == SEXT) { u32 iw = b->k[0]->w; E t = mkConst(a->val, iw); if (mkSext(t, w)->val == a->val) return mkBin(op, t, b->k[0]); }
    break;
  default: break;
  }
  return intern(op, rw, 0, 0, a, b);
}


static std::unordered_map<Key, E, KeyH> extMemo;
static E mkExtract1(E x, u32 lo, u32 w);
E mkExtract(E x, u32 lo, u32 w) {
  assert(w > 0 && lo + w <= x->w);
  if (lo == 0 && w == x->w) return x;
  if (isC(x)) return mkConst(x->val >> lo, w);
  if (x->size < 4) return mkExtract1(x, lo, w);
  Key k{EXTRACT, w, lo, 0, x, nullptr, nullptr};
  auto it = extMemo.find(k); if (it != extMemo.end()) return it->second;
  E r = mkExtract1(x, lo, w); extMemo[k] = r; return r;
}
static E mkExtract1(E x, u32 lo, u32 w) {
  if (x->w <= 64 && (((~x->kz) >> lo) & mask64(w)) == 0) return mkConst(0, w);
  switch (x->op) {
  case EXTRACT: return mkExtract(x->k[0], x->aux + lo, w);
  case CONCAT: { u32 lw = x->k[1]->w;
    if (lo >= lw) return mkExtract(x->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(x->k[1], lo, w);
    return mkConcat(mkExtract(x->k[0], 0, lo + w - lw), mkExtract(x->k[1], lo, lw - lo)); }
  case ZEXT: { u32 iw = x->k[0]->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(x->k[0], lo, w);
    return mkZext(mkExtract(x->k[0], lo, iw - lo), w); }
  case SEXT: { u32 iw = x->k[0]->w;
    if (lo + w <= iw) return mkExtract(x->k[0], lo, w);
    if (lo < iw) return mkSext(mkExtract(x->k[0], lo, iw - lo), w);
    return mkSext(mkExtract(x->k[0], iw - 1, 1), w); }
  case AND: case OR: case XOR: return mkBin(x->op, mkExtract(x->k[0], lo, w), mkExtract(x->k[1], lo, w));
  case ADD: case SUB: case MUL: if (lo == 0) return mkBin(x->op, mkExtract(x->k[0], 0, w), mkExtract(x->k[1], 0, w));
    if (x->op == MUL && lo + w < x->w) return mkExtract(mkExtract(x, 0, lo + w), lo, w);
    break;
  case ITE: return mkIte(x->k[0], mkExtract(x->k[1], lo, w), mkExtract(x->k[2], lo, w));
  default: break;
  }
  return intern(EXTRACT, w, lo, 0, x);
}
E mkTrunc(E x, u32 w) { return w == x->w ? x : mkExtract(x, 0, w); }

E mkConcat(E hi, E lo) {
  u32 w = hi->w + lo->w;
  assert(w <= 128);
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(lo->k[0], lo->aux, w);
  if (lo->op == EXTRACT && hi->op == SEXT && hi->k[0]->op == EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->aux == lo->aux + lo->w) return mkSext(mkExtract(lo->k[0], lo->aux, lo->w + hi->k[0]->w), w);
  if (lo->op == EXTRACT && hi->op == ZEXT && hi->k[0]->op == EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->aux == lo->aux + lo->w) return mkZext(mkExtract(lo->k[0], lo->aux, lo->w + hi->k[0]->w), w);
  // x as low part fully followed by sign of x
  if (hi->op == SEXT && hi->k[0]->op == EXTRACT && hi->k[0]->k[0] == lo && hi->k[0]->aux == lo->w - 1 && hi->k[0]->w == 1) return mkSext(lo, w);
  if (hi->op == EXTRACT && hi->w == 1 && hi->k[0] == lo && hi->aux == lo->w - 1) return mkSext(lo, w);
  if (hi->op == SEXT && lo->op == EXTRACT && hi->k[0]->op == EXTRACT && hi->k[0]->w == 1 && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->aux == lo->aux + lo->w - 1) return mkSext(lo, w);
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  // right-nest: concat(concat(a,b),c) -> concat(a, concat(b,c))
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == CONCAT) { // try merging hi with lo's high part
    E h2 = lo->k[0];
    if (isC(hi) && isC(h2)) return mkConcat(mkConst((hi->val << h2->w) | h2->val, hi->w + h2->w), lo->k[1]);
    if (hi->op == EXTRACT && h2->op == EXTRACT && hi->k[0] == h2->k[0] && hi->aux == h2->aux + h2->w) return mkConcat(mkExtract(hi->k[0], h2->aux, hi->w + h2->w), lo->k[1]);
  }
  // same condition ITEs (bytes of a stored ITE)
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == ITE && isC(lo) && constLeaves(hi, LEAFLIM)) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  if (isC(hi) && lo->op == ITE && constLeaves(lo, LEAFLIM)) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
  return intern(CONCAT, w, 0, 0, hi, lo);
}

E mkZext(E x, u32 w) {
  assert(w >= x->w && w <= 128);
  if (w == x->w) return x;
  if (isC(x)) return mkConst(x->val, w);
  if (x->op == ZEXT) return mkZext(x->k[0], w);
  if (x->op == ITE && constLeaves(x, LEAFLIM)) return mkIte(x->k[0], mkZext(x->k[1], w), mkZext(x->k[2], w));
  // shrink known-zero top bits
  if (x->w <= 64 && x->op != EXTRACT) { }
  return intern(ZEXT, w, 0, 0, x);
}
E mkSext(E x, u32 w) {
  assert(w >= x->w && w <= 128);
  if (w == x->w) return x;
  if (isC(x)) { u128 v = x->val; u128 m = (u128)1 << (x->w - 1); return mkConst((v ^ m) - m, w); }
  if (x->op == SEXT) return mkSext(x->k[0], w);
  if (x->op == ZEXT) return mkZext(x->k[0], w);
  if (x->w > 1 && x->w <= 64 && (x->kz >> (x->w - 1)) & 1) return mkZext(x, w);
  if (x->op == ITE && constLeaves(x, LEAFLIM)) return mkIte(x->k[0], mkSext(x->k[1], w), mkSext(x->k[2], w));
  return intern(SEXT, w, 0, 0, x);
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);   // ite(!c)
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (isC(b)) return b->val ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (b->op == ITE && b->k[1] == a) return mkIte(mkBin(OR, c, b->k[0]), a, b->k[2]);
  if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkIte(c, a->k[0], b->k[0]), a->w);
  return intern(ITE, a->w, 0, 0, c, a, b);
}

void linForm(E e, LinForm &lf, u64 mul) {
  u64 M = mask64(e->w);
  switch (e->op) {
  case CONST: lf.c += mul * (u64)e->val; return;
  case ADD: linForm(e->k[0], lf, mul); linForm(e->k[1], lf, mul); return;
  case SUB: linForm(e->k[0], lf, mul); linForm(e->k[1], lf, (u64)0 - mul); return;
  case MUL: if (isC(e->k[1])) { linForm(e->k[0], lf, mul * (u64)e->k[1]->val); return; } break;
  case XOR: if (isC(e->k[1]) && (u64)e->k[1]->val == M) { lf.c -= mul; linForm(e->k[0], lf, (u64)0 - mul); return; } break;
  case CONCAT: { // hi*2^lw + lo, both zero-extended
    E hi = e->k[0], lo = e->k[1]; u32 lw = lo->w;
    if (e->w <= 64) {
      E zh = hi->w == e->w ? hi : mkZext(hi, e->w), zl = mkZext(lo, e->w);
      // an exact-width shift (hi truncated of bigger thing) is fine mod 2^w only for the zext atom
      if (zh->op == CONCAT) break;
      linForm(zh, lf, mul << lw); linForm(zl, lf, mul); return;
    }
    break; }
  case ZEXT: { // look through when inner does not wrap
    E x = e->k[0];
    if (x->op == ADD && (u128)x->k[0]->umax + x->k[1]->umax <= mask64(x->w)) { linForm(mkZext(x->k[0], e->w), lf, mul); linForm(mkZext(x->k[1], e->w), lf, mul); return; }
    if (x->op == MUL && isC(x->k[1]) && (u128)x->k[0]->umax * x->k[1]->umax <= mask64(x->w)) { linForm(mkZext(x->k[0], e->w), lf, mul * (u64)x->k[1]->val); return; }
    if (x->op == CONCAT) { linForm(mkZext(x->k[0], e->w), lf, mul << x->k[1]->w); linForm(mkZext(x->k[1], e->w), lf, mul); return; }
    break; }
  default: break;
  }
  (void)M;
  u64 &t = lf.t[e]; t += mul; if (!t) lf.t.erase(e);
}

// canonical form of a linear equation (empty: not one): width, constant, (atom id, coefficient)...; the smallest atom's coefficient has its top bit clear or is negated
std::vector<u64> linKey(E c) {
  std::vector<u64> r; if (c->op != EQ || c->k[0]->w > 64 || c->k[0]->w < 2 || c->k[0]->size + c->k[1]->size > 3000) return r;
  u32 w = c->k[0]->w; u64 M = mask64(w); LinForm lf; lf.c = 0; linForm(c->k[0], lf); linForm(c->k[1], lf, ~0ULL);
  std::map<u64, u64> t; for (auto &kv : lf.t) if (kv.second & M) t[kv.first->id] = kv.second & M;
  if (t.size() < 2) return r;
  bool neg = t.begin()->second >> (w - 1) & 1; r.push_back(w); r.push_back((neg ? -lf.c : lf.c) & M);
  for (auto &kv : t) { r.push_back(kv.first); r.push_back((neg ? -kv.second : kv.second) & M); }
  return r;
}

int cmpEq(E a, E b) {
  if (a == b) return 1;
  E r = mkBin(EQ, a, b);
  if (isC(r)) return r->val ? 1 : 0;
  return -1;
}

void collectLeaves(E e, std::set<E> &vars, std::set<E> &sels, std::set<E> &seen) {
  if (!seen.insert(e).second) return;
  if (e->op == VAR) vars.insert(e);
  if (e->op == SEL) sels.insert(e);
  for (int i = 0; i < 3; i++) if (e->k[i]) collectLeaves(e->k[i], vars, sels, seen);
}

u128 Evaluator::ev(E e) {
  if (e->op == CONST) return e->val;
  if (e->op == VAR) { auto it = m.vars.find(e->aux); return it == m.vars.end() ? 0 : it->second; }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128 r = 0;
  switch (e->op) {
  case SEL: { u64 ix = (u64)ev(e->k[0]); auto a = m.arrs.find(e->aux); if (a != m.arrs.end()) { auto j = a->second.find(ix); if (j != a->second.end()) r = j->second; } break; }
  case CONCAT: r = (ev(e->k[0]) << e->k[1]->w) | ev(e->k[1]); break;
  case EXTRACT: r = (ev(e->k[0]) >> e->aux) & mask128(e->w); break;
  case ZEXT: r = ev(e->k[0]); break;
  case SEXT: { u128 v = ev(e->k[0]); u128 mm = (u128)1 << (e->k[0]->w - 1); r = ((v ^ mm) - mm) & mask128(e->w); break; }
  case ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
  default: r = cbin(e->op, ev(e->k[0]), ev(e->k[1]), e->k[0]->w); break;
  }
  memo[e] = r; return r;
}

std::string exprStr(E e, int d) {
  static const char *nm[] = {"const","var","sel","+","-","*","u/","s/","u%","s%","&","|","^","<<","l>>","a>>","concat","ext","zext","sext","==","u<","u<=","s<","s<=","ite","agg"};
  char b[64];
  if (e->op == CONST) { snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->val, e->w); return b; }
  if (e->op == VAR) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = "(" + std::string(nm[e->op]);
  if (e->op == SEL) s += " " + g_arrs[e->aux].name;
  if (e->op == EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", e->aux, e->w); s += b; }
  if (e->op == ZEXT || e->op == SEXT) { snprintf(b, sizeof b, "%u", e->w); s += b; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
