// Expression evaluator: every operator, pairs of operators (precedence and associativity), assignments, bit fields and number
// notations over symbolic operand values, against an evaluator written from the documented (C like) grammar.
#include "uc_common.h"
#include "simz80cl.h"
#include "varcl.h"
#include <string>
#include <vector>
static cl_uc *z; static cl_address_space *W, *M; static cl_memory_chip *WC, *MC; static cl_memory_cell *V;
enum { NWC = 8, NM = 8 };
static U32 w[NWC], v; static U8 m[NM]; // the model's memory
static const char *bop[] = { "*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||" }; static const int prec[] = { 10, 10, 10, 9, 9, 8, 8, 7, 7, 7, 7, 6, 6, 5, 4, 3, 2, 1 };
static const char *uop[] = { "-", "~", "!", "+" };
static const char *aop[] = { "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|=" };
static bool err; static const char *p;
static long expr(void); static long cond(void);
static void ws(void) { while (*p == ' ') p++; }
static long apply(int o, long a, long b) { switch (o) {
  case 0: return (long)((UL)a * (UL)b); case 1: if (sym_fork(b == 0)) { err = true; return 0; } if (sym_fork(b == -1)) return (long)-(UL)a; return a / b; case 2: if (sym_fork(b == 0)) { err = true; return 0; } if (sym_fork(b == -1)) return 0; return a % b;
  case 3: return (long)((UL)a + (UL)b); case 4: return (long)((UL)a - (UL)b); case 5: sym_assume(b >= 0 && b < 64); return (long)((UL)a << b); case 6: sym_assume(b >= 0 && b < 64); return a >> b;
  case 7: return a < b; case 8: return a > b; case 9: return a <= b; case 10: return a >= b; case 11: return a == b; case 12: return a != b; case 13: return a & b; case 14: return a ^ b; case 15: return a | b;
  case 16: return (a != 0) & (b != 0); default: return (a != 0) | (b != 0); } }
struct Ref { int kind; int i, lo, hi; }; // 0: none, 1: 32 bit cell, 2: 8 bit cell, 3: variable, 4: bits of an 8 bit cell
static U8 fmask(const Ref &r) { return ((1 << (r.hi - r.lo + 1)) - 1) << r.lo; }
static long get(const Ref &r) { switch (r.kind) { case 1: return w[r.i]; case 2: return m[r.i]; case 3: return v; default: return (m[r.i] & fmask(r)) >> r.lo; } }
static long put(const Ref &r, long x) { switch (r.kind) { case 1: w[r.i] = x; break; case 2: m[r.i] = x; break; case 3: v = x; break; default: m[r.i] = (m[r.i] & ~fmask(r)) | (((U8)x << r.lo) & fmask(r)); } return get(r); }
static bool isref(Ref &r) { ws(); r.kind = 0; char c = *p; bool id = !(isalnum(p[1]) || p[1] == '_');
  if (!id) return false;
  switch (c) { case 'a': case 'b': case 'c': r.kind = 1; r.i = 1 + c - 'a'; p++; return true; case 'v': r.kind = 3; p++; return true; case 'q': r = (Ref){4, 1, 2, 5}; p++; return true; case 'r': r = (Ref){4, 2, 3, 3}; p++; return true;
    case 'w': case 'm': { p += 2; long i = sym_fork(expr()); p++; r.kind = c == 'w' ? 1 : 2; r.i = i; if (*p == '.') { p++; r.kind = 4; r.lo = r.hi = *p++ - '0'; } else if (*p == '[') { int h = p[1] - '0', l = p[3] - '0'; p += 5; r.kind = 4; r.lo = h < l ? h : l; r.hi = h < l ? l : h; } return true; } }
  return false; }
static long unary(void) { ws(); const char *s = p; Ref r;
  if (p[0] == '+' && p[1] == '+') { p += 2; isref(r); return put(r, get(r) + 1); } if (p[0] == '-' && p[1] == '-') { p += 2; isref(r); return put(r, get(r) - 1); }
  switch (*p) { case '-': p++; return (long)-(UL)unary(); case '~': p++; return ~unary(); case '!': p++; return !unary(); case '+': p++; return unary(); case '(': if (!strncmp(p, "(int)", 5)) { p += 5; isref(r); long x = get(r); return r.kind == 1 ? (long)(int)x : (long)(signed char)x; } { p++; long x = expr(); ws(); p++; return x; } }
  if (isref(r)) { if (p[0] == '+' && p[1] == '+') { p += 2; long x = get(r); put(r, x + 1); return x; } if (p[0] == '-' && p[1] == '-') { p += 2; long x = get(r); put(r, x - 1); return x; } return get(r); }
  long n = 0; while (isdigit(*p)) n = n * 10 + *p++ - '0'; return n; }
static int peekbin(void) { ws(); static const int order[] = { 5, 6, 9, 10, 11, 12, 16, 17, 0, 1, 2, 3, 4, 7, 8, 13, 14, 15 }; for (int k = 0; k < 18; k++) if (!strncmp(p, bop[order[k]], strlen(bop[order[k]]))) return order[k]; return -1; }
static long binary(int lvl) { long a = unary(); for (;;) { int o = peekbin(); if (o < 0 || prec[o] < lvl) return a; p += strlen(bop[o]); long b = binary(prec[o] + 1); a = apply(o, a, b); } }
static long cond(void) { long c = binary(1); ws(); if (*p != '?') return c; p++; long x = expr(); ws(); p++; long y = cond(); return c ? x : y; }
static long assign(void) { ws(); const char *s = p; Ref r; if (isref(r)) { ws(); for (int k = 10; k >= 0; k--) { int l = strlen(aop[k]); if (!strncmp(p, aop[k], l) && !(k == 0 && p[1] == '=')) {
      p += l; long x = assign(); if (k) { static const int o[] = { 0, 0, 1, 2, 3, 4, 5, 6, 13, 14, 15 }; bool e = err; err = false; if (k == 6 || k == 7) sym_assume(x >= 0 && x < 32); long y = apply(o[k], get(r), x); bool d = err; err |= e; if (d) return get(r); x = y; } return put(r, x); } } p = s; } return cond(); }
static long expr(void) { long x = assign(); for (;;) { ws(); if (*p != ',') return x; p++; x = assign(); } }
static std::vector<std::string> C; enum { LIT = 40 };
static const char *lits[LIT];
extern "C" void sym_setup(void) {
  z = mk_sim<cl_simz80>(cpus_z80, "Z80");
  W = new cl_address_space("w", 0, NWC, 32); W->init(); z->address_spaces->add(W); WC = new cl_chip32("wchip", NWC, 32); WC->init(); z->memchips->add(WC);
  M = new cl_address_space("m", 0, NM, 8); M->init(); z->address_spaces->add(M); MC = new cl_chip8("mchip", NM, 8); MC->init(); z->memchips->add(MC);
  cl_address_decoder *d = new cl_address_decoder(W, WC, 0, NWC - 1, 0); d->init(); W->decoders->add(d); d->activate(0); d = new cl_address_decoder(M, MC, 0, NM - 1, 0); d->init(); M->decoders->add(d); d->activate(0);
  static const char *nm[] = { "a", "b", "c" }; for (int i = 0; i < 3; i++) z->vars->add(nm[i], W, 1 + i, "");
  z->vars->add("q", M, 1, 5, 2, ""); z->vars->add("r", M, 2, 3, 3, ""); V = new cl_cell32(32); V->init(); V->decode(calloc(1, 4)); cl_cvar *cv = new cl_cvar("v", V, ""); cv->init(); z->vars->add(cv);
  for (int i = 0; i < 18; i++) for (int j = 0; j < 18; j++) C.push_back(std::string("a ") + bop[i] + " b" + bop[j] + " c");
  for (int i = 0; i < 18; i++) for (int u = 0; u < 4; u++) { C.push_back(std::string(uop[u]) + "a" + bop[i] + "b"); C.push_back(std::string("a") + bop[i] + " " + uop[u] + "b"); C.push_back(std::string(uop[u]) + "(a" + bop[i] + " -b)"); }
  for (int i = 0; i < 18; i++) { C.push_back(std::string("a") + bop[i] + "b?c:v"); C.push_back(std::string("a?b:c") + bop[i] + "v"); C.push_back(std::string("a?b") + bop[i] + "c:v"); C.push_back(std::string("(a") + bop[i] + "b)*c"); C.push_back(std::string("a*(b") + bop[i] + "v)"); C.push_back(std::string("q") + bop[i] + "r"); C.push_back(std::string("m[3]") + bop[i] + "w[2]"); }
  static const char *tg[] = { "a", "w[5]", "m[3]", "v" };
  for (int i = 0; i < 11; i++) for (int t = 0; t < 4; t++) { C.push_back(std::string(tg[t]) + aop[i] + "b"); C.push_back(std::string(tg[t]) + " " + aop[i] + " -c"); C.push_back(std::string("b=") + tg[t] + aop[i] + "c"); }
  static const char *x[] = { "a++", "a--", "++a", "--a", "v++", "v--", "++v", "--v", "m[3]++", "m[3]--", "++m[3]", "--m[3]", "a+++b", "a---b", "w[m[3]&7]", "m[a&7]=b", "m[a&7].3", "m[a&7].3=b", "m[3].0", "m[3].7", "m[3].0=a", "m[3].7=a", "m[3].4=a", "m[3][5:2]", "m[3][2:5]", "m[3][7:0]", "m[3][6:6]",
    "m[3][5:2]=a", "m[3][2:5]=a", "m[3][7:0]=a", "m[3][7:4]=a", "m[3][3:0]=b", "q", "q=a", "r", "r=a", "q=r", "r=q", "q+r*2", "(int)a", "(int)m[3]", "(int)a<0", "a,b", "a=b,c=a", "a?b:c?v:q", "a=b=c", "a,b=c,v", "-a- -b", "!!a", "~~a", "- -a", "!a==b", "1+2*3", "10-4-3", "2<<1+1", "a/(b-b)", "a%(b-b)", "7/0", "7%0", "a<<63>>63", "(1<<63)/-1", "(1<<63)%-1", "(1<<63)/a", "-a/b", "-a%b", "a/-b", "a%-b", "-a>>b", "a&b==c", "a|b^c&v", "a<b==c<v", "((((a))))", "a ? b , c : v", "m[m[3]&7]=m[4]", "a=a+b*c-v" };
  for (auto s : x) C.push_back(s);
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
// number notations: prefix, digit set, number of digits
static const struct { const char *pre, *set; int n, base; } L[] = { {"0x", "0123456789abcdefABCDEF", 3, 16}, {"0X", "0123456789abcdefABCDEF", 2, 16}, {"$", "0123456789abcdefABCDEF", 2, 16}, {"0b", "01", 5, 2}, {"0", "01234567", 3, 8}, {"", "0123456789", 3, 10} };
enum { NL = 6, NCH = 1, NE = 6 };
static const char *bad[NE] = { "1+", "(a", "a b", "*3", "m[1", "]" };
extern "C" long sym_ncases(void) { return C.size() + NL + NCH + NE; }
extern "C" void sym_casename(long c, char *b, int k) { long n = C.size(); if (c < n) snprintf(b, k, "%s", C[c].c_str()); else if (c < n + NL) snprintf(b, k, "number %s", *L[c - n].pre ? L[c - n].pre : "decimal"); else if (c < n + NL + NCH) snprintf(b, k, "character"); else snprintf(b, k, "after '%s'", bad[c - n - NL - NCH]); }
static void symmem(void) { sym_chip(WC, "w"); sym_chip(MC, "m"); sym_array(w, NWC, 4, 32, "w"); sym_array(m, NM, 1, 8, "m"); v = SYM32("v"); V->set(v); }
static void same(void) { for (int i = 0; i < NWC; i++) REQ(((u32_t *)WC->array)[i] == w[i], "32 bit memory"); for (int i = 0; i < NM; i++) REQ(((u8_t *)MC->array)[i] == m[i], "8 bit memory"); REQ(V->get() == v, "variable"); }
extern "C" void sym_test(long c) {
  long n = C.size(), r, e; char b[80];
  if (c < n) { symmem(); err = false; p = C[c].c_str(); e = expr(); REQ(*p == 0, "harness: expression understood"); r = application->eval(C[c].c_str()); bool as = false; for (const char *q = C[c].c_str(); *q; q++) as |= *q == '='; if (!err || !as) REQ((U32)r == (U32)e, "value of the expression"); same(); }
  else if (c < n + NL) { auto &l = L[c - n]; int ns = strlen(l.set); strcpy(b, l.pre); int k = strlen(b); e = 0;
    for (int i = 0; i < l.n; i++) { char t[8]; snprintf(t, 8, "d%d", i); int d = SYM8(t); sym_assume(d < ns); if (l.base == 10 && i == 0) sym_assume(d > 0); b[k++] = l.set[d]; e = e * l.base + (d >= 16 ? d - 6 : d); } b[k] = 0;
    r = application->eval(b); REQ((U32)r == (U32)e, "value of the number"); }
  else if (c < n + NL + NCH) { U8 ch = SYM8("char"); sym_assume(ch >= ' ' && ch < 127 && ch != '\'' && ch != '\\'); b[0] = b[2] = '\''; b[1] = ch; b[3] = 0; r = application->eval(b); REQ(r == (long)ch, "value of the character"); }
  else { symmem(); application->eval(bad[c - n - NL - NCH]); r = application->eval("a+b*c"); REQ((U32)r == w[1] + w[2] * w[3], "an erroneous expression does not disturb the next one"); same(); }
  sym_observe("value", r);
}
