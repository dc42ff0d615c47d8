// Commands that edit and search memory: set memory (lists, strings, bits and bit fields), fill, where, Where, check, pc.
#include "uc_common.h"
#include "memcl.h"
#include "argcl.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
#include "newcmdcl.h"
#include "cmd_setcl.h"
#include "cmd_uccl.h"
extern struct cpu_entry cpus_z80[];
static cl_uc *uc;
enum { NW = 5 };
static const int W[NW] = {8, 8, 12, 16, 32};
static const U32 ST[NW] = {0, 0x4321, 0x10, 0, 0}, SZ[NW] = {48, 33, 40, 33, 40};
static cl_memory_chip *chip[NW]; static cl_address_space *as[NW];
class F : public cl_f { public: char t[4000]; int n; F() : cl_f() { n = 0; }
  enum file_type determine_type(void) { return F_FILE; } bool writable(void) { return true; } int check_dev(void) { return 0; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 4000) t[n++] = b[i]; return k; } };
static F *f;
class K : public cl_console_dummy { public: bool non_color(void) { return true; } bool opt_bw(void) { return true; } class cl_f *get_fout(void) { return f; } };
static K *con; static cl_cmd *cset, *cfill, *cwhere, *cWhere;
enum { SET, STRG, BITN, FIELD, FILL, WHERE, WHEREC, NS };
static const char *SN[] = {"set", "set-string", "set-bit", "set-field", "fill", "where", "Where"};
extern "C" void sym_setup(void) {
  uc = mk_sim<cl_simz80>(cpus_z80, "Z80");
  for (int i = 0; i < NW; i++) { char nm[8]; sprintf(nm, "las%d", i); chip[i] = new_chip("lchip", SZ[i], W[i], 0); as[i] = new cl_address_space(nm, ST[i], SZ[i], W[i]); as[i]->init();
    cl_address_decoder *d = new cl_address_decoder(as[i], chip[i], ST[i], ST[i] + SZ[i] - 1, 0); d->init(); as[i]->decoders->add(d); d->activate(0); uc->address_spaces->add(as[i]); uc->memchips->add(chip[i]); }
  sym_stub("cl_app::dd_printf"); sym_stub("cl_memory::err_inv_addr"); f = new F(); con = new K();
  cset = new cl_set_mem_cmd("memory", 0); cset->init(); cfill = new cl_fill_cmd("fill", 0); cfill->init(); cwhere = new cl_where_cmd("where", 0); cwhere->init(); cWhere = new cl_Where_cmd("Where", 0); cWhere->init();
}
extern "C" long sym_ncases(void) { return NW * NS; }
extern "C" void sym_casename(long c, char *b, int n) { snprintf(b, n, "%s:w%d@%x", SN[c / NW], W[c % NW], ST[c % NW]); }
static int w, pos; static U32 MASK; static U32 R[64]; static U8 R8[64]; static U16 R16[64];
static U32 rget(U32 i) { return W[w] <= 8 ? R8[i] : W[w] <= 16 ? R16[i] : R[i]; }
static void rset(U32 i, U32 v) { v &= MASK; if (W[w] <= 8) R8[i] = v; else if (W[w] <= 16) R16[i] = v; else R[i] = v; }
static cl_cmdline *mk(const char *s) { cl_cmdline *l = new cl_cmdline(application, s, con); l->init(); return l; }
static void ival(cl_cmdline *l, int k, long v) { ((cl_cmd_arg *)l->params->at(k))->i_value = v; }
static char cur() { return pos < f->n ? f->t[pos] : 0; }
static int dig(int c) { return c - '0' < 10u ? c - '0' : c - 'a' + 10; }
static bool ishex(char c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f'; }
static U32 fold(U32 v) { return v >= 'a' && v <= 'z' ? v - 32 : v; }
static void same(const char *msg) { U32 i = SYM32("anycell"); sym_assume(i < SZ[w]); sym_observe("cell", chip[w]->get(i)); sym_assert(chip[w]->get(i) == rget(i), msg); }
extern "C" void sym_test(long c) {
  w = c % NW; int s = c / NW; U32 sz = SZ[w], top = ST[w] + sz - 1; MASK = W[w] >= 32 ? 0xffffffff : (1u << W[w]) - 1; f->n = 0; pos = 0;
  sym_chip(chip[w], "mem"); if (W[w] <= 8) sym_array(R8, sz, 1, W[w], "mem"); else if (W[w] <= 16) sym_array(R16, sz, 2, W[w], "mem"); else sym_array(R, sz, 4, W[w], "mem");
  char b[100];
  switch (s) {
  case SET: { int n = 1 + sym_fork(sym_int("n", 2)); U32 at = sym_fork(sym_int("at", 3)), tab[8] = {0, 1, 7, sz - 4, sz - 2, sz - 1, sz, 0xffffffff}; at = tab[at] + ST[w]; if (ST[w] == 0 && tab[7] == at) at = 5;
    snprintf(b, 100, "set memory las%d 0x%x", w, at); for (int i = 0; i < n; i++) strcat(b, " 1"); cl_cmdline *l = mk(b); l->shift();
    U32 d[4]; for (int i = 0; i < n; i++) { char t[4] = {'d', (char)('0' + i), 0}; d[i] = SYM32(t); ival(l, 2 + i, (long)(int)d[i]); }
    cset->work(application, l, con);
    for (int i = 0; i < n; i++) if (at + i >= ST[w] && at >= ST[w] && at + i <= top) rset(at + i - ST[w], d[i]);
    int k = 0; for (int i = 0; i < n; i++) if (at >= ST[w] && at + i >= at && at + i <= top) k++; if (k) { REQ(cur() == '0' && f->t[1] == 'x', "the set cells are shown"); pos = 2; U32 v = 0; while (ishex(cur())) v = v << 4 | dig(f->t[pos++]); REQ(v == at, "the shown address");
      for (int i = 0, dg = (W[w] + 3) / 4; i < k; i++) { while (cur() == ' ') pos++; v = 0; for (int j = 0; j < dg; j++) v = v << 4 | dig(f->t[pos++]); REQ(v == (d[i] & MASK), "the shown value"); } pos += 1 + k * ((W[w] + 7) / 8); REQ(pos + 1 == f->n && cur() == '\n', "only the set cells are shown"); }
    same("the command stores the data at the addresses and changes nothing else"); break; }
  case STRG: { static const char *T[] = {"\"AbC\"", "\"a\\n\\t\"", "\"x\\\"y\"", "\"\\\\z\"", "\"\\0377\\041\"", "\"ab\",1,\"c\""}; static const char V[][6] = {"AbC", "a\n\t", "x\"y", "\\z", "\377!", "ab\1c"}; static const int N[] = {3, 3, 3, 2, 2, 4};
    int k = sym_int("string", 3); sym_assume(k < 6); k = sym_fork(k); snprintf(b, 100, "set memory las%d 0x%x %s", w, ST[w] + 3, T[k]); cl_cmdline *l = mk(b); l->shift(); cset->work(application, l, con);
    for (int i = 0; i < N[k]; i++) rset(3 + i, (U8)V[k][i]); same("the characters of the string are stored, one in each cell"); break; }
  case BITN: case FIELD: { int lo = sym_int("lo", 5), hi = sym_int("hi", 5); if (s == BITN) hi = lo; sym_assume(lo <= hi && hi < W[w]); if (!sym_thorough() && s == FIELD) sym_assume((lo % 3 == 0 || lo == W[w] - 1) && (hi % 4 == 3 || hi == lo)); lo = sym_fork(lo); if (s == FIELD) hi = sym_fork(hi); else hi = lo; U32 v = SYM32("v"), at = 4;
    if (s == BITN) snprintf(b, 100, "set memory las%d[0x%x].%d 1", w, at + ST[w], lo); else snprintf(b, 100, "set memory las%d[0x%x][%d:%d] 1", w, at + ST[w], hi - lo & 1 ? lo : hi, hi - lo & 1 ? hi : lo);
    cl_cmdline *l = mk(b); l->shift(); ival(l, 1, (long)(int)v); cset->work(application, l, con);
    U32 fm = hi - lo == 31 ? 0xffffffff : ((1u << hi - lo + 1) - 1) << lo; rset(at, (rget(at) & ~fm) | ((v << lo) & fm)); same("exactly the named bits take the value"); break; }
  case FILL: { U32 a = sym_int("from", 3), e = sym_int("to", 3), tab[8] = {0, 1, 7, 8, 20, sz - 2, sz - 1, sz + 1}; a = tab[sym_fork(a)]; e = tab[sym_fork(e)]; U32 v = SYM32("v"); snprintf(b, 100, "fill las%d 0x%x 0x%x 1", w, a + ST[w], e + ST[w]); cl_cmdline *l = mk(b); ival(l, 3, (long)(int)v); cfill->work(application, l, con);
    for (U32 i = a; i <= e && i < sz; i++) rset(i, v); same("fill stores the data from start to end and changes nothing else"); break; }
  case WHERE: case WHEREC: { int n = 1 + sym_fork(sym_int("n", 1)); if (n == 2 && (sym_thorough() || s == WHEREC)) n += sym_fork(sym_int("n3", 1)); snprintf(b, 100, "where las%d", w); for (int i = 0; i < n; i++) strcat(b, " 1"); cl_cmdline *l = mk(b); U32 d[3];
    for (int i = 0; i < n; i++) { char t[4] = {'d', (char)('0' + i), 0}; d[i] = SYM32(t) & MASK; ival(l, 1 + i, (long)d[i]); }
    /* around the place p the memory is arbitrary; everywhere else it does not match the first value */
    U32 p = sym_int("place", 2); if (!sym_thorough() && s == WHERE) sym_assume(p != 1 && p != 2); static const int off[] = {0, 5, 20, 99}; p = off[sym_fork(p)]; if (p == 99) p = sz - (n < 3 && !sym_thorough() ? 3 : 4); U32 q = p + (n < 3 && !sym_thorough() ? 3 : 4); if (q > sz) q = sz;
    for (U32 i = 0; i < sz; i++) if (i < p || i >= q) { chip[w]->set(i, 0x7e); rset(i, 0x7e); } sym_assume(d[0] != 0x7e);
    (s == WHERE ? cwhere : cWhere)->work(application, l, con);
    for (U32 i = p; i < q; i++) { bool m = i + n <= sz; for (int j = 0; j < n && m; j++) { U32 x = rget(i + j), y = d[j]; if (s == WHERE) x = fold(x), y = fold(y); if (x != y) m = false; }
      if (m) { REQ(cur() == '0' && pos + 1 < f->n && f->t[pos + 1] == 'x', "every match is shown"); pos += 2; U32 v = 0; while (ishex(cur())) v = v << 4 | dig(f->t[pos++]); REQ(v == i + ST[w], "the address of a match"); int g = 0; while (cur() && cur() != '\n' && g++ < 80) pos++; pos++; } }
    REQ(pos >= f->n, "only matches are shown"); same("a search changes nothing"); break; }
  }
}
