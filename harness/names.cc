// The table of names: after any short history of definitions and removals, lookups by name and by place agree with a plain list.
#include "uc_common.h"
#include "memcl.h"
#include "varcl.h"
#include "z80cl.h"
#include "simz80cl.h"
extern struct cpu_entry cpus_z80[];
static cl_uc *uc; static cl_memory_chip *chip; static cl_address_space *as; static cl_memory *mems[2];
enum { NN = 3, NO = 2 * NN };
static const char *NM[NN] = {"a", "bbb", ".dd"};
static const int HI[4] = {-1, 7, 3, 3}, LO[4] = {-1, 0, 3, 0};
extern "C" void sym_setup(void) {
  uc = mk_sim<cl_simz80>(cpus_z80, "Z80"); chip = new_chip("lchip", 16, 8, 0); as = new cl_address_space("las", 0, 8, 8); as->init();
  cl_address_decoder *d = new cl_address_decoder(as, chip, 0, 7, 8); d->init(); as->decoders->add(d); d->activate(0); uc->address_spaces->add(as); uc->memchips->add(chip); mems[0] = as; mems[1] = chip;
  sym_stub("cl_app::dd_printf"); uc->vars = new cl_var_list();
}
static int nops() { return sym_thorough() ? 4 : 3; }
extern "C" long sym_ncases(void) { long n = NN; for (int i = 1; i < nops(); i++) n *= NO; return n; }
static int op[4]; static void dec(long c) { op[0] = c % NN; c /= NN; for (int i = 1; i < nops(); i++) op[i] = c % NO, c /= NO; }
extern "C" void sym_casename(long c, char *b, int n) { dec(c); *b = 0; for (int i = 0; i < nops(); i++) snprintf(b + strlen(b), n - strlen(b), "%s%s%s", i ? "," : "", op[i] < NN ? "" : "-", NM[op[i] % NN]); }
struct e { bool in; int m, f; U32 a; } E[NN];
extern "C" void sym_test(long c) {
  dec(c); cl_var_list *v = uc->vars; for (int i = 0; i < NN; i++) E[i].in = false;
  for (int i = 0; i < nops(); i++) { char t[8]; int n = op[i] % NN;
    if (op[i] >= NN) { bool r = v->del(NM[n]); REQ(r == E[n].in, "removing a name tells if it was defined"); E[n].in = false; continue; }
    snprintf(t, 8, "m%d", i); int m = sym_fork(sym_int(t, 1)); snprintf(t, 8, "a%d", i); U32 a = SYM32(t); sym_assume(a < (m ? 16u : 8u)); snprintf(t, 8, "f%d", i); int f = sym_fork(sym_int(t, 2));
    v->add(NM[n], mems[m], a, HI[f], LO[f], "");
    if (E[2].in && n != 2 && E[2].m == m && E[2].a == a && E[2].f == f) E[2].in = false;   // a name given by analyze gives way
    E[n].in = true; E[n].m = m; E[n].a = a; E[n].f = f; }
  unsigned len = 0;
  for (int n = 0; n < NN; n++) { if (E[n].in && strlen(NM[n]) > len) len = strlen(NM[n]); t_index i; bool r = v->by_name.search(NM[n], i); REQ(r == E[n].in, "a name is found if and only if it is defined"); cl_memory *m; t_addr a;
    bool s = uc->symbol2address((char *)NM[n], &m, &a); REQ(s == E[n].in, "symbol is found if and only if it is defined");
    if (E[n].in) { cl_var *x = (cl_var *)v->by_name.at(i); REQ(x->get_mem() == mems[E[n].m] && x->get_addr() == E[n].a && x->bitnr_high == HI[E[n].f] && x->bitnr_low == LO[E[n].f], "a name means the last place it was given"); REQ(m == mems[E[n].m] && a == E[n].a, "address of a symbol");
      cl_memory_cell *y = x->get_cell(); if (E[n].m == 0) REQ(y == as->get_cell(E[n].a), "cell of a name"); } }
  REQ(v->get_max_name_len() == len, "longest name");
  { int m = sym_fork(sym_int("qm", 1)); U32 a = SYM32("qa"); sym_assume(a < (m ? 16u : 8u)); t_index i; int cnt = 0, all = 0; for (int n = 0; n < NN; n++) if (E[n].in) { if (E[n].m == m && E[n].a == a) cnt++, all++; else if (m == 0 && E[n].m == 1 && E[n].a == a + 8) all++; }
    bool r = v->by_addr.search(mems[m], a, i); REQ(r == (cnt > 0), "a place is found if and only if it has a name");
    cl_vars_iterator vi(v); const cl_var *last = 0; int k = 0; for (const cl_var *x = vi.first(mems[m], a); x && k < 4; x = vi.next(), k++) { int n = 0; while (n < NN && strcmp(x->get_name(), NM[n])) n++; REQ(n < NN && E[n].in && (E[n].m == m && E[n].a == a || m == 0 && E[n].m == 1 && E[n].a == a + 8), "every name listed at a place belongs there"); REQ(x != last, "a name is listed once"); if (last) REQ(!(last->bitnr_high < 0 ? 0 : 1) || x->bitnr_high >= 0, "names of cells come before names of bits"); last = x; }
    REQ(k == all, "all names of a place are listed"); }
}
