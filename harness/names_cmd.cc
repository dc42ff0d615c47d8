// The var and rmvar commands, and the texts that show what a name means.
#include "uc_common.h"
#include "memcl.h"
#include "varcl.h"
#include "argcl.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
#include "newcmdcl.h"
#include "cmd_uccl.h"
extern struct cpu_entry cpus_z80[];
static cl_uc *uc; static cl_memory_chip *chip; static cl_address_space *as;
class F : public cl_f { public: char t[4000]; int n; F() : cl_f() { n = 0; }
  enum file_type determine_type(void) { return F_FILE; } bool writable(void) { return true; } int check_dev(void) { return 0; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 4000) t[n++] = b[i]; return k; } };
static F *f;
class K : public cl_console_dummy { public: bool non_color(void) { return true; } bool opt_bw(void) { return true; } class cl_f *get_fout(void) { return f; } };
static K *con; static cl_cmd *cv, *cr;
extern "C" void sym_setup(void) {
  uc = mk_sim<cl_simz80>(cpus_z80, "Z80"); chip = new_chip("lchip", 16, 32, 0); as = new cl_address_space("las", 0, 8, 32); as->init();
  cl_address_decoder *d = new cl_address_decoder(as, chip, 0, 7, 8); d->init(); as->decoders->add(d); d->activate(0); uc->address_spaces->add(as); uc->memchips->add(chip);
  sym_stub("cl_app::dd_printf"); f = new F(); con = new K(); cv = new cl_var_cmd("var", 0); cv->init(); cr = new cl_rmvar_cmd("rmvar", 0); cr->init();
}
enum { CELL_, BIT_, FIELD_, ALONE, NAMES, RM, SHOW, NS = SHOW + 6 };
static const char *SN[] = {"var-cell", "var-bit", "var-field", "var", "var-names", "rmvar"};
static const int HI[6] = {-1, 0, 31, 7, 12, 31}, LO[6] = {-1, 0, 31, 4, 3, 0};
extern "C" long sym_ncases(void) { return NS; }
extern "C" void sym_casename(long c, char *b, int n) { if (c >= SHOW) snprintf(b, n, "show:%d-%d", HI[c - SHOW], LO[c - SHOW]); else snprintf(b, n, "%s", SN[c]); }
static cl_cmdline *mk(const char *s) { cl_cmdline *l = new cl_cmdline(application, s, con); l->init(); return l; }
static void ival(cl_cmdline *l, int k, long v) { ((cl_cmd_arg *)l->params->at(k))->i_value = v; }
static cl_var *get(const char *n) { t_index i; return uc->vars->by_name.search(n, i) ? (cl_var *)uc->vars->by_name.at(i) : 0; }
extern "C" void sym_test(long c) {
  f->n = 0; uc->vars = new cl_var_list(); cl_var_list *v = uc->vars;
  if (c <= FIELD_) { static const char *X[] = {"var qq las 1", "var qq las 1 1", "var qq las 1 1 1"}; cl_cmdline *l = mk(X[c]); U32 a = SYM32("addr"), b = sym_int("low", 6), h = sym_int("high", 6); ival(l, 2, a); if (c > CELL_) ival(l, 3, b); if (c == FIELD_) ival(l, 4, h); else h = b;
    cv->work(application, l, con); cl_var *x = get("qq"); bool ok = a < 8 && (c == CELL_ || b < 32 && h < 32); REQ(!!x == ok, "a name is defined when its cell and bits exist"); if (!x) return;
    REQ(x->get_mem() == as && x->get_addr() == a, "the name means the cell given"); REQ(x->get_cell() == as->get_cell(a), "cell of the name"); if (c == CELL_) REQ(x->bitnr_low == -1 && x->bitnr_high == -1, "the name means a whole cell"); else REQ(x->bitnr_low == (int)(b < h ? b : h) && x->bitnr_high == (int)(b < h ? h : b), "the name means the bits given");
    U32 w = SYM32("value"), o = SYM32("other"); as->set(a ^ 1, o); x->write(w); REQ(as->get(a) == w && x->read() == w, "a write by the name goes to its cell"); w = SYM32("value2"); x->set(w); REQ(as->get(a) == w, "a write by the name goes to its cell"); REQ(as->get(a ^ 1) == o, "other cells are kept"); return; }
  if (c == ALONE) { int used[3]; bool in[8] = {}; for (int i = 0; i < 3; i++) { char t[8], nm[8]; snprintf(t, 8, "u%d", i); int k = sym_int(t, 2); used[i] = k = sym_fork(k); snprintf(nm, 8, "v%d", i); if (k && !in[k - 1]) { v->add(nm, uc->variables, k - 1, -1, -1, ""); in[k - 1] = true; } }
    cv->work(application, mk("var qq"), con); cl_var *x = get("qq"); U32 a = 0; while (in[a]) a++; REQ(x && x->get_mem() == uc->variables && x->get_addr() == a, "a new variable gets a free cell"); cv->work(application, mk("var rr"), con); cl_var *y = get("rr"); a++; while (in[a]) a++; REQ(y && y->get_addr() == a && y->get_mem() == uc->variables, "a new variable gets a free cell"); x = get("qq"); U32 w = SYM32("value"), w2 = SYM32("value2"); x->write(w); y->write(w2); REQ(x->read() == w && y->read() == w2, "variables are independent"); return; }
  if (c == NAMES) { static const char *X[] = {"a", "_", "a1", "A_b", "1a", "a-b", "a.b", ".a", "zz9"}; int k = sym_int("which", 4); sym_assume(k < 9); k = sym_fork(k); char b[40]; snprintf(b, 40, "var %s las 3", X[k]); cv->work(application, mk(b), con); bool ok = k < 4 || k == 8; REQ(v->by_name.count == ok && v->by_addr.count == ok, "only names are defined"); if (ok) REQ(get(X[k]) && get(X[k])->get_addr() == 3, "the name means the cell given"); return; }
  if (c == RM) { static const char *N[] = {"aa", "bb", "cc"}; bool in[3]; for (int i = 0; i < 3; i++) { char t[8], b[40]; snprintf(t, 8, "in%d", i); in[i] = SYM1(t); in[i] = sym_fork(in[i]); if (in[i]) { snprintf(b, 40, "var %s las %d", N[i], i == 2 ? 1 : i); cv->work(application, mk(b), con); } } int k = sym_int("which", 2); sym_assume(k < 3); k = sym_fork(k); char b[40]; snprintf(b, 40, "rmvar %s", N[k]); cr->work(application, mk(b), con); in[k] = false; for (int i = 0; i < 3; i++) { cl_var *x = get(N[i]); REQ(!!x == in[i], "rmvar removes the name given and no other"); if (x) REQ(x->get_addr() == (i == 2 ? 1u : i), "other names are kept"); } REQ(v->by_addr.count == in[0] + in[1] + in[2], "other names are kept"); return; }
  int k = c - SHOW, hi = HI[k], lo = LO[k]; U32 w = k ? SYM32("value") : SYM16("value"); as->set(5, w); bool plain = sym_fork(SYM1("cell_only")); cl_cvar *x; if (plain) x = new cl_cvar("qq", as->get_cell(5), "", hi, lo); else x = v->add("qq", as, 5, hi, lo, "");
  x->print_info(con); f->t[f->n] = 0; int p = 0; REQ(!strncmp(f->t, "qq ", 3), "the name is shown"); if (!plain) REQ(!strncmp(f->t, "qq las[", 7), "the place is shown");
  if (hi < 0) { while (p < f->n && f->t[p] != '=') p++; p += 4; U32 y = 0; for (int i = 0; i < 8; i++) { int ch = f->t[p++]; REQ(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f', "digits of the value"); y = y << 4 | (ch <= '9' ? ch - '0' : ch - 'a' + 10); } REQ(y == w, "the value of the cell is shown"); REQ(f->t[p] == ',', "end of the value"); }
  else { while (p < f->n && f->t[p] != '=') p++; p += 2; if (hi != lo) p += 2; for (int i = hi; i >= lo; i--) { int ch = f->t[p++]; REQ(ch == '0' + (w >> i & 1), "the bits of the name are shown"); } REQ(f->t[p] == ',', "end of the value"); }
}
