// The simulator interface (a memory cell by which the simulated program controls the simulation) against its documentation.
#include <stdarg.h>
#include "uc_common.h"
#include "memcl.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
#include "simifcl.h"
#include "newcmdcl.h"
#include "cmdlexcl.h"
extern struct cpu_entry cpus_z80[];
class S : public cl_simz80 { public: int started, stopped, why; S(class cl_app *a) : cl_simz80(a) { started = stopped = why = 0; }
  void start(class cl_console_base *con, unsigned long n) { started++; state |= SIM_GO; } void stop(int reason) { stopped++; why = reason; state &= ~(SIM_GO | SIM_EMU); } };
class F : public cl_f { public: char t[16]; int n, rp;   // a file in memory: only the device level is replaced
  F() : cl_f() { n = rp = 0; file_id = 77; type = F_FILE; cooking = false; proc_telnet = proc_escape = false; tty = false; }
  enum file_type determine_type(void) { return F_FILE; }
  bool writable(void) { return true; }
  int check_dev(void) { pick(); return last_used != first_free; }
  int pick(void) { int fp = free_place(); if (fp < 5) return 0; int m = n - rp; for (int i = 0; i < m; i++) process(t[rp + i]); rp += m; if (!m) at_end = 1; return m; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 16) t[n++] = b[i]; return k; }
};
static cl_uc *uc; static cl_console_base *con; static S *sim; static cl_simulator_interface *sif; static F *fi, *fo; static U8 out[16]; static int nout; static bool rec;
extern "C" int putc(int c, FILE *f) { if (!rec) return fputc(c, f); if (f == stdout && nout < 16) out[nout++] = c; return c; }
extern "C" int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r; if (!rec) r = vfprintf(stdout, fmt, ap); else { char b[64]; r = vsnprintf(b, 64, fmt, ap); for (int i = 0; i < r && nout < 16; i++) out[nout++] = b[i]; } va_end(ap); return r; }
enum { AD = 0x8000, NC = 16, NG = 15 };
static const struct { char c; int np, at; } T[NC] = {{'_', 0, 1}, {'i', 0, 2}, {'v', 0, 1}, {'V', 0, 3}, {'@', 0, 4}, {'I', 1, 2}, {'h', 1, 3}, {'s', 0, 1}, {'p', 1, 4}, {'x', 1, 4}, {'f', 0, 1}, {'r', 0, 1}, {'w', 1, 4}, {'R', 0, 4}, {'L', 4, 4}, {'l', 0, 8}};
static const char *GN[NG] = {"on", "run", "start", "stop", "quit", "reason", "xtal", "ticks", "isr_ticks", "idle_ticks", "real_time", "vclk", "print", "write", "limit"};
extern "C" void sym_setup(void) {
  uc = mk_sim<S>(cpus_z80, "Z80"); sim = (S *)uc->sim; sif = (cl_simulator_interface *)sim->simif; if (!sif) for (int i = 0; i < uc->hws->count; i++) if (((cl_hw *)uc->hws->at(i))->category == HW_SIMIF) sif = (cl_simulator_interface *)uc->hws->at(i);
  uc->reset(); sif->as = uc->rom; sif->address = AD; sif->cell = sif->register_cell(uc->rom, AD); fi = new F(); fo = new F(); rec = true; con = new cl_console_dummy();
  sym_stub("cl_app::debug"); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
extern "C" long sym_ncases(void) { return NC + 2 + NG; }
extern "C" void sym_casename(long c, char *b, int n) { if (c < NC) snprintf(b, n, "command:%c", T[c].c); else if (c == NC) snprintf(b, n, "command:other"); else if (c == NC + 1 + NG) snprintf(b, n, "address"); else snprintf(b, n, "control:%s", GN[c - NC - 1]); }
static int act, got, na, ap, fin_n, fout_n, stops, resets; static U32 par[4], limit; static U32 ans[80]; static U8 fb[2], fw[8], pr[8]; static int npr, fr; static bool havei, haveo, list;
static int find(U32 v) { for (int i = 0; i < NC; i++) if (sym_fork(v == (U8)T[i].c)) return i; return -1; }
static void str(const char *s) { int i = 0; for (; s[i]; i++) ans[i + 1] = (U8)s[i]; ans[0] = i + 1; ans[i + 1] = 0; na = i + 2; }
static void produce() {
  na = ap = 0; char c = T[act].c; int i;
  switch (c) { case '_': ans[0] = '!'; na = 1; break; case 'i': ans[0] = NC; for (i = 0; i < NC; i++) ans[i + 1] = T[i].c; na = NC + 1; break; case 'v': ans[0] = SIMIF_VERSION; na = 1; break; case 'V': str(VERSIONSTR); break;
    case 'I': i = find(par[0]); ans[0] = 2; ans[1] = i < 0 ? 0 : T[i].np; ans[2] = i < 0 ? 0 : T[i].at; na = 3; break;
    case 'h': i = find(par[0]); if (i < 0) ans[0] = 0, na = 1; else str(((cl_sif_command *)sif->commands->object_at(i))->get_description()); break;
    case 's': stops++; ans[0] = 's'; na = 1; break; case 'p': pr[npr++] = par[0]; break; case 'x': pr[npr++] = "0123456789abcdef"[par[0] >> 4 & 15]; pr[npr++] = "0123456789abcdef"[par[0] & 15]; break; case 'f': ans[0] = fr < fin_n; na = 1; break; case 'r': ans[0] = fr < fin_n ? fb[fr++] : 0; na = 1; break; case 'w': if (haveo) fw[fout_n++] = par[0]; break; case 'R': resets++; break;
    case 'L': limit = (par[0] & 255) | (par[1] & 255) << 8 | (par[2] & 255) << 16 | (par[3] & 255) << 24; break; case 'l': ans[0] = 4; for (i = 0; i < 4; i++) ans[i + 1] = limit >> 8 * i & 255; na = 5; break; }
  if (!na) act = -1; }
static void wr(U8 v) { uc->rom->write(AD, v); if (act < 0) { act = find(v); got = 0; if (act >= 0 && !T[act].np) produce(); } else if (got < T[act].np) { par[got++] = v; if (got == T[act].np) produce(); } }
static void rd() { U32 v = uc->rom->read(AD); sym_observe("read", v); if (act < 0 || got < T[act].np) return; REQ(v == ans[ap], "the answer is read byte by byte"); if (++ap == na) act = -1; }
static void state() {
  REQ(sim->stopped == stops && !sim->started, "the simulation is stopped by the stop command only"); if (stops) REQ(sim->why == resSIMIF, "reason of the stop");
  REQ(sim->exec_limit == limit, "limit of the execution"); REQ(fo->n == fout_n, "number of characters written to the output file"); for (int i = 0; i < fout_n; i++) REQ((U8)fo->t[i] == fw[i], "characters written to the output file");
  REQ(resets ? uc->PC == 0 : uc->PC == 0x1234, "the CPU is reset by the reset command only"); REQ(!(sim->state & SIM_QUIT), "the simulator does not quit"); }
static void cfg(int g) {
  enum { ON, RUN, START, STOP, QUIT, REASON, XTAL, TICKS, ISR, IDLE, RT, VCLK, PRINT, WRITE, LIMIT }; if (g == XTAL || g == RT) return;
  cl_memory *m = sif->cfg; U32 tk = SYM32("ticks"), is = SYM32("isr"), id = SYM32("idle"), f = SYM16("fetch"), r = SYM16("rd"), w = SYM16("wr"), why = SYM8("why"); uc->ticks->ticks = tk; uc->isr_ticks->ticks = is; uc->idle_ticks->ticks = id; uc->vc.fetch = f; uc->vc.rd = r; uc->vc.wr = w; m->set(REASON, why);
  bool go = sym_fork(SYM1("go")), on = sif->on, quit = false; sim->state &= ~SIM_GO; if (go) sim->state |= SIM_GO; int st = 0, sp = 0;
  for (int k = 0; k < 2; k++) { char b[16]; snprintf(b, 16, "write%d", k); if (sym_fork(sym_int(b, 1))) { snprintf(b, 16, "v%d", k); U32 v = SYM32(b);
      if (g == ON || g == RUN || g == PRINT) v = sym_fork(v != 0) ? v : 0; m->write(g, v);
      if (g == ON) on = v != 0; else if (g == RUN) v ? (go = true, st++) : (go = false, sp++); else if (g == START) go = true, st++; else if (g == STOP) go = false, sp++; else if (g == QUIT) quit = true; else if (g == PRINT) pr[npr++] = v; else if (g == WRITE) { if (haveo) fw[fout_n++] = v; } else if (g == LIMIT) limit = v; }
    else { U32 v = m->read(g); sym_observe("read", v); U32 x = g == ON ? on : g == RUN || g == START ? go : g == STOP ? !go : g == REASON ? why : g == TICKS ? tk : g == ISR ? is : g == IDLE ? id : g == VCLK ? f + r + w : g == LIMIT ? limit : v; REQ(v == x, "value of the control cell"); }
    REQ(sim->started == st && sim->stopped == sp, "starts and stops"); REQ(!!(sim->state & SIM_QUIT) == quit, "quit"); REQ(sif->on == on, "on"); REQ(sim->exec_limit == limit, "limit of the execution"); REQ(fo->n == fout_n, "number of characters written to the output file"); for (int i = 0; i < fout_n; i++) REQ((U8)fo->t[i] == fw[i], "characters written to the output file"); REQ(nout == npr, "number of printed characters"); for (int i = 0; i < npr; i++) REQ(out[i] == pr[i], "printed characters");
    REQ(uc->ticks->get_ticks() == tk && uc->isr_ticks->get_ticks() == is && uc->idle_ticks->get_ticks() == id, "clock counters are kept"); }
}
static void address() { // set hardware simif: the interface moves
  static const char *X[] = {"simif rom 0x9000", "simif rom 0x10000", "simif rom_chip 0x9000", "simif regs8 3", "simif rom 0x8000"}; U32 k = sym_int("where", 3); sym_assume(k < 5); k = sym_fork(k); U8 v = SYM8("v"); uc->rom->set(0x9000, v);
  cl_cmdline *l = new cl_cmdline(application, X[k], con); l->init(); sif->set_cmd(l, con); U32 a = k == 0 ? 0x9000 : AD; cl_address_space *s = uc->rom; if (k == 3 && uc->address_space("regs8")) s = uc->address_space("regs8"), a = 3;
  for (int i = 0; i < 3; i++) { cl_address_space *t = i < 2 ? uc->rom : uc->address_space("regs8"); U32 b = i == 0 ? AD : i == 1 ? 0x9000 : 3; if (!t) continue; bool me = t == s && b == a; t->write(b, '_'); REQ(t->read(b) == (me ? '!' : '_'), "the interface is in the cell given, and only there"); }
}
extern "C" void sym_test(long c) {
  act = -1; nout = npr = fr = fin_n = fout_n = stops = resets = got = 0; sim->state &= ~SIM_QUIT;
  limit = SYM32("limit"); sim->exec_limit = limit; havei = false; haveo = SYM1("have_out"); haveo = sym_fork(haveo); sif->fout = haveo ? fo : 0; uc->PC = 0x1234;
  if (c == NC + 1 + NG) { address(); return; }
  if (c > NC) { cfg(c - NC - 1); return; }
  char cc = c < NC ? T[c].c : 0; havei = (cc == 'r' || cc == 'f') && sym_fork(SYM1("have_in")); if (havei) { fin_n = sym_fork(SYM1("two")) ? 2 : sym_fork(SYM1("one")); for (int i = 0; i < fin_n; i++) { fb[i] = SYM8(i ? "in1" : "in0"); fi->t[i] = fb[i]; } fi->n = fin_n; } sif->fin = havei ? fi : 0;
  U8 n0 = SYM8("n0"), n1 = SYM8("n1"); uc->rom->set(AD - 1, n0); uc->rom->set(AD + 1, n1);
  U8 v = SYM8("command"); if (c < NC) { sym_assume(v == (U8)cc); v = cc; } else for (int i = 0; i < NC; i++) sym_assume(v != (U8)T[i].c);
  wr(v); state();
  int n = sym_thorough() ? 6 : 5;
  for (int k = 0; k < n; k++) { char b[16]; snprintf(b, 16, "write%d", k); if (sym_fork(sym_int(b, 1))) { snprintf(b, 16, "v%d", k); U8 x = SYM8(b); if (act < 0) x = sym_fork(x == (U8)cc) ? (U8)cc : x; if (act < 0 && x != (U8)cc) for (int i = 0; i < NC; i++) sym_assume(x != (U8)T[i].c); wr(x); } else rd(); state(); }
  for (int k = 0; k < 90 && act >= 0; k++) { if (got < T[act].np) wr(SYM8("last")); else rd(); } // to the end of the command
  state(); REQ(act < 0, "every command ends"); wr('_'); rd(); REQ(act < 0, "detection"); wr('v'); rd();
  REQ(nout == npr, "number of printed characters"); for (int i = 0; i < npr; i++) REQ(out[i] == pr[i], "printed characters"); REQ(uc->rom->get(AD - 1) == n0 && uc->rom->get(AD + 1) == n1, "other cells are kept");
}
