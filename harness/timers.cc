// Clock counters ("timer" commands): after any short history of commands and ticks every counter exists, runs and counts as commanded.
#include "uc_common.h"
#include "memcl.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
#include "newcmdcl.h"
#include "itsrccl.h"
#include "cmd_timercl.h"
extern struct cpu_entry cpus_z80[];
extern "C" int vrt_poison;
static cl_uc *uc; static cl_console_dummy *con; static cl_cmd *C[5]; static cl_list *base;
static it_level *lev;
enum { ADD, DEL, STOP, START, SET, TICK };
static const char *CN[] = {"add", "delete", "stop", "start", "set"};
static const char *ID[3] = {"7", "tt", "isr"};     // by number, by name, and a built in one (which cannot be added or deleted)
enum { NOP = 16 };
static int nops() { return sym_thorough() ? 4 : 3; }
extern "C" void sym_setup(void) {
  uc = mk_sim<cl_simz80>(cpus_z80, "Z80"); sym_stub("cl_app::dd_printf"); con = new cl_console_dummy();
  C[0] = new cl_timer_add_cmd("add", 0); C[1] = new cl_timer_delete_cmd("delete", 0); C[2] = new cl_timer_stop_cmd("stop", 0); C[3] = new cl_timer_run_cmd("start", 0); C[4] = new cl_timer_value_cmd("set", 0); for (int i = 0; i < 5; i++) C[i]->init();
  lev = (it_level *)uc->it_levels->top(); vrt_poison = 1;
}
extern "C" long sym_ncases(void) { long n = 1; for (int i = 0; i < nops(); i++) n *= NOP; return n; }
static int op[4]; static void dec(long c) { for (int i = 0; i < nops(); i++) op[i] = c % NOP, c /= NOP; }
extern "C" void sym_casename(long c, char *b, int n) { dec(c); *b = 0; for (int i = 0; i < nops(); i++) snprintf(b + strlen(b), n - strlen(b), "%s%s%s", i ? "," : "", op[i] == 15 ? "tick" : CN[op[i] / 3], op[i] == 15 ? "" : ID[op[i] % 3]); }
struct tm { bool in, run, set, user; int dir, type; unsigned long t; double rt; } T[6];   // 7, tt, isr, time, idle, halt
static int tab[] = {-1, 0, 1}; static const int TY[] = {TICK_ANY, TICK_INISR, TICK_IDLE, TICK_HALT};
static cl_ticker *get(int i) { static const char *B[] = {"isr", "time", "idle", "halt"}; return i == 0 ? uc->get_counter(7) : i == 1 ? uc->get_counter("tt") : uc->get_counter(B[i - 2]); }
static void tick(int k) { char t[8]; snprintf(t, 8, "s%d", k); int s = sym_int(t, 2); sym_assume(s < 3); s = sym_fork(s); snprintf(t, 8, "l%d", k); int l = sym_fork(sym_int(t, 1)); snprintf(t, 8, "p%d", k); lev->level = l ? sym_int(t, 2) : -1; uc->state = s == 0 ? stGO : s == 1 ? stIDLE : stPD; static const int N[] = {3, 1000, 1, 65535, 12, 0, 0, 0, 77}; int n = N[k];
  int q = uc->clock_per_cycle(); double time = n * q * uc->get_xtal_tick(); uc->tick(n);
  for (int i = 0; i < 6; i++) if (T[i].in && T[i].run && (T[i].type == TICK_ANY || T[i].type == TICK_INISR && l || T[i].type == TICK_IDLE && s == 1 || T[i].type == TICK_HALT && s == 2)) { if (T[i].dir >= 0) T[i].t += n * q, T[i].rt += time; else T[i].t -= n * q, T[i].rt -= time; } }
static void check() { for (int i = 0; i < 6; i++) { cl_ticker *k = get(i); REQ((k != 0) == T[i].in, "a timer exists from its addition to its deletion"); if (!T[i].in) continue; sym_observe("ticks", k->get_ticks()); REQ(k->get_ticks() == T[i].t, "a timer counts the clocks of its kind while it runs"); REQ(k->run == T[i].run, "a timer runs from start to stop"); REQ(k->get_rtime() == T[i].rt, "the time of a timer is that of its clocks"); } }
extern "C" void sym_test(long c) {
  dec(c); static const int bt[] = {TICK_INISR, TICK_ANY, TICK_IDLE, TICK_HALT}; for (int i = 0; i < 6; i++) { T[i].in = i >= 2; T[i].run = true; T[i].dir = 1; T[i].user = false; if (i >= 2) T[i].type = bt[i - 2]; T[i].t = 0; T[i].rt = 0; if (i >= 2) { char t[8]; snprintf(t, 8, "t%d", i); T[i].t = SYM32(t); get(i)->ticks = T[i].t; get(i)->rtime = 0; get(i)->run = true; } }
  for (int i = 0; i < nops(); i++) { if (op[i] == 15) { tick(i); continue; }
    int o = op[i] / 3, x = op[i] % 3, d = 1, ty = 0; char b[60], t[8]; tm *m = T + x;
    if (o == ADD && !m->in) { snprintf(t, 8, "d%d", i); d = sym_fork(sym_int(t, 1)) ? 1 : -1; snprintf(t, 8, "y%d", i); ty = sym_fork(sym_int(t, 2)); }
    static const char *P[] = {"", " isr", " idle", " halt", " 1"}; snprintf(b, 60, "%s %s%s%s", CN[o], ID[x], o == ADD ? d > 0 ? " 1" : " -1" : o == SET ? i == 1 ? " 5000000000" : " 123456" : "", o == ADD ? P[ty] : "");
    cl_cmdline *l = new cl_cmdline(application, b, con); l->init(); C[o]->work(application, l, con);
    switch (o) { case ADD: if (!m->in) { m->in = m->run = m->user = true; m->dir = d; m->type = ty; m->t = 0; m->rt = 0; } break; case DEL: if (m->in && m->user) m->in = false; break; case STOP: if (m->in) m->run = false; break; case START: if (m->in) m->run = true; break; case SET: if (m->in) m->t = i == 1 ? 5000000000L : 123456, m->rt = (i == 1 ? 5000000000L : 123456L) * uc->get_xtal_tick(); break; } }
  tick(8); check();
}
