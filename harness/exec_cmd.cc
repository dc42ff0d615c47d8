// The execution commands: step, run and next execute exactly what they are told to (Z80 programs chosen while they run).
#include "uc_common.h"
#include "glob.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
#include "newcmdcl.h"
#include "cmd_execcl.h"
#include "brkcl.h"
#undef SP
#undef STK
typedef unsigned long long U64;
static cl_z80 *z; static cl_console_dummy *con; static cl_cmd *step, *run, *next; static cl_memory_chip *mc;
enum { CODE = 0x2000, SUB = 0x2100, SUB2 = 0x2200, DAT0 = 0x3000, STK = 0x3100 };
static const char *UN[] = {"", "clk", "vclk", "fclk", "fetch", "rclk", "read", "wclk", "write", "us", "usec", "ms", "s"};
enum { NU = 13, C_RUN = NU, C_RUNBP, C_LIMIT, C_NEXT, C_NEXTBP, C_STALE, NC };
static const char *NM[] = {"run", "run:breakpoint-at-stop", "run:limit", "next", "next:breakpoint-after", "step:stopped-earlier"};
extern "C" void sym_setup(void) {
  z = (cl_z80 *)mk_sim<cl_simz80>(cpus_z80, "Z80"); mc = chip_of(z->ram); con = new cl_console_dummy(); z->set_xtal(4000000.0);
  step = new cl_step_cmd("step", 0); run = new cl_run_cmd("run", 0); next = new cl_next_cmd("next", 0);
  sym_stub("cl_console_base::cmd_do_print"); sym_stub("cl_z80::print_regs"); sym_stub("cl_app::dd_printf"); sym_stub("cl_console_base::dd_printf"); sym_stub("cl_console_base::dd_cprintf"); sym_stub("cl_app::debug"); sym_stub("cl_uc::stack_write"); sym_stub("cl_uc::stack_read");
}
extern "C" long sym_ncases(void) { return NC; }
extern "C" void sym_casename(long c, char *b, int n) { if (c < NU) snprintf(b, n, "step:%s", c ? UN[c] : "instructions"); else snprintf(b, n, "%s", NM[c - NU]); }
static U32 pc, sp; static U64 clk, fe, rd, wr; static U32 stk[4]; static bool known[0x300];
struct ins { U8 op; int len, clk, f, r, w; };
static const ins I[] = { {0x00, 1, 4, 1, 0, 0}, {0x3e, 2, 7, 2, 0, 0}, {0x77, 1, 7, 1, 0, 1}, {0x7e, 1, 7, 1, 1, 0}, {0x23, 1, 6, 1, 0, 0},
  {0xcd, 3, 17, 3, 0, 2}, {0xc9, 1, 10, 1, 2, 0}, {0xdc, 3, 10, 3, 0, 0} };
enum { CALL = 5, RET = 6, CALLC = 7 };
static int kind[0x300], nsel;
// choose the instruction at pc: one of the first n kinds
static int choose(const char *nm, int n) { int k = sym_int(nm, 3); sym_assume(k < n); return sym_fork(k); }
static void put(U32 a, int k, U32 t) { kind[a - CODE] = k; known[a - CODE] = true; z->rom->set(a, I[k].op); if (I[k].len == 3) { z->rom->set(a + 1, t & 255); z->rom->set(a + 2, t >> 8); } else if (I[k].len == 2) z->rom->set(a + 1, 0x5a); }
static void one(void) {   // one instruction on the model
  const ins &i = I[kind[pc - CODE]]; int k = kind[pc - CODE];
  if (k == CALL) { stk[sp++] = pc + 3; pc = z->rom->get(pc + 1) + 256 * z->rom->get(pc + 2); } else if (k == RET) pc = stk[--sp]; else pc += i.len;
  clk += i.clk; fe += i.f; rd += i.r; wr += i.w;
}
static const char *sel() { static const char *s[] = {"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9"}; return s[nsel++]; }
static void cmd(cl_cmd *c, const char *t) { cl_cmdline *l = new cl_cmdline(application, (char *)t, con); l->init(); c->work(application, l, con); }
static bool going() { return (z->sim->state & SIM_GO) != 0; }
extern "C" void sym_test(long c) {
  z->sim->state &= ~(SIM_GO | SIM_QUIT); nsel = 0; sp = 0; for (int i = 0; i < 0x300; i++) known[i] = false;
  sym_chip(mc, "ram");
  U8 A = z->regs.raf.A = SYM8("A"); z->regs.HL = DAT0; z->regs.SP = STK; z->PC = pc = CODE; z->regs.raf.F = SYM8("F") & ~1;
  z->vc.fetch = SYM16("fetches"); z->vc.rd = SYM16("reads"); z->vc.wr = SYM16("writes"); clk = fe = rd = wr = 0; z->ticks->ticks = SYM16("ticks");
  int max = sym_thorough() ? 5 : 4;
  if (c < NU) {
    char b[40]; int N = 0; U64 *cnt = 0; 
    if (c == 0) snprintf(b, 40, "step 3"); else snprintf(b, 40, "step 3 %s", UN[c]);
    cl_cmdline *l = new cl_cmdline(application, b, con); l->init(); 
    if (c < 9) { N = SYM8("n"); sym_assume(N >= 1 && N <= 60); l->param(0)->i_value = N; }
    else { int n = choose("n", 3) + 1; N = 4 * n; if (c == 11) n = N = 1, N = 4000; if (c == 12) n = 1, N = 4000000; l->param(0)->i_value = n; if (c >= 11) z->set_xtal(c == 11 ? 7000.0 : 9.0), N = c == 11 ? 7 : 9; }
    step->work(application, l, con);
    for (int k = 0; k < max; k++) {
      REQ(going(), "execution goes on until what was asked for is done"); if (!known[pc - CODE]) put(pc, choose(sel(), 5), 0);
      one(); z->sim->step(); REQ(z->PC == pc, "one instruction is executed at a time");
      U64 done = c == 0 ? k + 1 : c == 1 || c >= 9 ? clk : c == 2 ? fe + rd + wr : c <= 4 ? fe : c <= 6 ? rd : wr;
      REQ(going() == (done < (U64)N), "step executes exactly the asked amount"); if (sym_fork(!going())) break;
    }
    return;
  }
  if (c == C_RUN || c == C_RUNBP) {
    int k = choose("stopafter", 4) + 1; U32 e = CODE; int seq[5]; for (int i = 0; i < k; i++) { put(e, choose(sel(), 3), 0); e += I[kind[e - CODE]].len; }
    put(e, 0, 0); cl_brk *b = 0; if (c == C_RUNBP) { b = new cl_fetch_brk((cl_address_space *)z->rom, z->make_new_brknr(), e, brkFIX, 1); b->init(); z->fbrk->add_bp(b); }
    z->PC = 0x1234; char t[40]; snprintf(t, 40, "run 0x%x 0x%x", CODE, e); cmd(run, t); REQ(z->PC == CODE && going(), "run starts at the given address");
    for (int i = 0; i < k; i++) { one(); z->sim->step(); REQ(z->PC == pc, "one instruction is executed at a time"); REQ(going(), "run goes on until the stop address"); }
    z->sim->step(); REQ(!going() && z->PC == e, "run stops before the instruction at the stop address");
    REQ(z->fbrk->count == (b != 0), "the temporary breakpoint of run is removed, one of the user stays");
    return;
  }
  if (c == C_LIMIT) {
    int n = SYM8("n"); sym_assume(n >= 1 && n <= 4); z->sim->exec_limit = n; cmd(run, "run");
    for (int k = 0; k < 4; k++) { put(pc, 0, 0); one(); z->sim->step(); REQ(z->PC == pc, "one instruction is executed at a time"); REQ(going() == (k + 1 < n), "a limit on the number of instructions stops run"); if (sym_fork(!going())) break; }
    return;
  }
  if (c == C_NEXT || c == C_NEXTBP) {
    int k = choose("what", 4); put(pc, k == 0 ? CALL : k == 1 ? CALLC : k == 2 ? 0 : 2, SUB); U32 e = CODE + I[kind[0]].len; put(e, 0, 0);
    cl_brk *b = 0; if (c == C_NEXTBP) { b = new cl_fetch_brk((cl_address_space *)z->rom, z->make_new_brknr(), e, brkFIX, 1); b->init(); z->fbrk->add_bp(b); }
    cmd(next, "next"); one(); z->sim->step(); REQ(z->PC == pc, "one instruction is executed at a time");
    if (k >= 2) { REQ(!going(), "next executes one instruction"); REQ(z->fbrk->count == (b != 0), "breakpoints of the user stay"); return; }
    for (int i = 0; i < max + 1 && sp; i++) {
      REQ(going(), "next goes on in the called subroutine");
      if (!known[pc - CODE]) { int s = choose(sel(), 3); put(pc, s == 0 ? RET : s == 1 && pc < SUB2 ? CALL : 0, SUB2); }
      one(); z->sim->step(); REQ(z->PC == pc, "one instruction is executed at a time");
    }
    if (sp) { REQ(going(), "next goes on in the called subroutine"); return; }
    z->sim->step(); REQ(!going() && z->PC == e, "next stops after the call"); REQ(z->fbrk->count == (b != 0), "the temporary breakpoint of next is removed, one of the user stays");
    return;
  }
  // a step which was stopped by a breakpoint has no effect on later commands
  int u = choose("unit", 3); cl_brk *b = new cl_fetch_brk((cl_address_space *)z->rom, z->make_new_brknr(), CODE + 1, brkDYNAMIC, 1); b->init(); z->fbrk->add_bp(b);
  put(CODE, 0, 0); put(CODE + 1, 0, 0); put(CODE + 2, 0, 0); put(CODE + 3, 0, 0); put(CODE + 4, 0, 0);
  cmd(step, u == 0 ? "step 3" : u == 1 ? "step 12 clk" : "step 3 fetch"); one(); z->sim->step(); REQ(going() && z->PC == pc, "one instruction is executed at a time"); z->sim->step(); REQ(!going() && z->PC == pc, "a breakpoint stops step");
  int w = choose("then", 2); cmd(w ? step : run, w ? "step 3" : "run");
  for (int k = 0; k < 3; k++) { one(); z->sim->step(); REQ(z->PC == pc, "one instruction is executed at a time"); REQ(going() == (!w || k < 2), "a stopped step does not stop what is executed later"); }
}
