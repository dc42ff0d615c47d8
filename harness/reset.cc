// Reset: whatever the CPU was doing, it starts again from the state of the data sheet; memory is kept.
#include "isa_common.h"
#include "stackcl.h"
#undef SP
#undef CC
static int grp;
#define NG 1
#ifndef V
#define V 0
#endif
static cl_uc *uc; static RefMem<U8> M; static bool memory = true; static U8 dev[0x10000];
static U16 vec(int a) { return M[a] << 8 | M[a + 1]; }
#if R_Z80
#include "z80cl.h"
#include "simz80cl.h"
extern struct cpu_entry cpus_z80[];
static cl_z80 *z;
static void mk() { uc = z = (cl_z80 *)mk_sim<cl_simz80>(cpus_z80, V == 0 ? "Z80" : V == 1 ? "Z180" : "LR35902"); M.attach(chip_of(z->rom), "mem", 0x10000); }
static void arb() { z->regs.SP = SYM16("sp"); z->regs.iv = SYM8("i"); z->regs.R = SYM8("r"); z->IFF1 = SYM1("iff1"); z->IFF2 = SYM1("iff2"); z->imode = sym_int("im", 2); }
static void chk() { REQ(z->PC == 0, "PC after reset"); if (V < 2) { REQ(!z->IFF1 && !z->IFF2, "interrupts are disabled by reset"); REQ(z->imode == 0, "interrupt mode 0 after reset"); REQ(z->regs.iv == 0 && z->regs.R == 0, "I and R are cleared by reset"); } }
#elif R_6800
#if V == 2
#include "simm68hc11cl.h"
#include "m68hc11cl.h"
#include "glob11.h"
#else
#include "simm6800cl.h"
#include "m6801cl.h"
#include "glob68.h"
#endif
static cl_m6800 *z;
static void mk() {
#if V == 2
  z = (cl_m6800 *)mk_sim<cl_simm68hc11>(cpus_m68hc11, "HC11");
#else
  z = (cl_m6800 *)mk_sim<cl_simm6800>(cpus_m6800, V ? "6801" : "6800");
#endif
  uc = z; M.attach(chip_of(z->rom), "mem", 0x10000); }
static void arb() { z->CC.cc16.cc8.ccl = SYM8("cc"); z->SP = SYM16("sp"); }
static void chk() { REQ(z->PC == vec(0xfffe), "PC is read from the reset vector"); U8 cc = z->CC.cc16.cc8.ccl; REQ((cc & 0xd0) == 0xd0, "interrupts are masked by reset"); }
#elif R_6809
#include "glob.h"
#include "simm6809cl.h"
#include "m6809cl.h"
static cl_m6809 *z;
static void mk() { uc = z = (cl_m6809 *)mk_sim<cl_simm6809>(cpus_m6809, "M6809"); M.attach(chip_of(z->rom), "mem", 0x10000); }
static void arb() { z->reg.CC = SYM8("cc"); z->reg.DP = SYM8("dp"); z->cwai = SYM1("cwai"); z->en_nmi = SYM1("nmi"); z->reg.S = SYM16("s"); }
static void chk() { REQ(z->PC == vec(0xfffe), "PC is read from the reset vector"); REQ((z->reg.CC & 0x50) == 0x50, "interrupts are masked by reset"); REQ(z->reg.DP == 0, "DP is cleared by reset"); REQ(!z->cwai && !z->en_nmi, "NMI waits for the first load of S after reset"); }
#elif R_HC08
#include "simm68hc08cl.h"
#include "m68hc08cl.h"
#include "glob.h"
static cl_hc08 *z;
static void mk() { uc = z = (cl_hc08 *)mk_sim<cl_simm68hc08>(cpus_m68hc08, V == 0 ? "HC08" : V == 1 ? "HCS08" : "9S08"); cl_memory_chip *c = chip_of(z->rom); for (int a = 0; a < 0x10000; a++) if (!dev[a]) z->rom->cella[a].decode(c, a); M.attach(c, "mem", 0x10000); }
static void arb() { z->regs.P = SYM8("ccr"); z->regs.SP = SYM16("sp"); z->regs.H = SYM8("h"); z->regs.A = SYM8("a"); }
static void chk() { REQ(z->PC == vec(0xfffe), "PC is read from the reset vector"); REQ(z->regs.P & 8, "interrupts are masked by reset"); REQ(z->regs.SP == 0xff && z->regs.H == 0, "SP and H after reset"); }
#elif R_ST7
#include "simst7cl.h"
#include "st7cl.h"
#include "glob.h"
static cl_st7 *z;
static void mk() { uc = z = (cl_st7 *)mk_sim<cl_simst7>(cpus_st7, 0); M.attach(chip_of(z->rom), "mem", 0x10000); }
static void arb() { z->regs.CC = SYM8("cc"); z->regs.SP = SYM16("sp"); z->regs.A = SYM8("a"); z->regs.VECTOR = SYM1("v"); }
static void chk() { z->exec_inst(); REQ(z->PC == vec(0xfffe), "PC is read from the reset vector"); REQ(z->regs.CC & 8, "interrupts are masked by reset"); REQ(z->regs.SP == 0x17f, "SP after reset"); }
#elif R_STM8
#include "glob.h"
#include "simstm8cl.h"
#include "stm8cl.h"
static cl_stm8 *z;
static void mk() { uc = z = (cl_stm8 *)mk_sim<cl_simstm8>(cpus_stm8, "STM8S"); M.attach(chip_of(z->rom), "mem", chip_of(z->rom)->size); memory = false; }
static void arb() { z->regs.CC = SYM8("cc"); z->regs.SP = SYM16("sp"); z->regs.A = SYM8("a"); z->regs.X = SYM16("x"); z->regs.Y = SYM16("y"); }
static void chk() { REQ(z->PC == 0x8000, "PC after reset"); REQ(z->regs.CC == 0x28, "interrupts are masked by reset"); REQ(z->regs.SP == 0x17ff, "SP after reset"); REQ(!z->regs.A && !z->regs.X && !z->regs.Y, "A, X and Y are cleared by reset"); }
#elif R_AVR
#include "glob.h"
#include "simavrcl.h"
#include "avrcl.h"
static cl_avr *z;
static void mk() { static struct cpu_entry none = {}; uc = z = (cl_avr *)mk_sim<cl_simavr>(&none, 0); M.attach(chip_of(z->ram), "mem", chip_of(z->ram)->size); dev[0x5f] = 1; }
static void arb() { }
static void chk() { REQ(z->PC == 0, "PC after reset"); REQ(z->ram->get(0x5f) == 0, "the status register is cleared by reset"); }
#elif R_6502
#include "glob.h"
#include "simmos6502cl.h"
#include "mos6502cl.h"
static cl_mos6502 *z;
static void mk() { uc = z = (cl_mos6502 *)mk_sim<cl_simmos6502>(cpus_mos6502, V == 0 ? "6502" : V == 1 ? "65C02" : "65C02S"); M.attach(chip_of(z->rom), "mem", 0x10000); }
static void arb() { z->CC = SYM8("p"); z->SP = SYM8("sp"); }
static void chk() { REQ(z->PC == (M[0xfffc] | M[0xfffd] << 8), "PC is read from the reset vector"); REQ(z->CC & 4, "interrupts are masked by reset"); if (V) REQ(!(z->CC & 8), "decimal mode is left at reset"); }
#elif R_8085
#include "glob.h"
#include "simi8085cl.h"
#include "i8080cl.h"
static cl_i8080 *z;
static void mk() { uc = z = (cl_i8080 *)mk_sim<cl_simi8085>(cpus_i8085, V ? "I8085" : "I8080"); M.attach(chip_of(z->rom), "mem", 0x10000); }
static void arb() { z->rSP = SYM16("sp"); }
static void chk() { REQ(z->PC == 0, "PC after reset"); }
#elif R_8048
#include "glob.h"
#include "simi8048cl.h"
#include "i8048cl.h"
static cl_i8020 *z;
static void mk() { uc = z = (cl_i8020 *)mk_sim<cl_simi8048>(cpus_i8048, "I8048"); M.attach(z->iram_chip, "mem", z->iram_chip->size); }
static void arb() { z->cA.set(SYM8("a")); z->cpsw->write(SYM8("psw")); z->mb = SYM1("mb"); z->in_isr = SYM1("in_isr"); ((cl_i8048 *)z)->flagF1 = SYM1("f1"); z->ints->ene = SYM1("ene"); int m = sym_int("tmode", 2); sym_assume(m < 3); z->timer->mode = (enum timer_modes)m; z->timer->tmr = SYM8("tmr"); z->timer->timer_flag = SYM1("tflag"); z->timer->int_enabled = SYM1("tie"); z->timer->int_request = SYM1("treq"); z->timer->overflow_flag = SYM1("tov"); z->ports->write(1, SYM8("p1")); z->ports->write(2, SYM8("p2")); }
static void chk() { REQ(z->cPC.get() == 0 && z->PC == 0, "PC after reset"); REQ((z->cpsw->get() & 0x37) == 0, "stack pointer, register bank and F0 are cleared by reset"); REQ(!z->mb && !((cl_i8048 *)z)->flagF1, "memory bank 0 is selected and F1 cleared by reset"); REQ(!z->in_isr && !z->ints->ene && !z->timer->int_enabled, "interrupts are disabled by reset"); REQ(z->timer->mode == tm_stop && !z->timer->timer_flag && !z->timer->int_request && !z->timer->overflow_flag, "the timer is stopped and its flag cleared by reset"); REQ(z->ports->get(1) == 0xff && z->ports->get(2) == 0xff, "ports are inputs after reset"); }
#elif R_51
#include "sim51cl.h"
#include "uc51cl.h"
#include "portcl.h"
#include "regs51.h"
extern struct cpu_entry cpus_51[];
static cl_51core *z; static U8 pin;
static void mk() { uc = z = (cl_51core *)mk_sim<cl_sim51>(cpus_51, V ? "51" : "C52"); M.attach(chip_of(z->iram), "mem", V ? 128 : 256); }
static void wr(int a, const char *n) { z->sfr->write(a, SYM8(n)); }
#undef NG
#define NG 4
static void arb() { switch (grp) {
  case 0: { U8 m = SYM8("tmod"); m = sym_fork(m & 0x33) | (m & 0xcc); z->sfr->write(TMOD, m); wr(TCON, "tcon"); wr(TH0, "th0"); wr(TL0, "tl0"); wr(TH1, "th1"); wr(TL1, "tl1"); break; }
  case 1: wr(SCON, "scon"); z->sfr->write(PCON, SYM8("pcon") & 0xfc); wr(SBUF, "sbuf"); wr(IE, "ie"); wr(IP, "ip"); break;
  case 2: wr(SP, "sp"); wr(PSW, "psw"); wr(ACC, "acc"); wr(SFR_B, "b"); wr(DPL, "dpl"); wr(DPH, "dph"); wr(P1, "p1"); wr(P3, "p3"); break;
  case 3: if (!V) { wr(T2CON, "t2con"); wr(T2MOD, "t2mod"); wr(TL2, "tl2"); wr(TH2, "th2"); wr(RCAP2L, "rc"); } break; } }
static void chk() { REQ(z->PC == 0, "PC after reset"); static const U8 R[] = {P0, P1, P2, P3, SP, DPL, DPH, PCON, TCON, TMOD, TL0, TL1, TH0, TH1, SCON, IE, IP, PSW, ACC, SFR_B, T2CON, TL2, TH2, RCAP2L, RCAP2H};
  for (int k = 0; k < 2; k++) { for (int i = 0; i < (V ? 20 : 25); i++) { U8 v = z->sfr->get(R[i]); REQ(v == (i < 4 ? 0xff : i == 4 ? 7 : 0), k ? "nothing runs after reset" : "value of a special function register after reset"); } for (int i = 0; i < 12; i++) uc->tick_hw(1); }
  REQ(z->do_interrupt() == resGO && z->PC == 0, "no interrupt after reset");
  z->sfr->write(TL0, 0x1f); z->sfr->write(TL1, 0x1f); z->sfr->write(TCON, 0x50); uc->tick_hw(1); for (int i = 0; i < 2; i++) REQ(z->sfr->get(TL0 + i) == 0 && z->sfr->get(TH0 + i) == 1, "timers are in mode 0 after reset");
  z->sfr->write(SBUF, 1); for (int i = 0; i < 12; i++) uc->tick_hw(1); REQ(z->sfr->get(SCON) == 2, "the serial port is in mode 0 after reset");

  if (!V) { for (int i = 0; i < z->hws->count; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_PORT && h->id == 1) ((cl_port *)h)->set_pin(0); } z->sfr->write(TL2, 5); z->sfr->write(T2CON, 4); uc->tick_hw(1); REQ(z->sfr->get(TL2) == 6, "timer 2 counts up after reset"); } }
#endif
extern "C" void sym_setup(void) { mk(); uc->reset(); for (UL a = 0; a < M.n && a < 0x10000; a++) { cl_address_space *r = (cl_address_space *)uc->rom; if (M.chip == chip_of(r) && r->cella[a].ops) dev[a] = 1; }
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write"); sym_stub("cl_app::debug"); }
extern "C" long sym_ncases(void) { return 3 * NG; }
extern "C" void sym_casename(long c, char *b, int n) { static const char *N[] = {"running", "idle", "powerdown"}; snprintf(b, n, NG > 1 ? "%s:%ld" : "%s", N[c % 3], c / 3); }
extern "C" void sym_test(long c) {
  grp = c / 3; c %= 3; if (memory) M.sym(); arb(); static const int S[] = {stGO, stIDLE, stPD}; uc->state = S[c]; uc->PC = SYM16("pc"); uc->irq = SYM1("irq"); uc->ticks->ticks = SYM32("ticks"); uc->isr_ticks->ticks = SYM32("isr"); uc->idle_ticks->ticks = SYM32("idle"); uc->halt_ticks->ticks = SYM32("halt");
  int l = sym_int("levels", 2); sym_assume(l < 3); if (grp) sym_assume(l == 1); l = sym_fork(l); for (int i = 0; i < l; i++) uc->it_levels->push(new it_level(i, 0, 0, 0));
  if (sym_fork(SYM1("called"))) uc->stack_ops->push(new cl_stack_call(0x10, 0x20, 0x12, 0x1000, 0xffe));
  for (int k = 0; k < 2; k++) { uc->reset();
    REQ(uc->state == stGO, "reset ends idle and power down states"); REQ(uc->it_levels->count == 1 && ((it_level *)uc->it_levels->top())->level < 0, "no interrupt is in service after reset"); REQ(!uc->irq, "no interrupt request after reset"); REQ(uc->stack_ops->count == 0, "no subroutine call is pending after reset");
    REQ(uc->ticks->get_ticks() <= 16 * uc->clock_per_cycle() && !uc->isr_ticks->get_ticks() && !uc->idle_ticks->get_ticks() && !uc->halt_ticks->get_ticks(), "clock counters restart at reset"); }
  chk(); sym_observe("pc", uc->PC); if (memory) { UL i = sym_int("any", 16); sym_assume(i < M.n); sym_assume(!dev[i]); REQ(M.simval(i) == M[i], "memory is kept over a reset"); }
}
