// Interrupts of 6502/65C02 (S_mos6502), 6800 (S_m6800), 6809 (S_m6809), STM8 (S_stm8), MCS-48 (S_i8048) against a model of the
// hardware descriptions: K instructions chosen among those that touch the interrupt system; requests, masks, priorities and registers symbolic.
#include "isa_common.h"
#if defined(S_mos6502)
#include "simmos6502cl.h"
#include "mos6502cl.h"
#include "../mos6502.src/irqcl.h"
#define CPU cl_mos6502
#elif defined(S_m6800)
#include "simm6800cl.h"
#include "m6800cl.h"
#include "irq68cl.h"
#define CPU cl_m6800
#undef A
#undef B
#undef D
#elif defined(S_m6809)
#include "glob.h"
#include "simm6809cl.h"
#include "m6809cl.h"
#include "../m6809.src/irqcl.h"
#define CPU cl_m6809
#undef A
#undef B
#undef D
#elif defined(S_stm8)
#include "simstm8cl.h"
#include "stm8cl.h"
#include "regsstm8.h"
#define CPU cl_stm8
#else
#include "glob.h"
#include "simi8048cl.h"
#include "i8048cl.h"
#include "timercl.h"
#include "../i8048.src/intscl.h"
#define CPU cl_i8020
#endif
#include "itsrccl.h"
#define K (sym_thorough() ? KT : KQ)
static CPU *z; static cl_address_space *R; static U8 mm[0x10000]; // model of the memory
static cl_hw *find_hw(enum hw_cath c, const char *n) { for (int i = 0; i < z->hws->count; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == c && !strcmp(h->id_string, n)) return h; } return 0; }
static void poke(U16 a, U8 v) { R->set(a, v); mm[a] = v; }
static cl_it_src *named(const char *n) { for (int i = 0; i < z->it_sources->count; i++) { cl_it_src *s = (cl_it_src *)z->it_sources->at(i); if (strstr(s->get_name(), n)) return s; } return 0; }
static void same(U16 sp, int from, int to) { for (int i = from; i <= to; i++) { U16 a = sp + i; REQ((U8)R->get(a) == mm[a], "stack contents"); } }
#if defined(S_mos6502) || defined(S_m6800) || defined(S_m6809)
#define KQ 3
#define KT 4
static cl_hw *irqhw; static cl_it_src *slave, *slave2; static bool nmip, irql, firql, sl; static int depth; static bool idle, waiting;
// one step of the environment: level of the request inputs, edges on NMI, flag of an ACIA wired to IRQ
static void env(int nmi, int irq, int firq, int kind) {
  irql = firql = sl = false;
  if (!(kind & 1)) irql = SYM1("irq"); irqhw->cfg_cell(irq)->write(irql);
  if (firq) { firql = SYM1("firq"); irqhw->cfg_cell(firq)->write(firql); }
  if (kind & 1) { sl = SYM1("acia"); slave->src_cell->set(sl ? slave->src_value : 0); slave->ie_cell->set(slave->ie_value); }
  int n = SYM1("nmi"); if (sym_fork(n)) { irqhw->cfg_cell(nmi)->write(1); nmip = true; }
}
static void vec(U16 a, U16 t, bool le) { poke(a, le ? t : t >> 8); poke(a + 1, le ? t >> 8 : t); }
#endif
#ifdef S_mos6502
static struct { U8 A, X, Y, S, P; U16 PC; } s;
static void push(U8 v) { mm[0x100 + s.S] = v; s.S--; } static U8 pop() { s.S++; return mm[0x100 + s.S]; }
static void enter(U16 v, U8 b) { push(s.PC >> 8); push(s.PC); push(s.P | b | 0x20); s.P |= 4; if (V) s.P &= ~8; s.PC = mm[v] | mm[v + 1] << 8; depth++; }
extern "C" void sym_setup(void) {
  z = (CPU *)mk_sim<cl_simmos6502>(cpus_mos6502, V == 0 ? "6502" : "65C02"); z->reset(); R = (cl_address_space *)z->rom; irqhw = find_hw(HW_INTERRUPT, "irq");
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  plain(R, 0, 0xffff); for (int a = 0; a < 0x10000; a++) poke(a, 0xea);
  vec(0xfffa, 0x3000, true); vec(0xfffe, 0x4000, true);
}
static const char *names[] = { "nop", "cli", "sei", "brk", "rti", "php" };
extern "C" long sym_ncases(void) { return 6; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s", names[c]); }
extern "C" void sym_test(long c) {
  static const U8 sps[] = { 0xff, 0x01, 0x80 };
  int f = sym_fork(SYM8("sp") & 3); if (f > 2) return; s.S = sps[f]; s.P = SYM8("p") & ~0x30; s.PC = 0x1000; nmip = 0; depth = 0;
  z->SP = s.S; z->CC = s.P; z->PC = 0x1000; z->state = stGO; U8 s0 = s.S;
  for (int k = 0; k < K; k++) {
    static const U8 op[] = { 0xea, 0x58, 0x78, 0x00, 0x40, 0x08, 0x28 };
    int w = k ? sym_fork(SYM8("inst") & 7) : c; if (w > 6 || (w == 4 && !depth) || w == 6) return;
    U16 pc = s.PC; poke(pc, op[w]); poke(pc + 1, 0xea); env(m65_nmi, m65_irq, 0, 0); bool brk = false; s.PC++;
    if (w == 1) s.P &= ~4; if (w == 2) s.P |= 4; if (w == 3) { s.PC++; brk = true; } if (w == 4) { s.P = pop() & ~0x30; U8 l = pop(); s.PC = sym_fork(l | pop() << 8); depth--; } if (w == 5) push(s.P | 0x30);
    if (w == 5 && depth) return; /* the handler keeps the stack balanced */
    z->do_inst();
    if (brk) enter(0xfffe, 0x10); else if (nmip) { nmip = false; enter(0xfffa, 0); } else if (sym_fork(irql && !(s.P & 4))) enter(0xfffe, 0);
    REQ(z->PC == s.PC, "program counter"); REQ(z->SP == s.S, "stack pointer"); REQ(z->CC == s.P, "flags"); REQ(z->state == stGO, "state");
    for (int i = 0; i < 14; i++) { U8 a = s0 - i; REQ((U8)R->get(0x100 + a) == mm[0x100 + a], "stack contents"); }
    sym_observe("pc", z->PC); sym_observe("p", z->CC);
  }
}
#endif
#ifdef S_m6800
static struct { U8 A, B, C; U16 X, S, PC; } s;
static void push(U8 v) { mm[s.S--] = v; } static U8 pop() { return mm[++s.S]; }
static void save() { push(s.PC); push(s.PC >> 8); push(s.X); push(s.X >> 8); push(s.A); push(s.B); push(s.C); }
static void enter(U16 v) { if (!waiting) save(); waiting = false; s.PC = mm[v] << 8 | mm[v + 1]; depth++; }
extern "C" void sym_setup(void) {
  z = (CPU *)mk_sim<cl_simm6800>(cpus_m6800, "6800"); z->reset(); R = (cl_address_space *)z->rom; irqhw = find_hw(HW_INTERRUPT, "irq"); slave = named("rx");
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  for (int a = 0; a < 0x10000; a++) if (a < 0x8000 || a > 0x80ff) poke(a, 0x01);
  vec(0xfffc, 0x3000, false); vec(0xfff8, 0x4000, false); vec(0xfffa, 0x5000, false);
}
static const char *names[] = { "nop", "cli", "sei", "swi", "rti", "wai" };
extern "C" long sym_ncases(void) { return 12; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s_%s", c & 1 ? "acia" : "lines", names[c / 2]); }
extern "C" void sym_test(long c) {
  int first = c / 2; c &= 1;
  s.S = 0x7f0; s.C = 0xc0 | SYM8("cc"); s.A = SYM8("a"); s.B = SYM8("b"); s.X = SYM16("x"); s.PC = 0x1000; nmip = waiting = idle = 0; depth = 0; U16 s0 = s.S;
  z->SP = s.S; z->CC.cc16.cc8.ccl = s.C; z->acc.DAB.a8.Ar = s.A; z->acc.DAB.a8.Br = s.B; z->IX = s.X; z->PC = s.PC; z->state = stGO; z->wai = false;
  for (int k = 0; k < K; k++) {
    static const U8 op[] = { 0x01, 0x0e, 0x0f, 0x3f, 0x3b, 0x3e };
    int w = idle ? 0 : k ? sym_fork(SYM8("inst") & 7) : first; if (w > 5 || (w == 4 && !depth)) return;
    bool swi = false; env(m68_nmi, m68_irq, 0, c);
    if (!idle) { poke(s.PC, op[w]); s.PC++;
      if (w == 1) s.C &= ~0x10; if (w == 2) s.C |= 0x10; if (w == 3) swi = true; if (w == 5) { save(); waiting = idle = true; }
      if (w == 4) { s.C = 0xc0 | pop(); s.B = pop(); s.A = pop(); U8 h = pop(); s.X = h << 8 | pop(); h = pop(); s.PC = sym_fork(h << 8 | pop()); depth--; } }
    z->do_inst();
    bool nm = false;
    if (swi) { enter(0xfffa); s.C |= 0x10; } else if (nmip) { nmip = false; enter(0xfffc); nm = true; idle = false; } else if (sym_fork((irql || sl) && !(s.C & 0x10))) { enter(0xfff8); s.C |= 0x10; idle = false; }
    REQ(z->PC == s.PC, "program counter"); REQ(z->SP == s.S, "stack pointer");
    if (nm) s.C = (s.C & ~0x10) | (z->CC.cc16.cc8.ccl & 0x10);
    REQ((z->CC.cc16.cc8.ccl & 0x3f) == (s.C & 0x3f), "condition codes"); REQ(z->state == (idle ? stIDLE : stGO), "waiting state"); REQ(z->acc.DAB.a8.Ar == s.A && z->acc.DAB.a8.Br == s.B && z->IX == s.X, "registers");
    for (int i = 0; i < 30; i++) { U16 a = s0 - i; REQ((((U8)R->get(a)) & 0x3f) == (mm[a] & 0x3f), "stack contents"); }
    sym_observe("pc", z->PC); sym_observe("cc", z->CC.cc16.cc8.ccl & 0x3f);
  }
}
#endif
#ifdef S_m6809
static struct { U8 A, B, DP, C; U16 X, Y, U, S, PC; } s; static bool armed;
static void push(U8 v) { mm[--s.S] = v; } static U8 pop() { return mm[s.S++]; }
static void push2(U16 v) { push(v); push(v >> 8); } static U16 pop2() { U8 h = pop(); return h << 8 | pop(); }
static void save(bool e) { push2(s.PC); if (e) { push2(s.U); push2(s.Y); push2(s.X); push(s.DP); push(s.B); push(s.A); } push(s.C); }
static void enter(U16 v, bool e, U8 mask) { if (!waiting) { s.C = e ? s.C | 0x80 : s.C & ~0x80; save(e); } waiting = idle = false; s.C |= mask; s.PC = mm[v] << 8 | mm[v + 1]; depth++; }
extern "C" void sym_setup(void) {
  z = (CPU *)mk_sim<cl_simm6809>(cpus_m6809, "M6809"); z->reset(); R = (cl_address_space *)z->rom; irqhw = find_hw(HW_INTERRUPT, "irq"); slave = named("rx");
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  for (int a = 0; a < 0x10000; a++) if (a < 0xc000 || a > 0xc0ff) poke(a, 0x12);
  vec(0xfffc, 0x3000, false); vec(0xfff8, 0x4000, false); vec(0xfff6, 0x5000, false);
}
static const char *names[] = { "nop", "andcc_i", "andcc_f", "andcc_fi", "rti", "cwai", "sync", "lds" };
extern "C" long sym_ncases(void) { return 24; }
extern "C" void sym_casename(long c, char *b, int k) { static const char *n[] = { "lines", "acia", "reset" }; snprintf(b, k, "%s_%s", n[c % 3], names[c / 3]); }
extern "C" void sym_test(long c) {
  int first = c / 3; c %= 3;
  s.S = 0x7f0; s.C = SYM8("cc"); s.A = SYM8("a"); s.B = SYM8("b"); s.DP = 0; s.X = SYM16("x"); s.Y = SYM16("y"); s.U = SYM16("u"); s.PC = 0x1000; nmip = waiting = idle = 0; depth = 0; armed = c != 2; U16 s0 = s.S;
  if (armed) { poke(0x0f00, 0x10); poke(0x0f01, 0xce); poke(0x0f02, 0x07); poke(0x0f03, 0xf0); z->PC = 0xf00; z->reg.CC = 0xff; z->state = stGO; z->do_inst(); } // LDS #$7f0
  z->reg.S = s.S; z->reg.CC = s.C; z->reg.acc.a8.rA = s.A; z->reg.acc.a8.rB = s.B; z->reg.DP = 0; z->reg.X = s.X; z->reg.Y = s.Y; z->reg.U = s.U; z->PC = s.PC; z->state = stGO; z->cwai = false;
  for (int k = 0; k < K; k++) {
    int w = idle ? 0 : k ? sym_fork(SYM8("inst") & 7) : first; if ((w == 4 && !depth) || (w == 7 && c != 2) || (k == 2 && w && w != 4 && !sym_thorough())) return; bool fresh = false;
    env(cpu_nmi, cpu_irq, cpu_firq, c); if (!armed && nmip && w == 7) return; // a request before the first load of S
    if (!idle) { U16 p = s.PC;
      switch (w) {
        case 0: poke(s.PC++, 0x12); break; // NOP
        case 1: case 2: case 3: { static const U8 m[] = { 0, 0xef, 0xbf, 0xaf }; poke(s.PC++, 0x1c); poke(s.PC++, m[w]); s.C &= m[w]; break; } // ANDCC
        case 4: { poke(s.PC++, 0x3b); s.C = pop(); if (sym_fork(s.C >> 7)) { s.A = pop(); s.B = pop(); s.DP = pop(); s.X = pop2(); s.Y = pop2(); s.U = pop2(); } s.PC = sym_fork(pop2()); depth--; break; } // RTI
        case 5: poke(s.PC++, 0x3c); poke(s.PC++, 0xef); s.C &= 0xef; s.C |= 0x80; save(true); waiting = idle = true; break; // CWAI #$ef
        case 6: poke(s.PC++, 0x13); idle = true; break; // SYNC
        case 7: poke(s.PC++, 0x10); poke(s.PC++, 0xce); poke(s.PC++, 0x07); poke(s.PC++, 0x80); s.S = 0x780; s.C = s.C & ~0x0e; if (depth) return; armed = true; s0 = 0x780; break; } // LDS
    }
    z->do_inst(); bool cw = waiting, fi = false;
    if (nmip && armed) { nmip = false; enter(0xfffc, true, 0x50); } else if (sym_fork(firql && !(s.C & 0x40))) { enter(0xfff6, false, 0x50); fi = true; } else if (sym_fork((irql || sl) && !(s.C & 0x10))) enter(0xfff8, true, 0x10);
    else if (idle && !waiting && sym_fork(irql || sl || firql)) idle = false; // SYNC
    REQ(z->PC == s.PC, "program counter"); REQ(z->reg.S == s.S, "stack pointer");
    if (cw && fi) s.C = (s.C & 0x7f) | (z->reg.CC & 0x80);
    REQ(z->reg.CC == s.C, "condition codes"); REQ(z->state == (idle ? stIDLE : stGO), "waiting state");
    REQ(z->reg.acc.a8.rA == s.A && z->reg.acc.a8.rB == s.B && z->reg.DP == s.DP && z->reg.X == s.X && z->reg.Y == s.Y && z->reg.U == s.U, "registers");
    for (int i = 1; i < 40; i++) { U16 a = s0 - i; REQ((U8)R->get(a) == mm[a], "stack contents"); }
    sym_observe("pc", z->PC); sym_observe("cc", z->reg.CC);
  }
}
#endif
#ifdef S_stm8
#define KQ 2
#define KT 3
static cl_it_src *src[64]; static int ns; static struct { U8 A, C; U16 X, Y, S; U32 PC; } s; static int depth;
static void push(U8 v) { mm[s.S--] = v; } static U8 pop() { return mm[++s.S]; }
static cl_memory_chip *chip;
static int lvl(int raw) { return raw == 3 ? 3 : raw == 1 ? 1 : raw == 0 ? 2 : 0; } // I1,I0
static int cur() { return lvl((s.C & BIT_I1 ? 2 : 0) | (s.C & BIT_I0 ? 1 : 0)); }
static void enter(U16 v, int raw) { push(s.PC); push(s.PC >> 8); push(s.PC >> 16); push(s.Y); push(s.Y >> 8); push(s.X); push(s.X >> 8); push(s.A); push(s.C);
  s.C = (s.C & ~(BIT_I1 | BIT_I0)) | (raw & 2 ? BIT_I1 : 0) | (raw & 1 ? BIT_I0 : 0); s.PC = v; depth++; }
#ifndef TYPE
#define TYPE "STM8S105"
#endif
extern "C" void sym_setup(void) {
  z = (CPU *)mk_sim<cl_simstm8>(cpus_stm8, TYPE); z->reset(); R = (cl_address_space *)z->rom;
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  chip = new cl_chip8("own_flash", 0x8000, 8); chip->init(); z->memchips->add(chip);
  cl_address_decoder *ad = new cl_address_decoder(z->rom, chip, 0x8000, 0xffff, 0); ad->init(); z->rom->decoders->add(ad); ad->activate(0); plain(R, 0x8000, 0xffff);
  for (int i = 0; i < z->it_sources->count; i++) { cl_it_src *x = (cl_it_src *)z->it_sources->at(i); x->ie_cell->set(0); x->src_cell->set(0);
    bool known = false; for (int j = 0; j < ns; j++) known |= src[j]->nuof == x->nuof; if (!known) src[ns++] = x; }
  for (int i = 0; i < ns; i++) for (int j = i + 1; j < ns; j++) if (src[j]->nuof < src[i]->nuof) { cl_it_src *t = src[i]; src[i] = src[j]; src[j] = t; }
}
extern "C" long sym_ncases(void) { return ns * (ns - 1) / 2; }
static int ca, cb; static void pair(long c) { ca = 0; cb = 1; while (c--) if (++cb == ns) cb = ++ca + 1; }
extern "C" void sym_casename(long c, char *b, int k) { pair(c); snprintf(b, k, "irq%d_irq%d", src[ca]->nuof, src[cb]->nuof); }
extern "C" void sym_test(long c) {
  pair(c); cl_it_src *q[2] = { src[ca], src[cb] }; int raw[2]; depth = 0;
  s.S = 0x3f0; s.C = SYM8("cc") & BIT_ALL; s.A = SYM8("a"); s.X = SYM16("x"); s.Y = SYM16("y"); s.PC = 0x9000; U16 s0 = s.S; sym_assume((s.C & (BIT_I1 | BIT_I0)) == BIT_I1 || depth == 0);
  z->regs.SP = s.S; z->regs.CC = s.C; z->regs.A = s.A; z->regs.X = s.X; z->regs.Y = s.Y; z->PC = s.PC; z->state = stGO;
  for (int i = 0; i < 2; i++) { raw[i] = sym_fork(SYM8("prio") & 3); if (raw[i] == 2) return; }
  for (int i = 0; i < 2; i++) { int n = q[i]->nuof; cl_memory_cell *sp = R->get_cell(0x7f70 + n / 4); sp->write((sp->get() & ~(3 << n % 4 * 2)) | raw[i] << n % 4 * 2); }
  for (int k = 0; k < K; k++) {
    bool p[2]; static const U8 op[] = { 0x9d, 0x9b, 0x9a, 0x80, 0x83 };
    int w = sym_fork(SYM8("inst") & 7); if (w > 4 || (w == 3 && !depth) || (k && !sym_thorough() && w != 3 && w)) return;
    for (int i = 0; i < 2; i++) { q[i]->ie_cell->set(q[i]->ie_cell->get() & ~q[i]->ie_mask); q[i]->src_cell->set(q[i]->src_cell->get() & ~q[i]->src_mask); }
    for (int i = 0; i < 2; i++) { int e = k == 0 ? 1 : SYM1("enable"), r = k == 0 ? SYM1("request") : 1; p[i] = e && r; if (e) q[i]->ie_cell->set(q[i]->ie_cell->get() | q[i]->ie_mask); if (r) q[i]->src_cell->set(q[i]->src_cell->get() | q[i]->src_mask); }
    chip->set(s.PC - 0x8000, op[w]); chip->set(s.PC - 0x7fff, 0x9d); s.PC++;
    if (w == 1) s.C |= BIT_I1 | BIT_I0; if (w == 2) s.C = (s.C | BIT_I1) & ~BIT_I0; if (w == 4) enter(0x8004, 3);
    if (w == 3) { s.C = pop(); s.A = pop(); U8 h = pop(); s.X = h << 8 | pop(); h = pop(); s.Y = h << 8 | pop(); U8 e = pop(); h = pop(); s.PC = sym_fork(e << 16 | h << 8 | pop()); depth--; }
    z->do_inst();
    int best = -1; for (int i = 0; i < 2; i++) if (sym_fork(p[i] && lvl(raw[i]) > cur())) if (best < 0 || lvl(raw[i]) > lvl(raw[best])) best = i;
    if (best >= 0) enter(0x8008 + 4 * q[best]->nuof, raw[best]);
    REQ(z->PC == s.PC, "program counter"); REQ(z->regs.SP == s.S, "stack pointer"); REQ(z->regs.CC == s.C, "condition codes");
    REQ(z->regs.A == s.A && z->regs.X == s.X && z->regs.Y == s.Y, "registers");
    for (int i = 0; i < 9 * (k + 2); i++) { U16 a = s0 - i; REQ((U8)R->get(a) == mm[a] || a <= s.S, "stack contents"); }
    sym_observe("pc", z->PC); sym_observe("cc", z->regs.CC);
  }
}
#endif
#ifdef S_i8048
#define KQ 3
#define KT 4
static struct { U8 psw, mb; U16 PC; } s; static bool isr, ene, tie, treq, low;
static void enter(U16 v) { U8 b = 8 + 2 * (s.psw & 7); mm[b] = s.PC; mm[b + 1] = (s.PC >> 8 & 15) | (s.psw & 0xf0); s.psw = (s.psw & 0xf8) | ((s.psw + 1) & 7); s.PC = v; isr = true; }
static const char *names[] = { "nop", "en_i", "dis_i", "en_tcnti", "dis_tcnti", "retr", "sel_mb1", "jmp" };
static const U8 op[] = { 0x00, 0x05, 0x15, 0x25, 0x35, 0x93, 0xf5, 0x44 };
extern "C" void sym_setup(void) {
  z = (CPU *)mk_sim<cl_simi8048>(cpus_i8048, "I8050"); z->reset(); R = z->rom; sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  for (int a = 0; a < 0x1000; a++) R->set(a, 0);
}
extern "C" long sym_ncases(void) { return 8; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s", names[c]); }
extern "C" void sym_test(long c) {
  cl_i8020_cpu *h = (cl_i8020_cpu *)z->cpu; int sp = sym_fork(SYM8("sp") & 3); sp = sp == 3 ? 7 : sp;
  s.psw = (SYM8("psw") & 0xe0) | 8 | sp; s.mb = sym_fork(SYM1("mb")); s.PC = 0x123; int depth = 0, jumps = 0;
  isr = false; ene = SYM1("ext_enabled"); tie = SYM1("timer_enabled"); treq = false;
  for (int i = 8; i < 24; i++) { mm[i] = 0x55; z->iram->set(i, 0x55); }
  z->PC = s.PC; (*z->cpsw).write(s.psw); z->mb = s.mb; z->in_isr = false; z->state = stGO; z->ints->ene = ene; z->timer->int_enabled = tie; z->timer->int_request = 0; z->timer->mode = tm_stop; z->timer->overflow_flag = 0;
  for (int k = 0; k < K; k++) {
    int w = k ? sym_fork(SYM8("inst") & 7) : c; if ((w == 5 && !depth) || (w == 6 && k)) return;
    low = SYM1("int_low"); h->cpins.set((h->cpins.get() & ~ipm_int) | (low ? 0 : ipm_int));
    if (sym_fork(SYM1("overflow"))) { z->timer->do_overflow(); if (tie) treq = true; }
    R->set(s.PC, op[w]); U16 p0 = s.PC; s.PC = (s.PC & 0x800) | ((s.PC + 1) & 0x7ff);
    switch (w) { case 1: ene = true; break; case 2: ene = false; break; case 3: tie = true; break; case 4: tie = treq = false; break; case 6: s.mb = 1; break;
      case 5: { isr = false; depth--; s.psw = (s.psw & 0xf8) | ((s.psw - 1) & 7); U8 b = 8 + 2 * (s.psw & 7); s.PC = sym_fork(mm[b] | (mm[b + 1] & 15) << 8); s.psw = (s.psw & 15) | (mm[b + 1] & 0xf0); break; }
      case 7: R->set(s.PC, 0x40 + k); s.PC = 0x240 + k + (s.mb && !isr ? 0x800 : 0); break; }
    z->do_inst();
    if (!isr && sym_fork(ene && low)) { enter(3); depth++; } else if (!isr && sym_fork(tie && treq)) { treq = false; enter(7); depth++; }
    REQ(z->PC == s.PC, "program counter"); REQ(z->psw == s.psw, "program status word"); REQ(z->in_isr == isr, "interrupt service in progress"); REQ(z->ints->ene == ene, "external interrupt enable"); REQ((bool)z->timer->int_enabled == tie, "timer interrupt enable");
    REQ((bool)z->timer->int_request == treq, "timer interrupt request");
    for (int i = 8; i < 24; i++) REQ((U8)z->iram->get(i) == mm[i], "stack contents");
    sym_observe("pc", z->PC); sym_observe("psw", z->psw);
    R->set(p0, 0);
  }
}
#endif
