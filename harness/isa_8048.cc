// MCS-48 family (8050, UPI-42, 8022, 8021): every instruction against a model of the architecture.
#include "isa_common.h"
#include "glob.h"
#include "simi8048cl.h"
#include "i8048cl.h"
#include "i8041cl.h"
#ifndef V
#define V 0
#endif
static const char *types[] = { "I8050", "I8042", "I8022", "I8021" };
static const UL romsz[] = { 4096, 2048, 2048, 1024 }, ramsz[] = { 256, 128, 64, 64 };
static cl_i8020 *u; static RefMem<U8> M, R, X;
enum { C = 0x80, AC = 0x40, F0 = 0x20, BS = 0x10 };
static const bool b48 = V == 0, b41 = V == 1, b22 = V == 2, full = V < 2;
struct St { U16 PC; U8 A, psw, F1, mb, isr, ene, tmode, tmr, tflag, tie, treq, tov, t0, t1, intp, odr[3], pin[3], busi, buso, xo[4], xi[4], din, dout, dst, enf; };
static St s; static int cyc; static bool p2low, busany, known;
static U16 inc(U16 a) { return (a & 0x800) | ((a + 1) & 0x7ff); }
static U8 fet() { U8 v = R[s.PC]; s.PC = inc(s.PC); return v; }
static U8 ra(int i) { return ((s.psw & BS) && full ? 24 : 0) + i; }
static U8 flg() { return s.enf ? 0xff & ~(s.dst & 1 ? 0 : 0x10) & ~(s.dst & 2 ? 0x20 : 0) : 0xff; }
static U8 lat(int p) { U8 v = s.odr[p] & s.pin[p]; if (p == 2) v &= flg(); return v; }
static void push() { U8 b = 8 + 2 * (s.psw & 7); M[b] = s.PC; M[b + 1] = (s.PC >> 8 & 15) | (full ? s.psw & 0xf0 : 0); s.psw = (s.psw & 0xf8) | ((s.psw + 1) & 7); }
static void pop(bool f) { s.psw = (s.psw & 0xf8) | ((s.psw - 1) & 7); U8 b = 8 + 2 * (s.psw & 7); s.PC = M[b] | (M[b + 1] & 15) << 8; if (f) s.psw = (s.psw & 15) | (M[b + 1] & 0xf0); }
static void add(U8 v, int c) { unsigned r = s.A + v + c; s.psw = (s.psw & 0x3f) | (r > 255 ? C : 0) | ((s.A & 15) + (v & 15) + c > 15 ? AC : 0); s.A = r; }
static void jcc(bool c) { U16 pg = s.PC & 0xf00; U8 a = fet(); if (c) s.PC = pg | a; }
static void step() {
  p2low = busany = false; known = true; cyc = 1;
  int op = fet(), lo = op & 15, hi = op >> 4; int c = s.psw >> 7;
  if (V == 3 && (op & 0x8f) == 0x84) { known = false; return; }
  if ((op & 0x1f) == 4) { cyc = 2; U8 a = fet(); s.PC = a | (op & 0xe0) << 3 | (s.mb && !s.isr ? 0x800 : 0); return; }
  if ((op & 0x1f) == 0x14) { cyc = 2; U8 a = fet(); push(); s.PC = a | (op & 0xe0) << 3 | (s.mb && !s.isr ? 0x800 : 0); return; }
  if ((op & 0x1f) == 0x12) { if (full) { cyc = 2; jcc(s.A >> (op >> 5) & 1); } else known = false; return; }
  if (lo >= 8 || lo < 2) {                                   /* register and indirect forms */
    U8 a = lo >= 8 ? ra(lo & 7) : M[ra(lo)], *p; bool ind = lo < 2;
    p = &M[a];
    switch (hi) {
    case 1: ++*p; return; case 2: { U8 t = *p; *p = s.A; s.A = t; return; } case 4: s.A |= *p; return; case 5: s.A &= *p; return;
    case 6: add(*p, 0); return; case 7: add(*p, c); return; case 10: *p = s.A; return; case 11: *p = fet(); cyc = 2; return;
    case 13: s.A ^= *p; return; case 15: s.A = *p; return;
    case 3: if (ind) { U8 t = *p; *p = (t & 0xf0) | (s.A & 15); s.A = (s.A & 0xf0) | (t & 15); return; } break;
    case 12: if (!ind && full) { --*p; return; } break;
    case 14: if (!ind) { U8 v = *p - 1; *p = v; cyc = 2; jcc(v != 0); return; } break;
    case 8: if (ind && b48) { cyc = 2; busany = true; s.A = X[a]; return; } break;
    case 9: if (ind && b48) { cyc = 2; busany = true; X[a] = s.A; return; } break; }
  }
  cyc = 2;
  switch (op) {
  case 0x08: if (b48) { s.A = s.busi; return; } if (!full) { s.A = lat(0); return; } break;
  case 0x09: s.A = lat(1); return; case 0x0a: s.A = lat(2); return;
  case 0x0c: case 0x0d: case 0x0e: case 0x0f: s.A = s.xi[op & 3]; p2low = true; return;
  case 0x39: s.odr[1] = s.A; return; case 0x3a: s.odr[2] = s.A; return;
  case 0x3c: case 0x3d: case 0x3e: case 0x3f: s.xo[op & 3] = s.A & 15; p2low = true; return;
  case 0x88: if (b48) { s.buso |= fet(); return; } break; case 0x98: if (b48) { s.buso &= fet(); return; } break;
  case 0x89: case 0x8a: if (full) { s.odr[op & 3] |= fet(); return; } break; case 0x99: case 0x9a: if (full) { s.odr[op & 3] &= fet(); return; } break;
  case 0x8c: case 0x8d: case 0x8e: case 0x8f: s.xo[op & 3] |= s.A & 15; p2low = true; return;
  case 0x9c: case 0x9d: case 0x9e: case 0x9f: s.xo[op & 3] &= s.A; p2low = true; return;
  case 0x02: if (b48) { s.buso = s.A; return; } break;
  case 0x90: if (!full) { s.odr[0] = s.A; return; } break;
  case 0x03: add(fet(), 0); return; case 0x13: add(fet(), c); return; case 0x23: s.A = fet(); return; case 0x43: s.A |= fet(); return; case 0x53: s.A &= fet(); return; case 0xd3: s.A ^= fet(); return;
  case 0x16: jcc(s.tflag); s.tflag = 0; return;
  case 0x26: if (V < 3) { jcc(!s.t0); return; } break; case 0x36: if (V < 3) { jcc(s.t0); return; } break; case 0x46: jcc(!s.t1); return; case 0x56: jcc(s.t1); return;
  case 0x76: if (full) { jcc(s.F1); return; } break; case 0xb6: if (full) { jcc(s.psw & F0); return; } break;
  case 0x86: if (b48) { jcc(!s.intp); return; } if (b41) { jcc(s.dst & 1); return; } break; case 0xd6: if (b41) { jcc(!(s.dst & 2)); return; } break;
  case 0x96: jcc(s.A); return; case 0xc6: jcc(!s.A); return; case 0xe6: jcc(!c); return; case 0xf6: jcc(c); return;
  case 0x83: pop(false); return; case 0x93: if (full) { pop(true); s.isr = 0; return; } if (b22) { pop(false); s.isr = 0; return; } break;
  case 0xa3: s.A = R[(s.PC & 0xf00) | s.A]; return; case 0xe3: if (full) { s.A = R[0x300 | s.A]; return; } break; case 0xb3: s.PC = (s.PC & 0xf00) | R[(s.PC & 0xf00) | s.A]; return; }
  cyc = 1;
  switch (op) {
  case 0x00: return; case 0x07: s.A--; return; case 0x17: s.A++; return; case 0x27: s.A = 0; return; case 0x37: s.A = ~s.A; return; case 0x47: s.A = s.A << 4 | s.A >> 4; return;
  case 0x57: { unsigned a = s.A; if ((a & 15) > 9 || (s.psw & AC)) a += 6; if (a > 0xff) c = 1; a &= 0xff; if (a > 0x9f || c) a += 0x60, c = 1; s.A = a; s.psw = (s.psw & 0x7f) | (c ? C : 0); return; }
  case 0x67: { U8 b = s.A & 1; s.A = s.A >> 1 | c << 7; s.psw = (s.psw & 0x7f) | (b ? C : 0); return; } case 0x77: s.A = s.A >> 1 | s.A << 7; return;
  case 0xf7: { U8 b = s.A >> 7; s.A = s.A << 1 | c; s.psw = (s.psw & 0x7f) | (b ? C : 0); return; } case 0xe7: s.A = s.A << 1 | s.A >> 7; return;
  case 0x97: s.psw &= ~C; return; case 0xa7: s.psw ^= C; return;
  case 0x42: s.A = s.tmr; return; case 0x62: s.tmr = s.A; return; case 0x45: s.tmode = tm_counter; return; case 0x55: s.tmode = tm_timer; return; case 0x65: s.tmode = tm_stop; return;
  case 0x25: if (V < 3) { s.tie = 1; return; } break; case 0x35: if (V < 3) { s.tie = 0; s.treq = 0; return; } break; case 0x05: if (V < 3) { s.ene = 1; return; } break; case 0x15: if (V < 3) { s.ene = 0; return; } break;
  case 0x75: if (b48) return; break; case 0xe5: if (b48) { s.mb = 0; return; } if (b41) return; break; case 0xf5: if (b48) { s.mb = 1; return; } if (b41) { s.enf = 1; return; } break;
  case 0x85: if (full) { s.psw &= ~F0; return; } break; case 0x95: if (full) { s.psw ^= F0; return; } break; case 0xa5: if (full) { s.F1 = 0; return; } break; case 0xb5: if (full) { s.F1 = !s.F1; return; } break;
  case 0xc5: if (full) { s.psw &= ~BS; return; } break; case 0xd5: if (full) { s.psw |= BS; return; } break;
  case 0xc7: if (full) { s.A = s.psw; return; } break; case 0xd7: if (full) { s.psw = s.A | 8; return; } break;
  case 0x02: if (b41) { s.dout = s.A; s.dst |= 1; return; } break; case 0x22: if (b41) { s.A = s.din; s.dst &= ~2; return; } break; case 0x90: if (b41) { s.dst = (s.dst & 15) | (s.A & 0xf0); return; } break; }
  known = false;
}
static int opc[260], n;
extern "C" void sym_setup(void) {
  u = (cl_i8020 *)mk_sim<cl_simi8048>(cpus_i8048, types[V]); u->reset(); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_uc::stack_write");
  M.attach(u->iram_chip, "iram", ramsz[V]); R.attach(u->rom_chip, "rom", romsz[V]); X.attach(u->xram_chip, "xram", 256);
  // which opcodes exist is decided by the model
  memset(M.m, 0, M.n); memset(X.m, 0, X.n);
  for (int o = 0; o < 256; o++) { memset(&s, 0, sizeof s); memset(R.m, 0, R.n); R[0] = o; step(); if (known) opc[n++] = o; }
  if (b41) for (int o = 256; o < 259; o++) opc[n++] = o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "op_%02x", opc[c]); }
extern "C" void sym_test(long c) {
  int o = opc[c]; cl_hw *t = u->timer;
  M.sym(); R.sym(); X.sym(); U16 pc = SYM16("pc"); sym_assume(pc < romsz[V] - (romsz[V] & 0x7ff ? 2 : 0));
  if (o < 256) { u->rom_chip->set(pc, o); R[pc] = o; }
  memset(&s, 0, sizeof s); s.PC = pc; s.A = SYM8("a"); s.psw = SYM8("psw") | 8; int bs = full ? sym_fork(SYM1("bank")) : 1; s.psw = (s.psw & ~BS) | (bs ? BS : 0);
  s.mb = b48 ? SYM1("mb") : 0; s.F1 = full ? SYM1("f1") : 0; s.isr = SYM1("in_isr");
  s.tmode = sym_int("tmode", 2); sym_assume(s.tmode < 3); s.tmr = SYM8("tmr"); s.tflag = SYM1("tflag"); s.tie = SYM1("tie"); s.treq = SYM1("treq"); s.tov = SYM1("tov");
  s.t0 = SYM1("t0"); s.t1 = SYM1("t1"); s.intp = SYM1("int");
  for (int i = 0; i < 3; i++) { char b[8] = "odr0", d[8] = "pin0"; b[3] += i; d[3] += i; U8 m = i == 2 && !full ? 15 : 255; s.odr[i] = SYM8(b) & m; s.pin[i] = SYM8(d) & m; }
  for (int i = 0; i < 4; i++) { char b[8] = "xo0", d[8] = "xi0"; b[2] += i; d[2] += i; s.xo[i] = SYM8(b) & 15; s.xi[i] = SYM8(d) & 15; }
  s.busi = SYM8("busin"); s.buso = SYM8("busout"); s.din = SYM8("dbbin"); s.dout = SYM8("dbbout"); s.dst = SYM8("dbbst"); s.ene = SYM1("ene");
  if (!full) s.odr[2] &= 15;
  // the same state in the simulator
  u->PC = u->instPC = pc; u->cPC.set(pc); u->cA.set(s.A); (*u->cpsw).write(s.psw); u->mb = s.mb; u->in_isr = s.isr;
  if (full) ((cl_i8048 *)u)->flagF1 = s.F1; if (u->ints) u->ints->ene = s.ene;
  u->timer->mode = (enum timer_modes)s.tmode; u->timer->tmr = s.tmr; u->timer->timer_flag = s.tflag; u->timer->int_enabled = s.tie; u->timer->int_request = s.treq; u->timer->overflow_flag = s.tov;
  cl_i8020_cpu *h = (cl_i8020_cpu *)u->cpu; h->ipins = (s.t0 ? ipm_t0 : 0) | (s.t1 ? ipm_t1 : 0) | (s.intp ? ipm_int : 0) | ipm_wr;
  cl_qport *pp[3] = { u->p0, u->p1, u->p2 };
  for (int i = full ? 1 : 0; i < 3; i++) { pp[i]->pcell->set(s.odr[i]); pp[i]->cfg_set(port_odr, s.odr[i]); pp[i]->cfg_set(port_pin, s.pin[i]); }
  s.enf = b41 ? SYM1("enflags") : 0; if (full) u->p2->flags41 = flg();
  cl_memory_cell *xc[4] = { u->pext->pcell4, u->pext->pcell5, u->pext->pcell6, u->pext->pcell7 };
  for (int i = 0; i < 4; i++) { xc[i]->set(s.xo[i]); u->pext->cfg_set(pext_odr4 + i, s.xo[i]); u->pext->cfg_set(pext_pin4 + i, s.xi[i]); }
  u->bus->cfg_set(tbus_in, s.busi); u->bus->cfg_set(tbus_out, s.buso);
  if (b41) { s.dst = (s.dst & ~12) | (s.psw & F0 ? 4 : 0) | (s.F1 ? 8 : 0); h->cfg_set(i8041cpu_in, s.din); h->cfg_set(i8041cpu_out, s.dout); h->cfg_set(i8041cpu_status, s.dst); h->cfg_set(i8041cpu_enflags, s.enf); u->p2->flags41 = flg(); }
  if (o > 255) {                                            /* the host writes the input buffer or reads the output buffer */
    U8 v = SYM8("host"); if (o == 258) { h->cfg_write(i8041cpu_obfclear, v); s.dst &= ~1; } else { h->cfg_write(o == 256 ? i8041cpu_in : i8041cpu_ctrl, v); s.din = v; s.F1 = o == 257; s.dst |= 2; }
    REQ(((cl_i8048 *)u)->flagF1 == s.F1, "F1 follows A0"); REQ(h->cfg_get(i8041cpu_in) == s.din && h->cfg_get(i8041cpu_out) == s.dout, "data buffers"); REQ((h->cfg_read(i8041cpu_status) & 0xf3) == (s.dst & 0xf3), "status register");
    REQ(u->p2->flags41 == flg(), "OBF and IBF on port 2"); return; }
  // indirect addresses: within the memory of the type
  if (((o & 15) < 2) && (o >> 4)) sym_assume(M[ra(o & 1)] < ramsz[V] || (o >> 4) == 8 || (o >> 4) == 9);
  step(); u->inst_ticks = 0;
  int res = u->exec_inst();
  REQ(res == resGO, "instruction recognised");
  REQ(u->PC == s.PC, "PC"); REQ(u->rA == s.A, "A"); REQ((u->psw & 0xc0) == (s.psw & 0xc0), "C and AC"); REQ((u->psw & 7) == (s.psw & 7), "stack pointer"); REQ((u->psw & 0x38) == (s.psw & 0x38) || !full, "F0 and bank select");
  REQ(u->inst_ticks == 5 * cyc, "machine cycles"); REQ(u->in_isr == (s.isr != 0), "in interrupt service");
  if (full) REQ(((cl_i8048 *)u)->flagF1 == s.F1, "F1"); if (b48) REQ(u->mb == s.mb, "memory bank"); if (u->ints) REQ(u->ints->ene == s.ene, "external interrupt enable");
  REQ(u->timer->mode == s.tmode, "timer mode"); REQ(u->timer->tmr == s.tmr, "T"); REQ(u->timer->timer_flag == s.tflag, "timer flag"); REQ(u->timer->int_enabled == s.tie, "timer interrupt enable"); REQ(u->timer->int_request == s.treq, "timer interrupt request");
  for (int i = full ? 1 : 0; i < 3; i++) { U8 m = i == 2 && p2low ? 0xf0 : i == 2 && !full ? 15 : 255; REQ((pp[i]->pcell->get() & m) == (s.odr[i] & m), "output latch of a port"); }
  for (int i = 0; i < 4; i++) REQ(xc[i]->get() == s.xo[i], "output latch of the port expander");
  if (b48 && !busany) REQ(u->bus->cfg_get(tbus_out) == s.buso, "bus latch");
  if (b41) { REQ(u->p2->flags41 == flg(), "OBF and IBF on port 2"); REQ(h->cfg_get(i8041cpu_out) == s.dout, "output buffer"); U8 st = h->cfg_read(i8041cpu_status); REQ((st & 0xf3) == (s.dst & 0xf3), "status register"); REQ(!(st & 4) == !(s.psw & F0) && !(st & 8) == !s.F1, "flags in the status register"); }
  sym_observe("pc", u->PC); sym_observe("a", u->rA); sym_observe("psw", u->psw);
  M.same("internal memory"); if (b48) X.same("external memory");
}
