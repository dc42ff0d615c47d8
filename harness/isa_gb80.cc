// GB80 / LR35902 (SM83): every instruction against a model of the architecture.
#include "isa_common.h"
#include "glob.h"
#include "simz80cl.h"
#include "gb80cl.h"
#ifndef V
#define V 0
#endif
static cl_gb80 *z; static RefMem<U8> M;
enum { fZ = 0x80, fN = 0x40, fH = 0x20, fC = 0x10 };
struct St { U8 A, F, B, C, D, E, H, L; U16 SP, PC; int ime; };
static St s; static int halted;
static U8 rd(U16 a) { return M[a]; }
static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd16(U16 a) { return rd(a) | rd((U16)(a + 1)) << 8; }
static void wr16(U16 a, U16 v) { wr(a, v); wr((U16)(a + 1), v >> 8); }
static U8 f1() { U8 v = rd(s.PC); s.PC++; return v; }
static U16 f2() { U16 v = f1(); v |= f1() << 8; return v; }
static void push(U16 v) { s.SP -= 2; wr16(s.SP, v); }
static U16 pop() { U16 v = rd16(s.SP); s.SP += 2; return v; }
static U16 HL() { return s.H << 8 | s.L; } static void sHL(U16 v) { s.H = v >> 8; s.L = v; }
static U8 rg(int i) { switch (i) { case 0: return s.B; case 1: return s.C; case 2: return s.D; case 3: return s.E; case 4: return s.H; case 5: return s.L; case 6: return rd(HL()); default: return s.A; } }
static void sr(int i, U8 v) { switch (i) { case 0: s.B = v; break; case 1: s.C = v; break; case 2: s.D = v; break; case 3: s.E = v; break; case 4: s.H = v; break; case 5: s.L = v; break; case 6: wr(HL(), v); break; default: s.A = v; } }
static U16 rp(int i) { return i == 0 ? s.B << 8 | s.C : i == 1 ? s.D << 8 | s.E : i == 2 ? HL() : s.SP; }
static void srp(int i, U16 v) { if (i == 0) s.B = v >> 8, s.C = v; else if (i == 1) s.D = v >> 8, s.E = v; else if (i == 2) sHL(v); else s.SP = v; }
static bool cc(int y) { switch (y & 3) { case 0: return !(s.F & fZ); case 1: return s.F & fZ; case 2: return !(s.F & fC); default: return s.F & fC; } }
static U8 add(U8 a, U8 b, int c) { unsigned r = a + b + c; s.F = ((U8)r ? 0 : fZ) | ((a & 15) + (b & 15) + c > 15 ? fH : 0) | (r > 255 ? fC : 0); return r; }
static U8 sub(U8 a, U8 b, int c) { int r = a - b - c; s.F = fN | ((U8)r ? 0 : fZ) | ((a & 15) - (b & 15) - c < 0 ? fH : 0) | (r < 0 ? fC : 0); return r; }
static void alu(int y, U8 b) { int c = (s.F & fC) != 0; switch (y) { case 0: s.A = add(s.A, b, 0); break; case 1: s.A = add(s.A, b, c); break; case 2: s.A = sub(s.A, b, 0); break; case 3: s.A = sub(s.A, b, c); break;
  case 4: s.A &= b; s.F = (s.A ? 0 : fZ) | fH; break; case 5: s.A ^= b; s.F = s.A ? 0 : fZ; break; case 6: s.A |= b; s.F = s.A ? 0 : fZ; break; default: sub(s.A, b, 0); } }
static U8 rot(int y, U8 v) { int c = (s.F & fC) != 0, nc; U8 r; switch (y) { case 0: nc = v >> 7; r = v << 1 | nc; break; case 1: nc = v & 1; r = v >> 1 | nc << 7; break; case 2: nc = v >> 7; r = v << 1 | c; break; case 3: nc = v & 1; r = v >> 1 | c << 7; break;
  case 4: nc = v >> 7; r = v << 1; break; case 5: nc = v & 1; r = v >> 1 | (v & 0x80); break; case 6: nc = 0; r = v >> 4 | v << 4; break; default: nc = v & 1; r = v >> 1; } s.F = (r ? 0 : fZ) | (nc ? fC : 0); return r; }
static U16 spd() { U8 d = f1(); U16 r = s.SP + (signed char)d; s.F = ((s.SP & 15) + (d & 15) > 15 ? fH : 0) | ((s.SP & 255) + d > 255 ? fC : 0); return r; }
static void step() {
  halted = 0; int op = f1(), x = op >> 6, y = (op >> 3) & 7, r = op & 7, p = y >> 1, q = y & 1;
  if (op == 0xcb) { int o = f1(); x = o >> 6, y = (o >> 3) & 7, r = o & 7; U8 v = rg(r); if (x == 0) { v = rot(y, v); sr(r, v); } else if (x == 1) s.F = (s.F & fC) | fH | (v >> y & 1 ? 0 : fZ); else sr(r, x == 2 ? v & ~(1 << y) : v | 1 << y); return; }
  if (x == 1) { if (op == 0x76) halted = 1; else sr(y, rg(r)); return; }
  if (x == 2) { alu(y, rg(r)); return; }
  if (x == 0) switch (r) {
    case 0: if (y == 0) return; if (y == 1) { wr16(f2(), s.SP); return; } { signed char e = f1(); if (y == 3 || cc(y)) s.PC += e; } return;
    case 1: if (!q) { srp(p, f2()); return; } { U32 a = HL(), b = rp(p); s.F = (s.F & fZ) | ((a & 0xfff) + (b & 0xfff) > 0xfff ? fH : 0) | (a + b > 0xffff ? fC : 0); sHL(a + b); } return;
    case 2: { U16 a = p == 0 ? rp(0) : p == 1 ? rp(1) : HL(); if (q) s.A = rd(a); else wr(a, s.A); if (p == 2) sHL(a + 1); if (p == 3) sHL(a - 1); return; }
    case 3: srp(p, rp(p) + (q ? -1 : 1)); return;
    case 4: { U8 v = rg(y) + 1; sr(y, v); s.F = (s.F & fC) | (v ? 0 : fZ) | ((v & 15) == 0 ? fH : 0); return; }
    case 5: { U8 v = rg(y) - 1; sr(y, v); s.F = (s.F & fC) | fN | (v ? 0 : fZ) | ((v & 15) == 15 ? fH : 0); return; }
    case 6: { U8 v = f1(); sr(y, v); return; }
    default: switch (y) { case 0: case 1: case 2: case 3: s.A = rot(y, s.A); s.F &= fC; return;
      case 4: { U8 a = s.A, c = s.F & fC; if (!(s.F & fN)) { if (c || s.A > 0x99) { a += 0x60; c = fC; } if ((s.F & fH) || (s.A & 15) > 9) a += 6; } else { if (c) a -= 0x60; if (s.F & fH) a -= 6; } s.A = a; s.F = (s.F & fN) | c | (a ? 0 : fZ); return; }
      case 5: s.A = ~s.A; s.F |= fH | fN; return; case 6: s.F = (s.F & fZ) | fC; return; default: s.F = (s.F & fZ) | ((s.F & fC) ^ fC); return; } }
  switch (r) {
  case 0: if (y < 4) { if (cc(y)) s.PC = pop(); return; } if (y == 4) { wr(0xff00 + f1(), s.A); return; } if (y == 6) { s.A = rd(0xff00 + f1()); return; } if (y == 5) s.SP = spd(); else sHL(spd()); return;
  case 1: if (!q) { U16 v = pop(); if (p == 3) { s.A = v >> 8; s.F = v & 0xf0; } else srp(p, v); return; } if (p == 0) s.PC = pop(); else if (p == 1) { s.PC = pop(); s.ime = 1; } else if (p == 2) s.PC = HL(); else s.SP = HL(); return;
  case 2: { if (y == 4) { wr(0xff00 + s.C, s.A); return; } if (y == 6) { s.A = rd(0xff00 + s.C); return; } U16 a = f2(); if (y == 5) wr(a, s.A); else if (y == 7) s.A = rd(a); else if (cc(y)) s.PC = a; return; }
  case 3: if (y == 0) s.PC = f2(); else s.ime = y == 7; return;
  case 4: { U16 a = f2(); if (cc(y)) { push(s.PC); s.PC = a; } return; }
  case 5: if (!q) { push(p == 3 ? (U16)(s.A << 8 | s.F) : rp(p)); return; } { U16 a = f2(); push(s.PC); s.PC = a; return; }
  case 6: alu(y, f1()); return;
  default: push(s.PC); s.PC = y * 8; return; }
}
static int opc[600], n;
extern "C" void sym_setup(void) {
  z = (cl_gb80 *)mk_sim<cl_simz80>(cpus_z80, V ? "LR35902" : "GB80"); z->reset(); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_uc::stack_write");
  M.attach(chip_of(z->rom), "mem", 0x10000);
  for (int o = 0; o < 256; o++) { static const U8 no[] = { 0x10, 0xcb, 0xd3, 0xdb, 0xdd, 0xe3, 0xe4, 0xeb, 0xec, 0xed, 0xf4, 0xfc, 0xfd }; bool ok = true; for (U8 x : no) if (x == o) ok = false; if (ok) opc[n++] = o; }
  for (int o = 0; o < 256; o++) opc[n++] = 0xcb00 | o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "op_%02x", opc[c]); }
extern "C" void sym_test(long c) {
  M.sym(); U16 pc = SYM16("pc"); int o = opc[c];
  if (o > 0xff) { z->rom->set(pc, 0xcb); z->rom->set((U16)(pc + 1), o & 0xff); M[pc] = 0xcb; M[(U16)(pc + 1)] = o; } else { z->rom->set(pc, o); M[pc] = o; }
  s.A = SYM8("a"); s.F = SYM8("f") & 0xf0; s.B = SYM8("b"); s.C = SYM8("c"); s.D = SYM8("d"); s.E = SYM8("e"); s.H = SYM8("h"); s.L = SYM8("l"); s.SP = SYM16("sp"); s.ime = SYM1("ime"); s.PC = pc;
  z->PC = z->instPC = pc; z->regs.raf.A = s.A; z->regs.raf.F = s.F; z->regs.bc.h = s.B; z->regs.bc.l = s.C; z->regs.de.h = s.D; z->regs.de.l = s.E; z->regs.hl.h = s.H; z->regs.hl.l = s.L; z->regs.SP = s.SP; z->IFF1 = z->IFF2 = s.ime;
  step(); int res = z->exec_inst();
  REQ(res == (halted ? resHALT : resGO), "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->regs.SP == s.SP, "SP"); REQ(z->regs.raf.A == s.A, "A");
  U8 f = z->regs.raf.F ^ s.F; REQ(!(f & fZ), "flag Z"); REQ(!(f & fN), "flag N"); REQ(!(f & fH), "flag H"); REQ(!(f & fC), "flag C"); REQ(!(f & 15), "low bits of F");
  REQ(z->regs.BC == rp(0), "BC"); REQ(z->regs.DE == rp(1), "DE"); REQ(z->regs.HL == HL(), "HL"); REQ(z->IFF1 == (s.ime != 0), "interrupt enable");
  sym_observe("pc", z->PC); sym_observe("af", z->regs.AF); sym_observe("hl", z->regs.HL);
  M.same("memory");
}
