// Intel 8080 / 8085: every documented instruction against a model of the Intel manual (IN, OUT, EI, DI, RIM, SIM only for length and frame).
#include "isa_common.h"
#include "glob.h"
#include "simi8085cl.h"
#include "i8080cl.h"
#ifndef CPU85
#define CPU85 0
#endif
static cl_i8080 *z; static RefMem<U8> M;
enum { fS = 0x80, fZ = 0x40, fH = 0x10, fP = 4, fC = 1, fDOC = 0xd5 };
static struct { U8 A, F, B, C, D, E, H, L; U16 SP, PC; } s;
static U8 undefF; static int halted;
static U8 rd(U16 a) { return M[a]; } static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd16(U16 a) { return rd(a) | rd((U16)(a + 1)) << 8; } static void wr16(U16 a, U16 v) { wr(a, v); wr((U16)(a + 1), v >> 8); }
static U8 f1() { return rd(s.PC++); } static U16 f2() { U16 v = f1(); return v | f1() << 8; }
static void push(U16 v) { s.SP--; wr(s.SP, v >> 8); s.SP--; wr(s.SP, v); } static U16 pop() { U16 v = rd16(s.SP); s.SP += 2; return v; }
static U16 HL() { return s.H << 8 | s.L; } static void sHL(U16 v) { s.H = v >> 8; s.L = v; }
static U8 rg(int i) { switch (i) { case 0: return s.B; case 1: return s.C; case 2: return s.D; case 3: return s.E; case 4: return s.H; case 5: return s.L; case 6: return rd(HL()); default: return s.A; } }
static void sr(int i, U8 v) { switch (i) { case 0: s.B = v; break; case 1: s.C = v; break; case 2: s.D = v; break; case 3: s.E = v; break; case 4: s.H = v; break; case 5: s.L = v; break; case 6: wr(HL(), v); break; default: s.A = v; } }
static U16 rp(int i) { return i == 0 ? s.B << 8 | s.C : i == 1 ? s.D << 8 | s.E : i == 2 ? HL() : s.SP; }
static void srp(int i, U16 v) { if (i == 0) { s.B = v >> 8; s.C = v; } else if (i == 1) { s.D = v >> 8; s.E = v; } else if (i == 2) sHL(v); else s.SP = v; }
static U8 szp(U8 v) { return (v & 0x80 ? fS : 0) | (v == 0 ? fZ : 0) | (par8(v) ? fP : 0); }
static bool cc(int y) { bool r = y < 2 ? s.F & fZ : y < 4 ? s.F & fC : y < 6 ? s.F & fP : s.F & fS; return y & 1 ? r : !r; }
static U8 add(U8 a, U8 b, int c) { unsigned r = a + b + c; s.F = szp(r) | ((a & 15) + (b & 15) + c > 15 ? fH : 0) | (r > 255 ? fC : 0); return r; }
static U8 sub(U8 a, U8 b, int c) { U8 r = add(a, (U8)~b, 1 - c); s.F ^= fC; return r; }   /* AC is the carry out of bit 3 of the complement addition */
static void alu(int y, U8 b) { U8 a = s.A; switch (y) { case 0: s.A = add(a, b, 0); break; case 1: s.A = add(a, b, s.F & 1); break; case 2: s.A = sub(a, b, 0); break; case 3: s.A = sub(a, b, s.F & 1); break;
  case 4: s.A = a & b; s.F = szp(s.A) | fH; if (!CPU85) undefF = fH; break; case 5: s.A = a ^ b; s.F = szp(s.A); break; case 6: s.A = a | b; s.F = szp(s.A); break; default: sub(a, b, 0); } }
static bool documented(int o) { if (o == 0xdd || o == 0xed || o == 0xfd || o == 0xcb || o == 0xd9) return !CPU85; if (o == 0x08 || o == 0x10 || o == 0x18 || o == 0x28 || o == 0x38) return !CPU85; return true; }
static void step() {
  undefF = 0; halted = 0; int op = f1();
  if (!CPU85) { if (op == 0xcb) op = 0xc3; if (op == 0xd9) op = 0xc9; if (op == 0xdd || op == 0xed || op == 0xfd) op = 0xcd; }
  int x = op >> 6, y = (op >> 3) & 7, r = op & 7, p = y >> 1, q = y & 1;
  if (x == 1) { if (op == 0x76) { halted = 1; return; } sr(y, rg(r)); return; }
  if (x == 2) { alu(y, rg(r)); return; }
  if (x == 0) switch (r) {
    case 0: return;
    case 1: if (!q) srp(p, f2()); else { U32 v = HL() + rp(p); s.F = (s.F & ~fC) | (v > 0xffff ? fC : 0); sHL(v); } return;
    case 2: switch (y) { case 0: wr(rp(0), s.A); return; case 1: s.A = rd(rp(0)); return; case 2: wr(rp(1), s.A); return; case 3: s.A = rd(rp(1)); return; case 4: wr16(f2(), HL()); return; case 5: sHL(rd16(f2())); return; case 6: wr(f2(), s.A); return; default: s.A = rd(f2()); return; }
    case 3: srp(p, rp(p) + (q ? -1 : 1)); return;
    case 4: { U8 c = s.F & fC, v = add(rg(y), 1, 0); s.F = (s.F & ~fC) | c; sr(y, v); return; }
    case 5: { U8 c = s.F & fC, v = sub(rg(y), 1, 0); s.F = (s.F & ~fC) | c; sr(y, v); return; }
    case 6: sr(y, f1()); return;
    default: { U8 a = s.A, c = s.F & fC; switch (y) { case 0: s.A = a << 1 | a >> 7; s.F = (s.F & ~fC) | a >> 7; return; case 1: s.A = a >> 1 | a << 7; s.F = (s.F & ~fC) | (a & 1); return; case 2: s.A = a << 1 | c; s.F = (s.F & ~fC) | a >> 7; return; case 3: s.A = a >> 1 | c << 7; s.F = (s.F & ~fC) | (a & 1); return;
      case 4: { U8 d = 0; if ((s.F & fH) || (a & 15) > 9) d = 6; if (c || a > 0x99) { d |= 0x60; c = fC; } s.A = add(a, d, 0); s.F = (s.F & ~fC) | c; return; }
      case 5: s.A = ~a; return; case 6: s.F |= fC; return; default: s.F ^= fC; return; } } }
  switch (r) {
  case 0: if (cc(y)) s.PC = pop(); return;
  case 1: if (!q) { U16 v = pop(); if (p == 3) { s.A = v >> 8; s.F = v; } else srp(p, v); return; } if (p == 0) { s.PC = pop(); return; } if (p == 2) { s.PC = HL(); return; } s.SP = HL(); return;
  case 2: { U16 a = f2(); if (cc(y)) s.PC = a; return; }
  case 3: switch (y) { case 0: s.PC = f2(); return; case 2: f1(); return; case 3: f1(); undefF |= 0x80; return; case 4: { U16 t = rd16(s.SP); wr16(s.SP, HL()); sHL(t); return; } case 5: { U16 t = rp(1); srp(1, HL()); sHL(t); return; } default: return; }
  case 4: { U16 a = f2(); if (cc(y)) { push(s.PC); s.PC = a; } return; }
  case 5: if (!q) { push(p == 3 ? (U16)(s.A << 8 | s.F) : rp(p)); return; } { U16 a = f2(); push(s.PC); s.PC = a; return; }
  case 6: alu(y, f1()); return;
  default: push(s.PC); s.PC = y * 8; return; }
}
static int ops[256], n;
extern "C" void sym_setup(void) {
  z = (cl_i8080 *)mk_sim<cl_simi8085>(cpus_i8085, CPU85 ? "I8085" : "I8080"); z->reset();
  sym_stub("cl_memory::err_inv_addr");
  M.attach(chip_of(z->rom), "mem", 0x10000);
  for (int o = 0; o < 256; o++) if (documented(o)) ops[n++] = o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U16 pc = SYM16("pc"); z->rom->set(pc, o); M[pc] = o; U8 inv = CPU85 ? 0 : 2;
  s.A = SYM8("a"); s.F = (SYM8("f") & fDOC) | inv; s.B = SYM8("b"); s.C = SYM8("c"); s.D = SYM8("d"); s.E = SYM8("e"); s.H = SYM8("h"); s.L = SYM8("l"); s.SP = SYM16("sp"); s.PC = pc;
  z->PC = z->instPC = pc; z->rpAF.r.A = s.A; z->rpAF.r.F = s.F; z->rpBC.r.B = s.B; z->rpBC.r.C = s.C; z->rpDE.r.D = s.D; z->rpDE.r.E = s.E; z->rpHL.r.H = s.H; z->rpHL.r.L = s.L; z->rSP = s.SP;
  if ((o & 0xcf) == 0xc5) ;
  step(); bool in = o == 0xdb || (CPU85 && o == 0x20);
  int res = z->exec_inst();
  REQ(res == (halted ? resHALT : resGO), "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->rSP == s.SP, "SP"); if (!in) REQ(z->rpAF.r.A == s.A, "A");
  U8 m = fDOC & ~undefF, f = z->rpAF.r.F ^ s.F;
  REQ(!(f & m & fS), "flag S"); REQ(!(f & m & fZ), "flag Z"); REQ(!(f & m & fH), "flag AC"); REQ(!(f & m & fP), "flag P"); REQ(!(f & m & fC), "flag CY");
  if (!CPU85) REQ((z->rpAF.r.F & 0x2a) == 2, "fixed bits of the flag byte");
  REQ(z->rpBC.BC == rp(0), "BC"); REQ(z->rpDE.DE == rp(1), "DE"); REQ(z->rpHL.HL == HL(), "HL");
  sym_observe("pc", z->PC); sym_observe("af", z->rpAF.AF); sym_observe("hl", z->rpHL.HL); sym_observe("sp", z->rSP);
  M.same("memory");
}
