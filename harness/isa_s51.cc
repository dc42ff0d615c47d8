// MCS-51 (8052): all 255 opcodes against a model of the Intel manual. Direct and bit addresses: internal RAM and the core registers (ACC, B, PSW, SP, DPL, DPH).
#include "isa_common.h"
#include "glob.h"
#include "sim51cl.h"
#include "uc51cl.h"
#include "uc52cl.h"
#include "regs51.h"
static cl_51core *z; static RefMem<U8> M, I, S, X;
static U16 pc; static bool cpuacc, skipAll; static int cyc;
#define sA S[ACC - 0x80]
#define sB S[SFR_B - 0x80]
#define sPSW S[PSW - 0x80]
#define sSP S[SP - 0x80]
#define sDPL S[DPL - 0x80]
#define sDPH S[DPH - 0x80]
static bool core(U8 d) { return d < 0x80 || d == ACC || d == SFR_B || d == PSW || d == SP || d == DPL || d == DPH; }
static U8 f1() { return M[pc++]; }
static U8 dir() { U8 d = f1(); sym_assume(core(d)); return d; }
static U8 gd(U8 d) { return d < 0x80 ? I[d] : S[d - 0x80]; }
static void par() { sPSW = (sPSW & 0xfe) | !par8(sA); }
static void sd(U8 d, U8 v) { if (d < 0x80) I[d] = v; else S[d - 0x80] = v; }
static U8 bitof() { U8 b = f1(); sym_assume(b < 0x80 || (b & 0xf8) == PSW || (b & 0xf8) == ACC || (b & 0xf8) == SFR_B); return b; }
static int gb(U8 b) { return (b < 0x80 ? I[0x20 + (b >> 3)] : S[(b & 0xf8) - 0x80]) >> (b & 7) & 1; }
static void sb(U8 b, int v) { U8 a = b < 0x80 ? 0x20 + (b >> 3) : (b & 0xf8) - 0x80; RefMem<U8> &m = b < 0x80 ? I : S; m[a] = (m[a] & ~(1 << (b & 7))) | (v << (b & 7)); }
static U8 &R(int n) { return I[(sPSW & 0x18) + n]; }
static int C() { return sPSW >> 7; } static void sC(int v) { sPSW = (sPSW & 0x7f) | (v ? 0x80 : 0); }
static void push(U8 v) { sSP++; I[sSP] = v; } static U8 pop() { U8 v = I[sSP]; sSP--; return v; }
static U16 DP() { return sDPH << 8 | sDPL; }
static void add(U8 b, int c) { U8 a = sA; unsigned r = a + b + c; sA = r; sPSW = (sPSW & 0x3b) | (r > 255 ? 0x80 : 0) | ((a & 15) + (b & 15) + c > 15 ? 0x40 : 0) | (((a ^ r) & (b ^ r) & 0x80) ? 4 : 0); }
static void subb(U8 b) { U8 a = sA; int c = C(), r = (int)a - b - c; sA = r; sPSW = (sPSW & 0x3b) | (r < 0 ? 0x80 : 0) | ((int)(a & 15) - (b & 15) - c < 0 ? 0x40 : 0) | (((a ^ b) & (a ^ r) & 0x80) ? 4 : 0); }
static void rel(U8 d) { pc += (signed char)d; }
static U8 src(int op, U8 *dp = 0) { int l = op & 15; if (l == 4) return f1(); if (l == 5) { U8 d = dir(); if (dp) *dp = d; return gd(d); } if (l < 8) return I[R(l & 1)]; return R(l & 7); }
static bool special(int op) { return (op & 15) < 4; }
static void step() {
  int op = f1(), h = op >> 4, l = op & 15; cyc = 1; U8 d, v;
  if (l == 1) { U8 lo = f1(); cyc = 2; U16 t = (pc & 0xf800) | (op >> 5) << 8 | lo; if (op & 0x10) { push(pc); push(pc >> 8); } pc = t; return; }
  if (l >= 4) switch (h) {
    case 0: case 1: { int k = h ? -1 : 1; if (l == 4) sA += k; else if (l == 5) { d = dir(); sd(d, gd(d) + k); } else if (l < 8) I[R(l & 1)] += k; else R(l & 7) += k; return; }
    case 2: add(src(op), 0); return; case 3: add(src(op), C()); return;
    case 4: sA |= src(op); return; case 5: sA &= src(op); return; case 6: sA ^= src(op); return;
    case 7: if (l == 4) sA = f1(); else if (l == 5) { d = dir(); sd(d, f1()); cyc = 2; } else if (l < 8) I[R(l & 1)] = f1(); else R(l & 7) = f1(); return;
    case 8: if (l == 4) { U8 a = sA, b = sB; sPSW &= 0x7b; if (b) { sA = a / b; sB = a % b; } else sPSW |= 4; cyc = 4; } else if (l == 5) { U8 s = dir(); d = dir(); sd(d, gd(s)); cyc = 2; } else { v = src(op); d = dir(); sd(d, v); cyc = 2; } return;
    case 9: subb(src(op)); return;
    case 0xa: if (l == 4) { unsigned r = sA * sB; sA = r; sB = r >> 8; sPSW = (sPSW & 0x7b) | (r > 255 ? 4 : 0); cyc = 4; } else if (l == 5) return; else if (l < 8) { v = gd(dir()); I[R(l & 1)] = v; cyc = 2; } else { v = gd(dir()); R(l & 7) = v; cyc = 2; } return;
    case 0xb: { U8 a, b; if (l == 4) { a = sA; b = f1(); } else if (l == 5) { a = sA; b = gd(dir()); } else if (l < 8) { a = I[R(l & 1)]; b = f1(); } else { a = R(l & 7); b = f1(); } U8 r = f1(); sC(a < b); if (a != b) rel(r); cyc = 2; return; }
    case 0xc: if (l == 4) sA = sA << 4 | sA >> 4; else if (l == 5) { d = dir(); v = gd(d); U8 a = sA; sA = v; sd(d, a); } else if (l < 8) { U8 i = R(l & 1); v = I[i]; I[i] = sA; sA = v; } else { v = R(l & 7); R(l & 7) = sA; sA = v; } return;
    case 0xd: if (l == 4) { int a = sA, c = C(); if ((a & 15) > 9 || (sPSW & 0x40)) { a += 6; if (a > 255) c = 1; } a &= 0xff; if (c || (a & 0xf0) > 0x90) { a += 0x60; if (a > 255) c = 1; } sA = a; sC(c); }
      else if (l == 5) { d = dir(); sym_assume(d != PSW); v = gd(d) - 1; sd(d, v); U8 r = f1(); if (v) rel(r); cyc = 2; } else if (l < 8) { U8 i = R(l & 1); v = I[i]; I[i] = (v & 0xf0) | (sA & 15); sA = (sA & 0xf0) | (v & 15); } else { v = --R(l & 7); U8 r = f1(); if (v) rel(r); cyc = 2; } return;
    case 0xe: if (l == 4) sA = 0; else sA = src(op); return;
    default: if (l == 4) sA = ~sA; else if (l == 5) sd(dir(), sA); else if (l < 8) I[R(l & 1)] = sA; else R(l & 7) = sA; return; }
  switch (op) {
  case 0x00: return;
  case 0x02: { U16 t = f1() << 8; t |= f1(); pc = t; cyc = 2; return; } case 0x12: { U16 t = f1() << 8; t |= f1(); push(pc); push(pc >> 8); pc = t; cyc = 2; return; }
  case 0x03: sA = sA >> 1 | sA << 7; return; case 0x13: { int c = C(); sC(sA & 1); sA = sA >> 1 | c << 7; return; } case 0x23: sA = sA << 1 | sA >> 7; return; case 0x33: { int c = C(); sC(sA & 0x80); sA = sA << 1 | c; return; }
  case 0x10: { U8 b = bitof(), r = f1(); if (gb(b)) { sb(b, 0); rel(r); } cyc = 2; return; } case 0x20: { U8 b = bitof(), r = f1(); if (gb(b)) rel(r); cyc = 2; return; } case 0x30: { U8 b = bitof(), r = f1(); if (!gb(b)) rel(r); cyc = 2; return; }
  case 0x22: case 0x32: { U16 t = pop() << 8; t |= pop(); pc = t; cyc = 2; return; }
  case 0x40: { U8 r = f1(); if (C()) rel(r); cyc = 2; return; } case 0x50: { U8 r = f1(); if (!C()) rel(r); cyc = 2; return; } case 0x60: { U8 r = f1(); if (!sA) rel(r); cyc = 2; return; } case 0x70: { U8 r = f1(); if (sA) rel(r); cyc = 2; return; }
  case 0x42: d = dir(); sd(d, gd(d) | sA); return; case 0x52: d = dir(); sd(d, gd(d) & sA); return; case 0x62: d = dir(); sd(d, gd(d) ^ sA); return;
  case 0x43: d = dir(); sd(d, gd(d) | f1()); cyc = 2; return; case 0x53: d = dir(); sd(d, gd(d) & f1()); cyc = 2; return; case 0x63: d = dir(); sd(d, gd(d) ^ f1()); cyc = 2; return;
  case 0x72: { int b = gb(bitof()); sC(C() | b); cyc = 2; return; } case 0x82: { int b = gb(bitof()); sC(C() & b); cyc = 2; return; } case 0xa0: { int b = gb(bitof()); sC(C() | !b); cyc = 2; return; } case 0xb0: { int b = gb(bitof()); sC(C() & !b); cyc = 2; return; }
  case 0x92: { U8 b = bitof(); sb(b, C()); cyc = 2; return; } case 0xa2: sC(gb(bitof())); return; case 0xb2: { U8 b = bitof(); sb(b, !gb(b)); return; } case 0xc2: sb(bitof(), 0); return; case 0xd2: sb(bitof(), 1); return;
  case 0xb3: sC(!C()); return; case 0xc3: sC(0); return; case 0xd3: sC(1); return;
  case 0x73: pc = DP() + sA; cyc = 2; return; case 0x80: { U8 r = f1(); rel(r); cyc = 2; return; }
  case 0x83: sA = M[(U16)(pc + sA)]; cyc = 2; return; case 0x93: sA = M[(U16)(DP() + sA)]; cyc = 2; return;
  case 0x90: sDPH = f1(); sDPL = f1(); cyc = 2; return; case 0xa3: { U16 t = DP() + 1; sDPH = t >> 8; sDPL = t; cyc = 2; return; }
  case 0xc0: d = dir(); sym_assume(d != SP); push(gd(d)); cyc = 2; return; case 0xd0: d = dir(); v = pop(); sd(d, v); cyc = 2; return;
  case 0xe0: sA = X[DP()]; cyc = 2; return; case 0xe2: case 0xe3: sA = X[S[0x20] << 8 | R(op & 1)]; cyc = 2; return;
  case 0xf0: X[DP()] = sA; cyc = 2; return; default: X[S[0x20] << 8 | R(op & 1)] = sA; cyc = 2; return; }
}
static int ops[256], n;
extern "C" void sym_setup(void) {
  z = (cl_51core *)mk_sim<cl_sim51>(cpus_51, "C52"); z->reset();
  sym_stub("cl_memory::err_inv_addr");
  M.attach(z->rom_chip, "rom", 0x10000); I.attach(z->iram_chip, "iram", 0x100); S.attach(z->sfr_chip, "sfr", 0x80); X.attach(z->xram_chip, "xram", 0x10000);
  for (int o = 0; o < 256; o++) if (o != 0xa5) ops[n++] = o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); I.sym(); S.sym(); X.sym(); int o = ops[c];
  pc = SYM16("pc"); z->rom->set(pc, o); M[pc] = o; z->PC = z->instPC = pc; z->inst_ticks = 0;
  int l = o & 15; bool usesR = l >= 6 || o == 0xe2 || o == 0xe3 || o == 0xf2 || o == 0xf3;
  if (!usesR && !sym_thorough()) sPSW = (sPSW & 0xe7) | 0x10;   /* instructions without register operand: start in bank 2 */
  par(); z->psw->write(sPSW);
  step(); par();
  int res = z->exec_inst();
  REQ(res == resGO, "instruction recognised"); REQ(z->PC == pc, "PC"); REQ(z->inst_ticks == cyc, "machine cycles");
  REQ(z->sfr_chip->get(ACC - 0x80) == sA, "A"); { U8 p = z->sfr_chip->get(PSW - 0x80); REQ((p & 1) == (sPSW & 1), "P"); REQ((p & 0xc4) == (sPSW & 0xc4), "C, AC, OV"); REQ((p & 0x3a) == (sPSW & 0x3a), "F0, RS, user flag"); sym_observe("psw", p); }
  REQ(z->sfr_chip->get(SP - 0x80) == sSP, "SP");
  sym_observe("pc", z->PC); sym_observe("a", z->sfr_chip->get(ACC - 0x80));
  S.same("special function registers"); I.same("internal RAM"); X.same("external RAM"); M.same("code memory");
  for (int i = 0; i < 8; i++) REQ(z->R[i]->get() == R(i), "register bank");
}
