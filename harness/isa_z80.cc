// Z80: every documented instruction (plus the IXH/IXL forms the simulator implements) against a model of the Zilog manual.
// V: 0 Z80, 1 Z180, 2 Z80N, 3 R800, 4 eZ80 in Z80 mode (1..4: ED page with the additional instructions, eZ80 DD and FD, too)
#ifndef V
#define V 0
#endif
#include "isa_common.h"
#include "glob.h"
#include "simz80cl.h"
#include "z80cl.h"
static cl_z80 *z; static RefMem<U8> M, OUT, IN;
enum { fS = 0x80, fZ = 0x40, fH = 0x10, fP = 4, fN = 2, fC = 1, fDOC = 0xd7 };
struct St { U8 A, F, B, C, D, E, H, L, A2, F2, I, R; U16 BC2, DE2, HL2, IX, IY, SP, PC; int iff1, iff2, im; };
static St s; static U8 undefF; static int halted, isIn; 
static U8 rd(U16 a) { return M[a]; }
static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd16(U16 a) { return rd(a) | rd((U16)(a + 1)) << 8; }
static void wr16(U16 a, U16 v) { wr(a, v); wr((U16)(a + 1), v >> 8); }
static U8 f1() { U8 v = rd(s.PC); s.PC++; return v; }
static U16 f2() { U16 v = f1(); v |= f1() << 8; return v; }
static void push(U16 v) { s.SP -= 2; wr16(s.SP, v); }
static U16 pop() { U16 v = rd16(s.SP); s.SP += 2; return v; }
static U16 BC() { return s.B << 8 | s.C; } static U16 DE() { return s.D << 8 | s.E; } static U16 HL() { return s.H << 8 | s.L; }
static void sBC(U16 v) { s.B = v >> 8; s.C = v; } static void sDE(U16 v) { s.D = v >> 8; s.E = v; } static void sHL(U16 v) { s.H = v >> 8; s.L = v; }
static int pfx; static U16 ea; static int haveEA;
static U16 *IXY() { return pfx == 0xdd ? &s.IX : &s.IY; }
static U16 HLX() { return pfx ? *IXY() : HL(); } static void sHLX(U16 v) { if (pfx) *IXY() = v; else sHL(v); }
static U16 addrHL() { if (!pfx) return HL(); if (!haveEA) { ea = *IXY() + (signed char)f1(); haveEA = 1; } return ea; }
static U8 rg(int i, bool mem) { switch (i) { case 0: return s.B; case 1: return s.C; case 2: return s.D; case 3: return s.E; case 4: return pfx && !mem ? *IXY() >> 8 : s.H; case 5: return pfx && !mem ? (U8)*IXY() : s.L; case 6: return rd(addrHL()); default: return s.A; } }
static void sr(int i, U8 v, bool mem) { switch (i) { case 0: s.B = v; break; case 1: s.C = v; break; case 2: s.D = v; break; case 3: s.E = v; break;
  case 4: if (pfx && !mem) *IXY() = (*IXY() & 0xff) | v << 8; else s.H = v; break; case 5: if (pfx && !mem) *IXY() = (*IXY() & 0xff00) | v; else s.L = v; break; case 6: wr(addrHL(), v); break; default: s.A = v; } }
static U16 rp(int i) { return i == 0 ? BC() : i == 1 ? DE() : i == 2 ? HLX() : s.SP; }
static void srp(int i, U16 v) { if (i == 0) sBC(v); else if (i == 1) sDE(v); else if (i == 2) sHLX(v); else s.SP = v; }
static U8 sz(U8 v) { return (v & 0x80 ? fS : 0) | (v == 0 ? fZ : 0); }
static U8 szp(U8 v) { return sz(v) | (par8(v) ? fP : 0); }
static bool cc(int y) { bool r = y < 2 ? s.F & fZ : y < 4 ? s.F & fC : y < 6 ? s.F & fP : s.F & fS; return y & 1 ? r : !r; }
static U8 addf(U8 a, U8 b, int c) { unsigned r = a + b + c; s.F = sz(r) | (((a & 15) + (b & 15) + c) > 15 ? fH : 0) | (r > 255 ? fC : 0) | (((a ^ r) & (b ^ r) & 0x80) ? fP : 0); return r; }
static U8 subf(U8 a, U8 b, int c) { int r = (int)a - b - c; s.F = fN | sz(r) | (((int)(a & 15) - (b & 15) - c) < 0 ? fH : 0) | (r < 0 ? fC : 0) | (((a ^ b) & (a ^ (U8)r) & 0x80) ? fP : 0); return r; }
static void alu(int y, U8 b) { U8 a = s.A; switch (y) { case 0: s.A = addf(a, b, 0); break; case 1: s.A = addf(a, b, s.F & 1); break; case 2: s.A = subf(a, b, 0); break; case 3: s.A = subf(a, b, s.F & 1); break;
  case 4: s.A = a & b; s.F = szp(s.A) | fH; break; case 5: s.A = a ^ b; s.F = szp(s.A); break; case 6: s.A = a | b; s.F = szp(s.A); break; default: subf(a, b, 0); } }
static U8 rot(int y, U8 v) { int c = s.F & 1, nc; U8 r; switch (y) { case 0: nc = v >> 7; r = v << 1 | nc; break; case 1: nc = v & 1; r = v >> 1 | nc << 7; break; case 2: nc = v >> 7; r = v << 1 | c; break; case 3: nc = v & 1; r = v >> 1 | c << 7; break;
  case 4: nc = v >> 7; r = v << 1; break; case 5: nc = v & 1; r = (v >> 1) | (v & 0x80); break; case 6: nc = v >> 7; r = v << 1 | 1; break; default: nc = v & 1; r = v >> 1; } s.F = szp(r) | nc; return r; }
static void cb() {
  int op; if (pfx) { addrHL(); op = f1(); } else op = f1();
  int x = op >> 6, y = (op >> 3) & 7, r = op & 7;
  if (x == 0) sr(r, rot(y, rg(r, true)), true);
  else if (x == 1) { s.F = (s.F & fC) | fH | (rg(r, true) >> y & 1 ? 0 : fZ); undefF = fS | fP; }
  else if (x == 2) sr(r, rg(r, true) & ~(1 << y), true); else sr(r, rg(r, true) | 1 << y, true);
}
static U16 portC(U8 c) { return V == 2 ? s.B << 8 | c : c; }
static U8 inp(U16 port) { return IN[port]; }
static void outp(U16 port, U8 v) { OUT[port] = v; }
static void blk(int y, int r) { int d = y & 1 ? -1 : 1; bool rep = y >= 6; U16 pc0 = s.PC - 2;
  if (r == 0) { wr(DE(), rd(HL())); sHL(HL() + d); sDE(DE() + d); sBC(BC() - 1); s.F = (s.F & (fS | fZ | fC)) | (BC() ? fP : 0); if (rep && BC()) { s.PC = pc0; undefF = 0; } }
  else if (r == 1) { U8 c = s.F & fC; subf(s.A, rd(HL()), 0); sHL(HL() + d); sBC(BC() - 1); s.F = (s.F & (fS | fZ | fH | fN)) | c | (BC() ? fP : 0); if (rep && BC() && !(s.F & fZ)) s.PC = pc0; }
  else if (r == 2) { wr(HL(), inp(portC(s.C))); s.B--; sHL(HL() + d); s.F = (s.F & ~fZ) | (s.B ? 0 : fZ); undefF = fS | fH | fP | fN; if (rep && s.B) s.PC = pc0; }
  else { s.B--; outp(portC(s.C), rd(HL())); sHL(HL() + d); s.F = (s.F & ~fZ) | (s.B ? 0 : fZ); undefF = fS | fH | fP | fN; if (rep && s.B) s.PC = pc0; } }
static U8 tst(U8 v) { U8 r = s.A & v; s.F = szp(r) | fH; return r; }
static bool ext(int op) { int y = (op >> 3) & 7;   // additional instructions of the derivatives, after ED
  if (V == 1 || V == 4) {
    if (op < 0x40 && (op & 7) == 0) { U8 v = inp(f1()); if (y != 6) sr(y, v, true); s.F = (s.F & fC) | szp(v); return true; }
    if (op < 0x40 && (op & 7) == 1 && y != 6) { U8 n = f1(); outp(n, rg(y, true)); return true; }
    if (op < 0x40 && (op & 7) == 4) { tst(rg(y, true)); return true; }
    if (op == 0x64) { tst(f1()); return true; }
    if (op == 0x4c) { sBC(s.B * s.C); return true; } if (op == 0x5c) { sDE(s.D * s.E); return true; } if (op == 0x6c) { sHL(s.H * s.L); return true; } }
  if (V == 2) switch (op) {
    case 0xa4: case 0xac: case 0xb4: case 0xbc: do { U8 t = rd(HL()); if (t != s.A) wr(DE(), t); sDE(DE() + 1); sHL(op & 8 ? HL() - 1 : HL() + 1); sBC(BC() - 1); } while ((op & 0x10) && BC()); return true;
    case 0xb7: do { U8 t = rd((HL() & 0xfff8) + (s.E & 7)); if (t != s.A) wr(DE(), t); sDE(DE() + 1); sBC(BC() - 1); } while (BC()); return true;
    case 0xa5: wr(DE(), rd(HL())); s.L++; s.D++; s.F = (s.F & fC) | sz(s.D) | ((s.D & 15) == 0 ? fH : 0) | (s.D == 0x80 ? fP : 0); return true;
    case 0x90: outp(BC(), rd(HL())); sHL(HL() + 1); undefF = 0xff; return true;
    case 0x30: sDE(s.D * s.E); return true; case 0x31: sHL(HL() + s.A); undefF = fC; return true; case 0x32: sDE(DE() + s.A); undefF = fC; return true; case 0x33: sBC(BC() + s.A); undefF = fC; return true;
    case 0x34: sHL(HL() + f2()); return true; case 0x35: sDE(DE() + f2()); return true; case 0x36: sBC(BC() + f2()); return true;
    case 0x23: s.A = s.A << 4 | s.A >> 4; return true; case 0x24: { U8 r = 0; for (int i = 0; i < 8; i++) r |= (s.A >> i & 1) << (7 - i); s.A = r; return true; }
    case 0x27: tst(f1()); undefF = fH; return true;
    case 0x28: sDE((s.B & 31) > 15 ? 0 : DE() << (s.B & 15)); return true; case 0x29: sDE((short)DE() >> ((s.B & 31) > 15 ? 15 : s.B & 15)); return true; case 0x2a: sDE((s.B & 31) > 15 ? 0 : DE() >> (s.B & 15)); return true;
    case 0x2b: sDE((s.B & 31) > 15 ? 0xffff : (0xffff0000 | DE()) >> (s.B & 15)); return true; case 0x2c: sDE(((U32)DE() << 16 | (U32)DE()) >> (16 - (s.B & 15))); return true;
    case 0x8a: { U16 h = f1(); h = h << 8 | f1(); push(h); return true; }
    case 0x91: { outp(0x243b, f1()); outp(0x253b, f1()); return true; } case 0x92: outp(0x243b, f1()); outp(0x253b, s.A); return true;
    case 0x93: { U16 h = HL(); if ((h & 0x700) != 0x700) h += 0x100; else if ((h & 0xe0) != 0xe0) h = (h & 0xf8ff) + 0x20; else h = (h & 0xf81f) + 0x800; sHL(h); return true; }
    case 0x94: sHL(0x4000 + ((s.D & 0xc0) << 5) + ((s.D & 7) << 8) + ((s.D & 0x38) << 2) + (s.E >> 3)); return true; case 0x95: s.A = 0x80 >> (s.E & 7); return true;
    case 0x98: s.PC = (s.PC & 0xc000) | inp(BC()) << 6; return true; }
  if (V == 3) {
    if ((op & 0xc7) == 0xc1) { U16 v = s.A * rg(y, true); sHL(v); s.F = (s.F & (fH | fN)) | (v ? 0 : fZ) | (v > 255 ? fC : 0); return true; }
    if ((op & 0xcf) == 0xc3) { unsigned long v = (unsigned long)HL() * (unsigned long)rp(y >> 1); sHL(v); sDE(v >> 16); s.F = (s.F & (fH | fN)) | (v ? 0 : fZ) | (v > 0xffff ? fC : 0); return true; } }
  if (V == 4) switch (op) {
    case 0x0f: wr16(HL(), BC()); return true; case 0x1f: wr16(HL(), DE()); return true; case 0x2f: wr16(HL(), HL()); return true;
    case 0x07: sBC(rd16(HL())); return true; case 0x17: sDE(rd16(HL())); return true; case 0x27: sHL(rd16(HL())); return true; case 0x37: s.IX = rd16(HL()); return true; case 0x31: s.IY = rd16(HL()); return true;
    case 0x32: s.IX += (signed char)f1(); return true; case 0x55: s.IY = s.IX + (signed char)f1(); return true; case 0x54: s.IX = s.IY + (signed char)f1(); return true; case 0x33: s.IY += (signed char)f1(); return true;
    case 0x02: sBC(s.IX + (signed char)f1()); return true; case 0x12: sDE(s.IX + (signed char)f1()); return true; case 0x22: sHL(s.IX + (signed char)f1()); return true;
    case 0x03: sBC(s.IY + (signed char)f1()); return true; case 0x13: sDE(s.IY + (signed char)f1()); return true; case 0x23: sHL(s.IY + (signed char)f1()); return true;
    case 0x65: push(s.IX + (signed char)f1()); return true; case 0x66: push(s.IY + (signed char)f1()); return true; }
  return false; }
static bool extxy(int op) {   // additional instructions of the eZ80 after DD and FD
  if (V != 4) return false;
  U16 *o = IXY(), *n = pfx == 0xdd ? &s.IY : &s.IX;
  switch (op) {
  case 0x0f: wr16(addrHL(), BC()); return true; case 0x1f: wr16(addrHL(), DE()); return true; case 0x2f: wr16(addrHL(), HL()); return true;
  case 0x07: sBC(rd16(addrHL())); return true; case 0x17: sDE(rd16(addrHL())); return true; case 0x27: sHL(rd16(addrHL())); return true;
  case 0x37: *o = rd16(addrHL()); return true; case 0x31: *n = rd16(addrHL()); return true;
  case 0x3f: case 0x3e: { addrHL(); wr16(ea, (op == 0x3f) == (pfx == 0xdd) ? s.IX : s.IY); return true; } }
  return false; }
static const U8 ext1[] = { 0x00,0x08,0x10,0x18,0x20,0x28,0x30,0x38, 0x01,0x09,0x11,0x19,0x21,0x29,0x39, 0x04,0x0c,0x14,0x1c,0x24,0x2c,0x34,0x3c, 0x64,0x4c,0x5c,0x6c };
static const U8 ext2[] = { 0xa4,0xac,0xb4,0xbc,0xb7,0xa5,0x90,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x23,0x24,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x8a,0x91,0x92,0x93,0x94,0x95,0x98 };
static const U8 ext3[] = { 0xc1,0xc9,0xd1,0xd9,0xf9,0xc3,0xf3 };
static const U8 ext4[] = { 0x0f,0x1f,0x2f,0x07,0x17,0x27,0x37,0x31,0x32,0x55,0x54,0x33,0x02,0x12,0x22,0x03,0x13,0x23,0x65,0x66 };
static const U8 ext4xy[] = { 0x0f,0x1f,0x2f,0x07,0x17,0x27,0x37,0x31,0x3e,0x3f };
static void ed() { int op = f1(); if (ext(op)) return; int x = op >> 6, y = (op >> 3) & 7, r = op & 7, p = y >> 1, q = y & 1;
  if (x == 2) { blk(y, r); return; }
  switch (r) {
  case 0: { U8 v = inp(portC(s.C)); if (y != 6) sr(y, v, true); s.F = (s.F & fC) | szp(v); break; }
  case 1: outp(portC(s.C), y == 6 ? 0 : rg(y, true)); break;
  case 2: { U32 a = HL(), b = rp(p), c = s.F & 1; if (!q) { int v = (int)a - (int)b - (int)c; s.F = fN | ((v & 0x8000) ? fS : 0) | (((v & 0xffff) == 0) ? fZ : 0) | (((int)(a & 0xfff) - (int)(b & 0xfff) - (int)c) < 0 ? fH : 0) | (v < 0 ? fC : 0) | (((a ^ b) & (a ^ v) & 0x8000) ? fP : 0); sHL(v); }
      else { U32 v = a + b + c; s.F = ((v & 0x8000) ? fS : 0) | (((v & 0xffff) == 0) ? fZ : 0) | ((a & 0xfff) + (b & 0xfff) + c > 0xfff ? fH : 0) | (v > 0xffff ? fC : 0) | (((a ^ v) & (b ^ v) & 0x8000) ? fP : 0); sHL(v); } break; }
  case 3: { U16 a = f2(); if (!q) wr16(a, rp(p)); else srp(p, rd16(a)); break; }
  case 4: { U8 a = s.A; s.A = subf(0, a, 0); break; }
  case 5: s.PC = pop(); s.iff1 = s.iff2; break;
  case 6: s.im = y == 0 ? 0 : y == 2 ? 1 : 2; break;
  default: switch (y) { case 0: s.I = s.A; break; case 1: s.R = s.A; break; case 2: s.A = s.I; s.F = (s.F & fC) | sz(s.A) | (s.iff2 ? fP : 0); break; case 3: s.A = s.R; s.F = (s.F & fC) | sz(s.A) | (s.iff2 ? fP : 0); break;
    case 4: { U8 m = rd(HL()), a = s.A; wr(HL(), m >> 4 | a << 4); s.A = (a & 0xf0) | (m & 15); s.F = (s.F & fC) | szp(s.A); break; }
    case 5: { U8 m = rd(HL()), a = s.A; wr(HL(), m << 4 | (a & 15)); s.A = (a & 0xf0) | m >> 4; s.F = (s.F & fC) | szp(s.A); break; } } } }
static void step() {
  undefF = 0; halted = 0; pfx = 0; haveEA = 0;
  int op = f1(); if (op == 0xdd || op == 0xfd) { pfx = op; op = f1(); if (extxy(op)) return; }
  int x = op >> 6, y = (op >> 3) & 7, r = op & 7, p = y >> 1, q = y & 1;
  if (op == 0xcb) { cb(); return; } if (op == 0xed) { ed(); return; }
  if (x == 1) { if (op == 0x76) { halted = 1; return; } bool m = r == 6 || y == 6; sr(y, rg(r, m), m); return; }
  if (x == 2) { alu(y, rg(r, r == 6)); return; }
  if (x == 0) switch (r) {
    case 0: if (y == 0) return; if (y == 1) { U8 t = s.A; s.A = s.A2; s.A2 = t; t = s.F; s.F = s.F2; s.F2 = t; return; } { signed char e = f1(); if (y == 2) { s.B--; if (s.B) s.PC += e; } else if (y == 3 || cc(y - 4)) s.PC += e; } return;
    case 1: if (!q) { srp(p, f2()); return; } { U32 a = HLX(), b = rp(p), v = a + b; s.F = (s.F & (fS | fZ | fP)) | ((a & 0xfff) + (b & 0xfff) > 0xfff ? fH : 0) | (v > 0xffff ? fC : 0); sHLX(v); } return;
    case 2: switch (y) { case 0: wr(BC(), s.A); return; case 1: s.A = rd(BC()); return; case 2: wr(DE(), s.A); return; case 3: s.A = rd(DE()); return; case 4: wr16(f2(), HLX()); return; case 5: sHLX(rd16(f2())); return; case 6: wr(f2(), s.A); return; default: s.A = rd(f2()); return; }
    case 3: srp(p, rp(p) + (q ? -1 : 1)); return;
    case 4: { U8 v = rg(y, y == 6) + 1; sr(y, v, y == 6); s.F = (s.F & fC) | sz(v) | ((v & 15) == 0 ? fH : 0) | (v == 0x80 ? fP : 0); return; }
    case 5: { U8 v = rg(y, y == 6) - 1; sr(y, v, y == 6); s.F = (s.F & fC) | fN | sz(v) | ((v & 15) == 15 ? fH : 0) | (v == 0x7f ? fP : 0); return; }
    case 6: { if (y == 6 && pfx) addrHL(); U8 v = f1(); sr(y, v, y == 6); return; }
    default: switch (y) { case 0: case 1: case 2: case 3: { U8 f = s.F & (fS | fZ | fP); s.A = rot(y, s.A); s.F = f | (s.F & fC); return; }
      case 4: { U8 a = s.A, d = 0, c = s.F & fC; if ((s.F & fH) || (a & 15) > 9) d = 6; if (c || a > 0x99) { d |= 0x60; c = fC; } U8 n = s.F & fN; U8 v = n ? a - d : a + d; U8 h = n ? ((s.F & fH) && (a & 15) < 6 ? fH : 0) : ((a & 15) > 9 ? fH : 0); s.A = v; s.F = szp(v) | n | c | h; return; }
      case 5: s.A = ~s.A; s.F |= fH | fN; return; case 6: s.F = (s.F & (fS | fZ | fP)) | fC; return; default: s.F = (s.F & (fS | fZ | fP)) | (s.F & fC ? fH : fC); return; } }
  switch (r) {
  case 0: if (cc(y)) s.PC = pop(); return;
  case 1: if (!q) { U16 v = pop(); if (p == 3) { s.A = v >> 8; s.F = v; } else srp(p, v); return; } if (p == 0) { s.PC = pop(); return; } if (p == 1) { U16 t = BC(); sBC(s.BC2); s.BC2 = t; t = DE(); sDE(s.DE2); s.DE2 = t; t = HL(); sHL(s.HL2); s.HL2 = t; return; } if (p == 2) { s.PC = HLX(); return; } s.SP = HLX(); return;
  case 2: { U16 a = f2(); if (cc(y)) s.PC = a; return; }
  case 3: switch (y) { case 0: s.PC = f2(); return; case 2: outp(f1(), s.A); return; case 3: s.A = inp(f1()); return; case 4: { U16 t = rd16(s.SP); wr16(s.SP, HLX()); sHLX(t); return; } case 5: { U16 t = DE(); sDE(HL()); sHL(t); return; } case 6: s.iff1 = s.iff2 = 0; return; default: s.iff1 = s.iff2 = 1; return; }
  case 4: { U16 a = f2(); if (cc(y)) { push(s.PC); s.PC = a; } return; }
  case 5: if (!q) { push(p == 3 ? (U16)(s.A << 8 | s.F) : rp(p)); return; } { U16 a = f2(); push(s.PC); s.PC = a; return; }
  case 6: alu(y, f1()); return;
  default: push(s.PC); s.PC = y * 8; return; }
}
// ---- cases
static int pre[2000], opc[2000], n;
static void add(int p, int o) { pre[n] = p; opc[n++] = o; }
extern "C" void sym_setup(void) {
  z = (cl_z80 *)mk_sim<cl_simz80>(cpus_z80, V == 1 ? "Z180" : V == 2 ? "Z80N" : V == 3 ? "R800" : V == 4 ? "EZ80" : "Z80"); z->reset();
  sym_stub("cl_memory::err_inv_addr");
  M.attach(chip_of(z->rom), "mem", 0x10000); OUT.attach(chip_of(z->outputs), "out", 0x10000); IN.attach(chip_of(z->inputs), "in", 0x10000);
  if (V == 0) for (int o = 0; o < 256; o++) if (o != 0xcb && o != 0xed && o != 0xdd && o != 0xfd) add(0, o);
  if (V == 0) for (int o = 0; o < 256; o++) add(0xcb, o);
  if (V == 1 || V == 4) for (int o : ext1) add(0xed, o);
  if (V == 2) for (int o : ext2) add(0xed, o);
  if (V == 3) for (int o : ext3) add(0xed, o);
  if (V == 4) { for (int o : ext4) add(0xed, o); for (int o : ext4xy) add(0xdd, o), add(0xfd, o); }
  static const int edl[] = { 0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4d,0x4f,0x50,0x51,0x52,0x53,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5e,0x5f,0x60,0x61,0x62,0x63,0x67,0x68,0x69,0x6a,0x6b,0x6f,0x70,0x72,0x73,0x78,0x79,0x7a,0x7b,
    0xa0,0xa1,0xa2,0xa3,0xa8,0xa9,0xaa,0xab,0xb0,0xb1,0xb2,0xb3,0xb8,0xb9,0xba,0xbb };
  for (int o : edl) add(0xed, o);
  if (V == 0 || V == 4) for (int p : { 0xdd, 0xfd }) {
    for (int o = 0; o < 256; o++) { int x = o >> 6, y = (o >> 3) & 7, r = o & 7; bool idx = false;
      if (x == 1) idx = o != 0x76 && (r == 4 || r == 5 || r == 6 || y == 4 || y == 5 || y == 6);
      else if (x == 2) idx = r == 4 || r == 5 || r == 6;
      else if (x == 0) idx = o == 0x21 || o == 0x22 || o == 0x2a || o == 0x23 || o == 0x2b || (o & 0xcf) == 9 || ((r == 4 || r == 5 || r == 6) && (y == 4 || y == 5 || y == 6));
      else idx = o == 0xe1 || o == 0xe3 || o == 0xe5 || o == 0xe9 || o == 0xf9;
      if (idx) add(p, o); }
    for (int o = 6; o < 256; o += 8) add(p << 8 | 0xcb, o); }
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { if (pre[c]) snprintf(b, k, "op_%02x_%02x", pre[c], opc[c]); else snprintf(b, k, "op_%02x", opc[c]); }
extern "C" void sym_test(long c) {
  M.sym(); OUT.sym(); IN.sym();
  U16 pc = SYM16("pc"); int p = pre[c], o = opc[c];
  if (p > 0xff) { z->rom->set(pc, p >> 8); z->rom->set((U16)(pc + 1), 0xcb); z->rom->set((U16)(pc + 3), o); M[pc] = p >> 8; M[(U16)(pc + 1)] = 0xcb; M[(U16)(pc + 3)] = o; }
  else if (p) { z->rom->set(pc, p); z->rom->set((U16)(pc + 1), o); M[pc] = p; M[(U16)(pc + 1)] = o; }
  else { z->rom->set(pc, o); M[pc] = o; }
  s.A = SYM8("a"); s.F = SYM8("f"); s.B = SYM8("b"); s.C = SYM8("c"); s.D = SYM8("d"); s.E = SYM8("e"); s.H = SYM8("h"); s.L = SYM8("l"); s.A2 = SYM8("a2"); s.F2 = SYM8("f2"); s.I = SYM8("i"); s.R = SYM8("r");
  s.BC2 = SYM16("bc2"); s.DE2 = SYM16("de2"); s.HL2 = SYM16("hl2"); s.IX = SYM16("ix"); s.IY = SYM16("iy"); s.SP = SYM16("sp"); s.iff1 = SYM1("iff1"); s.iff2 = SYM1("iff2"); s.im = 0; s.PC = pc;
  z->PC = z->instPC = pc; z->regs.raf.A = s.A; z->regs.raf.F = s.F; z->regs.bc.h = s.B; z->regs.bc.l = s.C; z->regs.de.h = s.D; z->regs.de.l = s.E; z->regs.hl.h = s.H; z->regs.hl.l = s.L; z->regs.ralt_af.aA = s.A2; z->regs.ralt_af.aF = s.F2; z->regs.iv = s.I; z->regs.R = s.R;
  z->regs.aBC = s.BC2; z->regs.aDE = s.DE2; z->regs.aHL = s.HL2; z->regs.IX = s.IX; z->regs.IY = s.IY; z->regs.SP = s.SP; z->IFF1 = s.iff1; z->IFF2 = s.iff2; z->imode = 0;
  if (o == 0x27 && !p && (s.F & fN)) { int hi = s.A >> 4, lo = s.A & 15; bool h = s.F & fH, cy = s.F & fC;   /* DAA after a subtraction: exactly the rows of the manual's table */
    sym_assume(!cy ? (!h ? hi <= 9 && lo <= 9 : hi <= 8 && lo >= 6) : (!h ? hi >= 7 && lo <= 9 : hi >= 6 && lo >= 6)); }
  if (p == 0xed && o == 0x5f) s.R = (s.R & 0x80) | ((s.R + 1) & 0x7f);   /* the refresh counter advances before it is read */
  if (V == 2 && p == 0xed && (o == 0xb4 || o == 0xbc || o == 0xb7)) sym_assume(BC() >= 1 && BC() <= (sym_thorough() ? 3 : 2));
  step();
  int res = z->exec_inst();
  REQ(res == (halted ? resHALT : resGO), "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->regs.SP == s.SP, "SP"); REQ(z->regs.raf.A == s.A, "A");
  U8 m = fDOC & ~undefF, f = z->regs.raf.F ^ s.F; if (o == 0x08 && !p) m = 0xff;
  REQ(!(f & m & fS), "flag S"); REQ(!(f & m & fZ), "flag Z"); REQ(!(f & m & fH), "flag H"); REQ(!(f & m & fP), "flag P/V"); REQ(!(f & m & fN), "flag N"); REQ(!(f & m & fC), "flag C");
  REQ(z->regs.BC == BC(), "BC"); REQ(z->regs.DE == DE(), "DE"); REQ(z->regs.HL == HL(), "HL"); REQ(z->regs.IX == s.IX, "IX"); REQ(z->regs.IY == s.IY, "IY");
  REQ(z->regs.aBC == s.BC2 && z->regs.aDE == s.DE2 && z->regs.aHL == s.HL2 && z->regs.ralt_af.aA == s.A2 && z->regs.ralt_af.aF == s.F2, "alternate registers");
  REQ(z->IFF1 == (s.iff1 != 0) && z->IFF2 == (s.iff2 != 0), "interrupt enables"); REQ(z->imode == s.im, "interrupt mode"); REQ(z->regs.iv == s.I, "I");
  if (p == 0xed && o == 0x4f) REQ(z->regs.R == s.R, "R");
  sym_observe("pc", z->PC); sym_observe("af", z->regs.AF); sym_observe("hl", z->regs.HL);
  M.same("memory"); OUT.same("output ports");
}
