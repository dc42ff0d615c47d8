// Motorola 6800 (V=0), 6801 (V=1), 68HC11 (V=2): every documented instruction against a model of the reference manual.
// SWI: instruction plus the interrupt sequence it starts.  The on-chip/board peripherals (CIA, PIA) are detached, so all 64K are plain memory.
#include "isa_common.h"
#ifndef V
#define V 0
#endif
#if V == 2
#include "simm68hc11cl.h"
#include "m68hc11cl.h"
#include "glob11.h"
#else
#include "simm6800cl.h"
#include "m6801cl.h"
#include "glob68.h"
#endif
#undef A
#undef B
#undef D
static cl_m6800 *z; static RefMem<U8> M;
enum { fH = 0x20, fI = 0x10, fN = 8, fZ = 4, fV = 2, fC = 1 };
static struct { U8 A, B, P; U16 X, Y, S, PC; } s;
static U8 undefF; static int swi, halt; static bool undefD;
static U8 rd(U16 a) { return M[a]; } static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd2(U16 a) { return rd(a) << 8 | rd(a + 1); } static void wr2(U16 a, U16 v) { wr(a, v >> 8); wr(a + 1, v); }
static U8 f1() { return rd(s.PC++); } static U16 f2() { U16 v = f1(); return v << 8 | f1(); }
static void push(U8 v) { wr(s.S, v); s.S--; } static U8 pop() { s.S++; return rd(s.S); }
static void push2(U16 v) { push(v); push(v >> 8); } static U16 pop2() { U16 v = pop(); return v << 8 | pop(); }
static void fl(U8 f, bool on) { if (on) s.P |= f; else s.P &= ~f; }
static U16 D() { return s.A << 8 | s.B; } static void setD(U16 v) { s.A = v >> 8; s.B = v; }
static void nz8(U8 v) { fl(fN, v & 0x80); fl(fZ, !v); fl(fV, 0); } static void nz16(U16 v) { fl(fN, v & 0x8000); fl(fZ, !v); fl(fV, 0); }
static U8 add(U8 a, U8 b, int c) { int r = a + b + c; nz8(r); fl(fC, r > 255); fl(fV, (a ^ r) & (b ^ r) & 0x80); fl(fH, (a & 15) + (b & 15) + c > 15); return r; }
static U8 sub(U8 a, U8 b, int c) { int r = a - b - c; nz8(r); fl(fC, r < 0); fl(fV, (a ^ b) & (a ^ r) & 0x80); return r; }
static U16 add16(U16 a, U16 b) { UL r = (UL)a + b; nz16(r); fl(fC, r > 0xffff); fl(fV, (a ^ r) & (b ^ r) & 0x8000); return r; }
static U16 sub16(U16 a, U16 b) { U16 r = a - b; nz16(r); fl(fC, a < b); fl(fV, (a ^ b) & (a ^ r) & 0x8000); return r; }
static bool cond(int n) { bool c = s.P & fC, v = s.P & fV, zf = s.P & fZ, ng = s.P & fN, r; switch (n >> 1) {
  case 0: r = true; break; case 1: r = !(c || zf); break; case 2: r = !c; break; case 3: r = !zf; break; case 4: r = !v; break; case 5: r = !ng; break; case 6: r = ng == v; break; default: r = !(zf || ng != v); } return r != (n & 1); }
static U8 rmw(int n, U8 v) { U8 r, c = s.P & fC; switch (n) {
  case 0: r = -v; nz8(r); fl(fC, r != 0); fl(fV, r == 0x80); return r;
  case 3: r = ~v; nz8(r); fl(fC, 1); return r;
  case 4: r = v >> 1; nz8(r); fl(fC, v & 1); fl(fV, v & 1); return r;
  case 6: r = v >> 1 | c << 7; nz8(r); fl(fC, v & 1); fl(fV, !!(r & 0x80) != !!(v & 1)); return r;
  case 7: r = v >> 1 | (v & 0x80); nz8(r); fl(fC, v & 1); fl(fV, !!(r & 0x80) != !!(v & 1)); return r;
  case 8: r = v << 1; nz8(r); fl(fC, v & 0x80); fl(fV, (r ^ v) & 0x80); return r;
  case 9: r = v << 1 | c; nz8(r); fl(fC, v & 0x80); fl(fV, (r ^ v) & 0x80); return r;
  case 10: r = v - 1; nz8(r); fl(fV, v == 0x80); return r;
  case 12: r = v + 1; nz8(r); fl(fV, v == 0x7f); return r;
  case 13: nz8(v); fl(fC, 0); return v;
  default: fl(fN | fV | fC, 0); fl(fZ, 1); return 0; } }
static void pushall() { push2(s.PC); if (V == 2) push2(s.Y); push2(s.X); push(s.A); push(s.B); push(s.P); }
/* which: the index register the addressing mode uses (0 X, 1 Y); reg: the 16 bit register operated on by CPX/LDX/STX/... (0 X, 1 Y) */
static void step() {
  undefF = 0; swi = halt = 0; undefD = false; int pre = 0, o = f1(), wi = 0, wr_ = 0;
  if (V == 2 && (o == 0x18 || o == 0x1a || o == 0xcd)) { pre = o; o = f1(); if (pre == 0x18) wi = wr_ = 1; else if (pre == 0xcd) wi = 1; else wr_ = 1; }
  U16 &X = wr_ ? s.Y : s.X; U16 I = wi ? s.Y : s.X;
  if (o >= 0x80) { int n = o & 15, m = (o >> 4) & 3; bool b = o & 0x40; U8 &R = b ? s.B : s.A; U16 ea = 0; bool w = n == 3 || n == 12 || n == 14;
    if (o == 0x8d) { signed char r = f1(); push2(s.PC); s.PC += r; return; }
    if (V == 2 && o == 0x8f) { U16 t = D(); setD(X); X = t; return; }
    switch (m) { case 0: ea = s.PC; s.PC += w ? 2 : 1; break; case 1: ea = f1(); break; case 2: ea = f1() + I; break; default: ea = f2(); }
    switch (n) {
      case 0: R = sub(R, rd(ea), 0); return; case 1: sub(R, rd(ea), 0); return; case 2: R = sub(R, rd(ea), s.P & 1); return;
      case 3: if (pre == 0x1a || pre == 0xcd) sub16(D(), rd2(ea)); else if (b) setD(add16(D(), rd2(ea))); else setD(sub16(D(), rd2(ea))); return;
      case 4: nz8(R &= rd(ea)); return; case 5: nz8(R & rd(ea)); return; case 6: nz8(R = rd(ea)); return; case 7: wr(ea, R); nz8(R); return;
      case 8: nz8(R ^= rd(ea)); return; case 9: R = add(R, rd(ea), s.P & 1); return; case 10: nz8(R |= rd(ea)); return; case 11: R = add(R, rd(ea), 0); return;
      case 12: if (b) { setD(rd2(ea)); nz16(D()); } else if (V) sub16(pre == 0xcd ? s.X : X, rd2(ea)); else { U8 c = s.P & fC; sub16(X, rd2(ea)); s.P = (s.P & ~fC) | c; undefF = fN | fV; } return;
      case 13: if (b) { wr2(ea, D()); nz16(D()); } else { push2(s.PC); s.PC = ea; } return;
      case 14: { U16 v = rd2(ea); nz16(v); if (!b) s.S = v; else X = v; return; }
      default: { U16 v = b ? X : s.S; wr2(ea, v); nz16(v); return; } } }
  if (o >= 0x40) { int n = o & 15, m = o >> 4 & 3;
    if (m == 0) { s.A = rmw(n, s.A); return; } if (m == 1) { s.B = rmw(n, s.B); return; }
    U16 ea = m == 2 ? f1() + I : f2(); if (n == 14) { s.PC = ea; return; }
    U8 r = rmw(n, n == 15 ? 0 : rd(ea)); if (n != 13) wr(ea, r); return; }
  if (o >= 0x20 && o < 0x30) { signed char r = f1(); if (cond(o & 15)) s.PC += r; return; }
  switch (o) {
    case 0x01: return;
    case 0x02: if (s.X == 0) { s.X = 0xffff; fl(fC, 1); fl(fZ | fV, 0); undefD = true; } else { U16 q = D() / s.X, r = D() % s.X; s.X = q; setD(r); fl(fC | fV, 0); fl(fZ, !q); } return;
    case 0x03: { bool c = s.X == 0, v = s.X <= D(); fl(fC, c); fl(fV, v); if (v) { s.X = 0xffff; fl(fZ, 0); undefD = true; } else { U32 n = (U32)D() << 16; U16 q = n / s.X, r = n % s.X; s.X = q; setD(r); fl(fZ, !q); } return; }
    case 0x04: { U16 d = D(), r = d >> 1; setD(r); nz16(r); fl(fC, d & 1); fl(fV, d & 1); return; }
    case 0x05: { U16 d = D(), r = d << 1; setD(r); nz16(r); fl(fC, d & 0x8000); fl(fV, (d ^ r) & 0x8000); return; }
    case 0x06: s.P = s.A | 0xc0; return; case 0x07: s.A = s.P; return;
    case 0x08: X++; fl(fZ, !X); return; case 0x09: X--; fl(fZ, !X); return;
    case 0x0a: fl(fV, 0); return; case 0x0b: fl(fV, 1); return; case 0x0c: fl(fC, 0); return; case 0x0d: fl(fC, 1); return; case 0x0e: fl(fI, 0); return; case 0x0f: fl(fI, 1); return;
    case 0x10: s.A = sub(s.A, s.B, 0); return; case 0x11: sub(s.A, s.B, 0); return; case 0x16: nz8(s.B = s.A); return; case 0x17: nz8(s.A = s.B); return;
    case 0x19: { U8 a = s.A, hi = a >> 4, lo = a & 15, c = 0; bool cy = (s.P & fC) || a > 0x99; if (lo > 9 || (s.P & fH)) c = 6; if (cy) c += 0x60; s.A = a + c; nz8(s.A); fl(fC, cy); undefF = fV; return; }
    case 0x1b: s.A = add(s.A, s.B, 0); return;
    case 0x12: case 0x13: case 0x1e: case 0x1f: { U16 ea = o < 0x18 ? f1() : f1() + I; U8 m = f1(); signed char r = f1(); U8 v = rd(ea); if (o & 1 ? !(v & m) : !(~v & m)) s.PC += r; return; }
    case 0x14: case 0x15: case 0x1c: case 0x1d: { U16 ea = o < 0x18 ? f1() : f1() + I; U8 m = f1(), v = rd(ea); v = o & 1 ? v & ~m : v | m; wr(ea, v); nz8(v); return; }
    case 0x30: X = s.S + 1; return; case 0x31: s.S++; return; case 0x32: s.A = pop(); return; case 0x33: s.B = pop(); return; case 0x34: s.S--; return; case 0x35: s.S = X - 1; return; case 0x36: push(s.A); return; case 0x37: push(s.B); return;
    case 0x38: X = pop2(); return; case 0x39: s.PC = pop2(); return; case 0x3a: X += s.B; return;
    case 0x3b: s.P = pop() | 0xc0; s.B = pop(); s.A = pop(); s.X = pop2(); if (V == 2) s.Y = pop2(); s.PC = pop2(); return;
    case 0x3c: push2(X); return; case 0x3d: setD(s.A * s.B); fl(fC, s.B & 0x80); return;
    case 0x3e: pushall(); halt = 1; return;
    case 0x3f: pushall(); fl(fI, 1); s.PC = rd2(V == 2 ? 0xfff6 : 0xfffa); swi = 1; return; } }
// clock cycles of the reference manuals (prefix byte included); 0: not checked (SWI and WAI: the interrupt sequence is part of the count)
static int cyc(int oo) {
  int o = oo & 255, pre = oo >> 8, x = pre == 0x18 || pre == 0xcd || pre == 0x1a ? 1 : 0;  // a prefixed instruction takes one more
  if (o >= 0x80) { int k = o & 15, m = o >> 4 & 3; bool b = o & 0x40;
    static const int B0[4] = {2, 3, 5, 4}, B1[4] = {2, 3, 4, 4}; const int *B = V ? B1 : B0; bool st = k == 7 || k == 15;
    if (V == 2 && k == 15 && m == 0) return b ? 2 : 3 + x;
    if (k == 13) { if (b) return B[m] + 1 + x; if (m == 0) return V ? 6 : 8; if (V) return (m == 1 ? 5 : 6) + x; return m == 2 ? 8 : 9; }
    int c = B[m]; if (k == 12 && b) c += 1; else if (k == 3 || k == 12) c += V ? 2 : 1; else if (k == 14 || k == 15) c += 1;
    if (st && !V) c += 1; return c + x; }
  if (o >= 0x40) { int m = o >> 4 & 3; if (m < 2) return 2; if ((o & 15) == 14) return (m == 2 ? (V ? 3 : 4) : 3) + x; return (V ? 6 : m == 2 ? 7 : 6) + x; }
  if (o >= 0x20 && o < 0x30) return V ? 3 : 4;
  switch (o) {
    case 0x02: case 0x03: return 41; case 0x04: case 0x05: return 3;
    case 0x08: case 0x09: return (V ? 3 : 4) + x;
    case 0x12: case 0x13: case 0x14: case 0x15: return 6; case 0x1c: case 0x1d: case 0x1e: case 0x1f: return 7 + x;
    case 0x30: case 0x35: return (V ? 3 : 4) + x; case 0x31: case 0x34: return V ? 3 : 4;
    case 0x32: case 0x33: return 4; case 0x36: case 0x37: return V ? 3 : 4;
    case 0x38: return 5 + x; case 0x39: return 5; case 0x3a: return 3 + x; case 0x3b: return V == 2 ? 12 : 10; case 0x3c: return 4 + x; case 0x3d: return 10;
    case 0x3e: case 0x3f: return 0; }
  return 2; }
static int ops[600], n;
static bool valid(int o) {
  if (o >= 0x80) { int k = o & 15, m = o >> 4 & 3; bool b = o & 0x40; if (k == 7) return m; if (k == 3) return V; if (k == 12) return !b || V; if (k == 13) return b ? V && m : o == 0x8d || m >= 2 || V; if (k == 15) return m || (V == 2 && !b); return true; }
  if (o >= 0x40) { int k = o & 15; return k != 1 && k != 2 && k != 5 && k != 11 && (k != 14 || o >= 0x60); }
  if (o >= 0x30) return V || (o != 0x38 && o != 0x3a && o != 0x3c && o != 0x3d); if (o >= 0x20) return V || o != 0x21;
  switch (o) { case 0x00: case 0x1a: case 0x18: return false; case 2: case 3: case 0x12: case 0x13: case 0x14: case 0x15: case 0x1c: case 0x1d: case 0x1e: case 0x1f: return V == 2; case 4: case 5: return V; }
  return o < 0x10 || o == 0x10 || o == 0x11 || o == 0x16 || o == 0x17 || o == 0x19 || o == 0x1b; }
extern "C" void sym_setup(void) {
#if V == 2
  z = (cl_m6800 *)mk_sim<cl_simm68hc11>(cpus_m68hc11, "HC11");
#else
  z = (cl_m6800 *)mk_sim<cl_simm6800>(cpus_m6800, V ? "6801" : "6800");
#endif
  plain(z->rom, 0, 0xffff); z->it_sources->disconn_all(); z->it_sources->add(z->src_irq); z->it_sources->add(z->src_nmi); z->it_sources->add(z->src_swi);
  z->reset();
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
  M.attach(chip_of(z->rom), "mem", 0x10000);
  for (int o = 0; o < 256; o++) if (valid(o) && (V != 2 || o != 0xcd)) ops[n++] = o;
  if (V == 2) {
    static const U8 p18[] = {0x08,0x09,0x1c,0x1d,0x1e,0x1f,0x30,0x35,0x38,0x3a,0x3c,0x60,0x63,0x64,0x66,0x67,0x68,0x69,0x6a,0x6c,0x6d,0x6e,0x6f,0x8c,0x8f,0x9c,0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xbc,0xce,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xfe,0xff};
    for (U8 o : p18) ops[n++] = 0x1800 | o;
    for (int o : {0x83, 0x93, 0xa3, 0xb3, 0xac, 0xee, 0xef}) ops[n++] = 0x1a00 | o;
    for (int o : {0xa3, 0xac, 0xee, 0xef}) ops[n++] = 0xcd00 | o; }
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, ops[c] > 255 ? "op_%04x" : "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U16 pc = SYM16("pc"), p = pc; if (o > 255) { z->rom->set(p, o >> 8); M[p] = o >> 8; p++; } z->rom->set(p, o & 255); M[p] = o & 255;
  s.A = SYM8("a"); s.B = SYM8("b"); s.P = SYM8("cc") | 0xc0; s.X = SYM16("x"); s.S = SYM16("sp"); s.PC = pc;
  z->PC = z->instPC = pc; z->acc.DAB.a8.Ar = s.A; z->acc.DAB.a8.Br = s.B; z->CC.cc16.cc8.ccl = s.P; z->IX = s.X; z->SP = s.S; z->inst_ticks = 0;
#if V == 2
  cl_m68hc11 *y = (cl_m68hc11 *)z; y->IY = s.Y = SYM16("y");
#endif
  step();
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised");
  if (swi) z->do_interrupt();
  if (cyc(o)) REQ((int)z->inst_ticks == cyc(o), "clock cycles");
  REQ(z->PC == s.PC, "PC"); REQ(z->SP == s.S, "SP"); REQ(z->IX == s.X, "X");
#if V == 2
  REQ(y->IY == s.Y, "Y");
#endif
  if (!undefD) { REQ(z->acc.DAB.a8.Ar == s.A, "A"); REQ(z->acc.DAB.a8.Br == s.B, "B"); }
  U8 cc = z->CC.cc16.cc8.ccl, f = (cc ^ s.P) & ~undefF; REQ(!(f & fH), "flag H"); REQ(!(f & fI), "flag I"); REQ(!(f & fN), "flag N"); REQ(!(f & fZ), "flag Z"); REQ(!(f & fV), "flag V"); REQ(!(f & fC), "flag C"); if (V < 2) REQ((cc & 0xc0) == 0xc0, "unused bits of CC read as one");
  REQ((z->state == stIDLE) == !!halt, "only WAI waits for an interrupt");
  sym_observe("pc", z->PC); sym_observe("a", z->acc.DAB.a8.Ar); sym_observe("cc", cc); sym_observe("sp", z->SP);
  M.same("memory");
}
