// Motorola 6809: every documented instruction against a model of the programming manual.
// The board peripherals (CIA, PIA) are detached, so all 64K are plain memory.
#include "isa_common.h"
#include "glob.h"
#include "simm6809cl.h"
#include "m6809cl.h"
#undef A
#undef B
#undef D
static cl_m6809 *z; static RefMem<U8> M;
enum { fE = 0x80, fF = 0x40, fH = 0x20, fI = 0x10, fN = 8, fZ = 4, fV = 2, fC = 1 };
static struct { U8 A, B, P, DP; U16 X, Y, U, S, PC; } s;
static U8 undefF; static int halt; static bool skip;
static U8 rd(U16 a) { return M[a]; } static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd2(U16 a) { return rd(a) << 8 | rd(a + 1); } static void wr2(U16 a, U16 v) { wr(a, v >> 8); wr(a + 1, v); }
static U8 f1() { return rd(s.PC++); } static U16 f2() { U16 v = f1(); return v << 8 | f1(); }
static void push(U16 &p, U8 v) { p--; wr(p, v); } static U8 pop(U16 &p) { U8 v = rd(p); p++; return v; }
static void push2(U16 &p, U16 v) { push(p, v); push(p, v >> 8); } static U16 pop2(U16 &p) { U16 v = pop(p); return v << 8 | pop(p); }
static void fl(U8 f, bool on) { if (on) s.P |= f; else s.P &= ~f; }
static U16 D() { return s.A << 8 | s.B; } static void setD(U16 v) { s.A = v >> 8; s.B = v; }
static void nz8(U8 v) { fl(fN, v & 0x80); fl(fZ, !v); } static void nz16(U16 v) { fl(fN, v & 0x8000); fl(fZ, !v); }
static U8 add(U8 a, U8 b, int c) { int r = a + b + c; nz8(r); fl(fC, r > 255); fl(fV, (a ^ r) & (b ^ r) & 0x80); fl(fH, (a & 15) + (b & 15) + c > 15); return r; }
static U8 sub(U8 a, U8 b, int c) { int r = a - b - c; nz8(r); fl(fC, r < 0); fl(fV, (a ^ b) & (a ^ r) & 0x80); undefF = fH; return r; }
static U16 add16(U16 a, U16 b) { UL r = (UL)a + b; nz16(r); fl(fC, r > 0xffff); fl(fV, (a ^ r) & (b ^ r) & 0x8000); return r; }
static U16 sub16(U16 a, U16 b) { U16 r = a - b; nz16(r); fl(fC, a < b); fl(fV, (a ^ b) & (a ^ r) & 0x8000); return r; }
static bool cond(int n) { bool c = s.P & fC, v = s.P & fV, zf = s.P & fZ, ng = s.P & fN, r; switch (n >> 1) {
  case 0: r = true; break; case 1: r = !(c || zf); break; case 2: r = !c; break; case 3: r = !zf; break; case 4: r = !v; break; case 5: r = !ng; break; case 6: r = ng == v; break; default: r = !(zf || ng != v); } return r != (n & 1); }
static U8 rmw(int n, U8 v) { U8 r, c = s.P & fC; switch (n) {
  case 0: r = -v; nz8(r); fl(fC, r != 0); fl(fV, r == 0x80); undefF = fH; return r;
  case 3: r = ~v; nz8(r); fl(fC, 1); fl(fV, 0); return r;
  case 4: r = v >> 1; nz8(r); fl(fC, v & 1); return r;
  case 6: r = v >> 1 | c << 7; nz8(r); fl(fC, v & 1); return r;
  case 7: r = v >> 1 | (v & 0x80); nz8(r); fl(fC, v & 1); undefF = fH; return r;
  case 8: r = v << 1; nz8(r); fl(fC, v & 0x80); fl(fV, (r ^ v) & 0x80); undefF = fH; return r;
  case 9: r = v << 1 | c; nz8(r); fl(fC, v & 0x80); fl(fV, (r ^ v) & 0x80); return r;
  case 10: r = v - 1; nz8(r); fl(fV, v == 0x80); return r;
  case 12: r = v + 1; nz8(r); fl(fV, v == 0x7f); return r;
  case 13: nz8(v); fl(fV, 0); return v;
  default: fl(fN | fV | fC, 0); fl(fZ, 1); return 0; } }
static bool ixok(U8 p) { if (!(p & 0x80)) return true; int m = p & 15; bool i = p & 16; if (m == 7 || m == 10 || m == 14) return false; if ((m == 0 || m == 2) && i) return false; if (m == 15) return (p & 0xf0) == 0x90; return true; }
static U16 indexed() { U8 p = f1(); sym_assume(ixok(p)); U16 &R = (p & 0x60) == 0 ? s.X : (p & 0x60) == 0x20 ? s.Y : (p & 0x60) == 0x40 ? s.U : s.S; U16 ea;
  if (!(p & 0x80)) { int o = p & 31; if (o & 16) o -= 32; return R + o; }
  switch (p & 15) { case 0: ea = R; R++; break; case 1: ea = R; R += 2; break; case 2: R--; ea = R; break; case 3: R -= 2; ea = R; break; case 4: ea = R; break; case 5: ea = R + (signed char)s.B; break; case 6: ea = R + (signed char)s.A; break;
    case 8: { signed char o = f1(); ea = R + o; break; } case 9: { U16 o = f2(); ea = R + o; break; } case 11: ea = R + D(); break; case 12: { signed char o = f1(); ea = s.PC + o; break; } case 13: { U16 o = f2(); ea = s.PC + o; break; } default: ea = f2(); }
  if (p & 16) ea = rd2(ea); return ea; }
static void pushall() { s.P |= fE; push2(s.S, s.PC); push2(s.S, s.U); push2(s.S, s.Y); push2(s.S, s.X); push(s.S, s.DP); push(s.S, s.B); push(s.S, s.A); push(s.S, s.P); }
static U16 getr(int c) { switch (c) { case 0: return D(); case 1: return s.X; case 2: return s.Y; case 3: return s.U; case 4: return s.S; case 5: return s.PC; case 8: return s.A; case 9: return s.B; case 10: return s.P; default: return s.DP; } }
static void setr(int c, U16 v) { switch (c) { case 0: setD(v); return; case 1: s.X = v; return; case 2: s.Y = v; return; case 3: s.U = v; return; case 4: s.S = v; return; case 5: s.PC = v; return; case 8: s.A = v; return; case 9: s.B = v; return; case 10: s.P = v; return; default: s.DP = v; } }
static bool regok(int c) { return c < 6 || (c >= 8 && c < 12); }
static void step() {
  undefF = 0; halt = 0; int pre = 0, o = f1(); if (o == 0x10 || o == 0x11) { pre = o; o = f1(); }
  if (o >= 0x80) { int n = o & 15, m = (o >> 4) & 3; bool b = o & 0x40; U8 &R = b ? s.B : s.A; U16 ea = 0; bool w = n == 3 || n == 12 || n == 14;
    if (o == 0x8d) { signed char r = f1(); push2(s.S, s.PC); s.PC += r; return; }
    switch (m) { case 0: ea = s.PC; s.PC += w ? 2 : 1; break; case 1: ea = s.DP << 8 | f1(); break; case 2: ea = indexed(); break; default: ea = f2(); }
    switch (n) {
      case 0: R = sub(R, rd(ea), 0); return; case 1: sub(R, rd(ea), 0); return; case 2: R = sub(R, rd(ea), s.P & 1); return;
      case 3: if (pre) sub16(pre == 0x10 ? D() : s.U, rd2(ea)); else if (b) setD(add16(D(), rd2(ea))); else setD(sub16(D(), rd2(ea))); return;
      case 4: nz8(R &= rd(ea)); break; case 5: nz8(R & rd(ea)); break; case 6: nz8(R = rd(ea)); break; case 7: wr(ea, R); nz8(R); break;
      case 8: nz8(R ^= rd(ea)); break; case 9: R = add(R, rd(ea), s.P & 1); return; case 10: nz8(R |= rd(ea)); break; case 11: R = add(R, rd(ea), 0); return;
      case 12: if (b) { setD(rd2(ea)); nz16(D()); break; } sub16(pre == 0x10 ? s.Y : pre ? s.S : s.X, rd2(ea)); return;
      case 13: if (b) { wr2(ea, D()); nz16(D()); break; } push2(s.S, s.PC); s.PC = ea; return;
      case 14: { U16 v = rd2(ea); nz16(v); U16 &T = b ? (pre ? s.S : s.U) : pre ? s.Y : s.X; T = v; break; }
      default: { U16 v = b ? (pre ? s.S : s.U) : pre ? s.Y : s.X; wr2(ea, v); nz16(v); } }
    fl(fV, 0); return; }
  if (o == 0x3f) { pushall(); if (!pre) s.P |= fI | fF; s.PC = rd2(pre == 0 ? 0xfffa : pre == 0x10 ? 0xfff4 : 0xfff2); return; }
  if (o >= 0x20 && o < 0x30) { U16 d; if (pre) d = f2(); else d = (signed char)f1(); if (cond(o & 15)) s.PC += d; return; }
  if (o >= 0x40 || o < 0x10) { int n = o & 15, m = o >> 4;
    if (m == 4) { s.A = rmw(n, s.A); return; } if (m == 5) { s.B = rmw(n, s.B); return; }
    U16 ea = m == 0 ? s.DP << 8 | f1() : m == 6 ? indexed() : f2(); if (n == 14) { s.PC = ea; return; }
    U8 r = rmw(n, n == 15 ? 0 : rd(ea)); if (n != 13) wr(ea, r); return; }
  switch (o) {
    case 0x12: return; case 0x13: halt = 1; return; case 0x16: { U16 d = f2(); s.PC += d; return; } case 0x17: { U16 d = f2(); push2(s.S, s.PC); s.PC += d; return; }
    case 0x19: { U8 a = s.A, hi = a >> 4, lo = a & 15, c = 0; bool cy = (s.P & fC) || hi > 9 || (hi > 8 && lo > 9); if (lo > 9 || (s.P & fH)) c = 6; if (cy) c += 0x60; s.A = a + c; nz8(s.A); if (a + c > 255) s.P |= fC; undefF = fV; return; }
    case 0x1a: s.P |= f1(); return; case 0x1c: s.P &= f1(); return; case 0x1d: s.A = s.B & 0x80 ? 0xff : 0; nz16(D()); return;
    case 0x1e: { U8 p = f1(); int a = p >> 4, b = p & 15; sym_assume(regok(a) && regok(b) && !((a ^ b) & 8)); U16 x = getr(a), y = getr(b); setr(a, y); setr(b, x); return; }
    case 0x1f: { U8 p = f1(); int a = p >> 4, b = p & 15; sym_assume(regok(a) && regok(b) && !((a ^ b) & 8)); setr(b, getr(a)); return; }
    case 0x30: { U16 e = indexed(); s.X = e; fl(fZ, !e); return; } case 0x31: { U16 e = indexed(); s.Y = e; fl(fZ, !e); return; } case 0x32: { U16 e = indexed(); s.S = e; return; } case 0x33: { U16 e = indexed(); s.U = e; return; }
    case 0x34: case 0x36: { U8 p = f1(); U16 &R = o == 0x34 ? s.S : s.U; U16 Q = o == 0x34 ? s.U : s.S; if (p & 0x80) push2(R, s.PC); if (p & 0x40) push2(R, Q); if (p & 0x20) push2(R, s.Y); if (p & 0x10) push2(R, s.X); if (p & 8) push(R, s.DP); if (p & 4) push(R, s.B); if (p & 2) push(R, s.A); if (p & 1) push(R, s.P); return; }
    case 0x35: case 0x37: { U8 p = f1(); U16 &R = o == 0x35 ? s.S : s.U; U16 &Q = o == 0x35 ? s.U : s.S; if (p & 1) s.P = pop(R); if (p & 2) s.A = pop(R); if (p & 4) s.B = pop(R); if (p & 8) s.DP = pop(R); if (p & 0x10) s.X = pop2(R); if (p & 0x20) s.Y = pop2(R); if (p & 0x40) Q = pop2(R); if (p & 0x80) s.PC = pop2(R); return; }
    case 0x39: s.PC = pop2(s.S); return; case 0x3a: s.X += s.B; return;
    case 0x3b: s.P = pop(s.S); if (s.P & fE) { s.A = pop(s.S); s.B = pop(s.S); s.DP = pop(s.S); s.X = pop2(s.S); s.Y = pop2(s.S); s.U = pop2(s.S); } s.PC = pop2(s.S); return;
    case 0x3c: s.P &= f1(); pushall(); halt = 1; return;
    case 0x3d: { U16 r = s.A * s.B; setD(r); fl(fZ, !r); fl(fC, r & 0x80); return; } } }
static int ops[400], n;
static bool valid(int o) {
  if (o >= 0x80) { int k = o & 15, m = o >> 4 & 3; bool b = o & 0x40; if (k == 7 || k == 15) return m; if (k == 13) return !b || m; return true; }
  if (o >= 0x40 || o < 0x10) { int k = o & 15; return k != 1 && k != 2 && k != 5 && k != 11 && (k != 14 || o >= 0x60 || o < 0x10); }
  if (o >= 0x20 && o < 0x30) return true;
  switch (o) { case 0x10: case 0x11: case 0x14: case 0x15: case 0x18: case 0x1b: case 0x38: case 0x3e: return false; } return true; }
static bool isix(int o) { if (o > 255) return o & 0x80 && (o & 0x30) == 0x20; if (o >= 0x80) return (o & 0x30) == 0x20; return (o & 0xf0) == 0x60 || (o & 0xfc) == 0x30; }
extern "C" void sym_setup(void) {
  z = (cl_m6809 *)mk_sim<cl_simm6809>(cpus_m6809, "M6809");
  plain(z->rom, 0, 0xffff); z->reset();
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
  M.attach(chip_of(z->rom), "mem", 0x10000);
  for (int o = 0; o < 256; o++) if (valid(o)) ops[n++] = o;
  for (int o = 0x21; o < 0x30; o++) ops[n++] = 0x1000 | o;
  for (int o : {0x3f, 0x83, 0x93, 0xa3, 0xb3, 0x8c, 0x9c, 0xac, 0xbc, 0x8e, 0x9e, 0xae, 0xbe, 0x9f, 0xaf, 0xbf, 0xce, 0xde, 0xee, 0xfe, 0xdf, 0xef, 0xff}) ops[n++] = 0x1000 | o;
  for (int o : {0x3f, 0x83, 0x93, 0xa3, 0xb3, 0x8c, 0x9c, 0xac, 0xbc}) ops[n++] = 0x1100 | o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, ops[c] > 255 ? "op_%04x" : "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U16 pc = SYM16("pc"), p = pc; if (o > 255) { z->rom->set(p, o >> 8); M[p] = o >> 8; p++; } z->rom->set(p, o & 255); M[p] = o & 255;
  if (isix(o)) { U8 k = SYM8("post"); sym_assume(ixok(k)); U8 v = sym_fork(k & 0x80 ? k : k & 0xf0); if (!(v & 0x80)) v |= k & 15; U16 q = p + 1; z->rom->set(q, v); M[q] = v; }
  s.A = SYM8("a"); s.B = SYM8("b"); s.P = SYM8("cc"); s.DP = SYM8("dp"); s.X = SYM16("x"); s.Y = SYM16("y"); s.U = SYM16("u"); s.S = SYM16("s"); s.PC = pc;
  z->PC = z->instPC = pc; z->reg.acc.a8.rA = s.A; z->reg.acc.a8.rB = s.B; z->reg.CC = s.P; z->reg.DP = s.DP; z->reg.X = s.X; z->reg.Y = s.Y; z->reg.U = s.U; z->reg.S = s.S; z->inst_ticks = 0;
  step();
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->reg.S == s.S, "S"); REQ(z->reg.U == s.U, "U"); REQ(z->reg.X == s.X, "X"); REQ(z->reg.Y == s.Y, "Y"); REQ(z->reg.DP == s.DP, "DP");
  REQ(z->reg.acc.a8.rA == s.A, "A"); REQ(z->reg.acc.a8.rB == s.B, "B");
  U8 cc = z->reg.CC, f = (cc ^ s.P) & ~undefF; REQ(!(f & (fE | fF)), "flags E and F"); REQ(!(f & fH), "flag H"); REQ(!(f & fI), "flag I"); REQ(!(f & fN), "flag N"); REQ(!(f & fZ), "flag Z"); REQ(!(f & fV), "flag V"); REQ(!(f & fC), "flag C");
  REQ((z->state == stIDLE) == !!halt, "only SYNC and CWAI wait for an interrupt");
  sym_observe("pc", z->PC); sym_observe("a", z->reg.acc.a8.rA); sym_observe("cc", cc); sym_observe("s", z->reg.S);
  M.same("memory");
}
