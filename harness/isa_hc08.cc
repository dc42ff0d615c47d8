// Motorola HC08 (V=0), HCS08 (V=1), 9S08 with CALL/RTC (V=2): every documented instruction against a model of the CPU08 / HCS08 reference manuals.
// Peripherals (memory management unit, bank selector) are detached and the whole 64K is one plain memory.
#include "isa_common.h"
#ifndef V
#define V 0
#endif
#include "simm68hc08cl.h"
#include "m68hc08cl.h"
#include "glob.h"
static cl_hc08 *z; static RefMem<U8> M;
enum { fV = 0x80, fH = 0x10, fI = 8, fN = 4, fZ = 2, fC = 1 };
static struct { U8 A, P, H, X; U16 S, PC; } s; static U8 undefF;
static U8 rd(U16 a) { return M[a]; } static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd2(U16 a) { return rd(a) << 8 | rd(a + 1); }
static U8 f1() { return rd(s.PC++); } static U16 f2() { U16 v = f1(); return v << 8 | f1(); }
static void push(U8 v) { wr(s.S, v); s.S--; } static U8 pop() { s.S++; return rd(s.S); }
static void push2(U16 v) { push(v); push(v >> 8); } static U16 pop2() { U16 v = pop(); return v << 8 | pop(); }
static void fl(U8 f, bool on) { if (on) s.P |= f; else s.P &= ~f; }
static U16 HX() { return s.H << 8 | s.X; } static void setHX(U16 v) { s.H = v >> 8; s.X = v; }
static void nz(U8 v) { fl(fN, v & 0x80); fl(fZ, !v); fl(fV, 0); }
static U8 add(U8 a, U8 b, int c) { int r = a + b + c; nz(r); fl(fC, r > 255); fl(fV, (a ^ r) & (b ^ r) & 0x80); fl(fH, (a & 15) + (b & 15) + c > 15); return r; }
static U8 sub(U8 a, U8 b, int c) { int r = a - b - c; nz(r); fl(fC, r < 0); fl(fV, (a ^ b) & (a ^ r) & 0x80); return r; }
static bool cond(int n) { bool c = s.P & fC, zf = s.P & fZ, ng = s.P & fN, r; switch (n >> 1) {
  case 0: r = true; break; case 1: r = !(c || zf); break; case 2: r = !c; break; case 3: r = !zf; break; case 4: r = !(s.P & fH); break; case 5: r = !ng; break; default: r = !(s.P & fI); } return r != (n & 1); }
static U8 rmw(int n, U8 v) { U8 r, c = s.P & fC; switch (n) {
  case 0: r = -v; nz(r); fl(fC, r != 0); fl(fV, r == 0x80); return r;
  case 3: r = ~v; nz(r); fl(fC, 1); return r;
  case 4: r = v >> 1; nz(r); fl(fC, v & 1); fl(fV, v & 1); return r;
  case 6: r = v >> 1 | c << 7; nz(r); fl(fC, v & 1); fl(fV, !!(r & 0x80) != !!(v & 1)); return r;
  case 7: r = v >> 1 | (v & 0x80); nz(r); fl(fC, v & 1); fl(fV, !!(r & 0x80) != !!(v & 1)); return r;
  case 8: r = v << 1; nz(r); fl(fC, v & 0x80); fl(fV, (r ^ v) & 0x80); return r;
  case 9: r = v << 1 | c; nz(r); fl(fC, v & 0x80); fl(fV, (r ^ v) & 0x80); return r;
  case 10: r = v - 1; nz(r); fl(fV, v == 0x80); return r;
  case 12: r = v + 1; nz(r); fl(fV, v == 0x7f); return r;
  case 13: nz(v); return v;
  default: nz(0); return 0; } }
static void rel(bool t) { signed char r = f1(); if (t) s.PC += r; }
static void hxfl(U16 v) { fl(fV, 0); fl(fN, v & 0x8000); fl(fZ, !v); }
static void cphx(U16 b) { U16 a = HX(), r = a - b; fl(fN, r & 0x8000); fl(fZ, !r); fl(fC, a < b); fl(fV, (a ^ b) & (a ^ r) & 0x8000); }
static void sthx(U16 ea) { wr(ea, s.H); wr(ea + 1, s.X); hxfl(HX()); }
static void step() {
  undefF = 0; int o = f1(); bool sp = false; U16 ea; if (o == 0x9e) { sp = true; o = f1(); }
  U16 I = sp ? s.S : HX();
  if (sp) switch (o) {
    case 0xae: setHX(rd2(HX())); hxfl(HX()); return; case 0xbe: ea = HX() + f2(); setHX(rd2(ea)); hxfl(HX()); return; case 0xce: ea = HX() + f1(); setHX(rd2(ea)); hxfl(HX()); return;
    case 0xfe: setHX(rd2(s.S + f1())); hxfl(HX()); return; case 0xff: sthx(s.S + f1()); return; case 0xf3: cphx(rd2(s.S + f1())); return; }
  if (o < 0x10) { U8 v = rd(f1()), b = 1 << (o >> 1 & 7); bool set = v & b; fl(fC, set); rel(set != (o & 1)); return; }
  if (o < 0x20) { ea = f1(); U8 b = 1 << (o >> 1 & 7); wr(ea, o & 1 ? rd(ea) & ~b : rd(ea) | b); return; }
  if (o < 0x30) { rel(cond(o & 15)); return; }
  if (o < 0x80) { int n = o & 15, m = o >> 4;
    switch (o) {
      case 0x32: setHX(rd2(f2())); hxfl(HX()); return; case 0x35: sthx(f1()); return; case 0x3e: cphx(rd2(f2())); return;
      case 0x42: { U16 r = s.A * s.X; s.A = r; s.X = r >> 8; fl(fC | fH, 0); return; }
      case 0x45: setHX(f2()); hxfl(HX()); return; case 0x55: setHX(rd2(f1())); hxfl(HX()); return;
      case 0x52: { U16 d = s.H << 8 | s.A; bool ovf = s.H >= s.X; fl(fC, ovf); if (ovf) { undefF = fZ; return; } s.A = d / s.X; s.H = d % s.X; fl(fZ, !s.A); return; }
      case 0x62: s.A = s.A >> 4 | s.A << 4; return; case 0x65: cphx(f2()); return; case 0x75: cphx(rd2(f1())); return;
      case 0x72: { U8 a = s.A, c = 0; bool cy = (s.P & fC) || a > 0x99; if ((a & 15) > 9 || (s.P & fH)) c = 6; if (cy) c += 0x60; s.A = a + c; nz(s.A); fl(fC, cy); undefF = fV; return; }
      case 0x4e: { U8 v = rd(f1()); wr(f1(), v); nz(v); return; } case 0x5e: { U8 v = rd(f1()); wr(HX(), v); setHX(HX() + 1); nz(v); return; }
      case 0x6e: { U8 v = f1(); wr(f1(), v); nz(v); return; } case 0x7e: { U8 v = rd(HX()); wr(f1(), v); setHX(HX() + 1); nz(v); return; } }
    if (n == 1) { bool e; switch (m) { case 3: e = rd(f1()) == s.A; break; case 4: e = f1() == s.A; break; case 5: e = f1() == s.X; break; case 6: e = rd(f1() + I) == s.A; if (!sp) { rel(e); setHX(HX() + 1); return; } break; default: e = rd(I) == s.A; rel(e); setHX(HX() + 1); return; } rel(e); return; }
    if (n == 11) { U8 v; switch (m) { case 4: v = --s.A; break; case 5: v = --s.X; break; default: ea = m == 3 ? f1() : m == 6 ? f1() + I : I; v = rd(ea) - 1; wr(ea, v); } rel(v != 0); return; }
    if (m == 4) { s.A = rmw(n, s.A); return; } if (m == 5) { s.X = rmw(n, s.X); return; }
    ea = m == 3 ? f1() : m == 6 ? f1() + I : I; U8 r = rmw(n, rd(ea)); if (n != 13) wr(ea, r); return; }
  if (o < 0xa0) switch (o) {
    case 0x80: s.P = pop() | 0x60; s.A = pop(); s.X = pop(); s.PC = pop2(); return; case 0x81: s.PC = pop2(); return;
    case 0x83: push2(s.PC); push(s.X); push(s.A); push(s.P); fl(fI, 1); s.PC = rd2(0xfffc); return;
    case 0x84: s.P = s.A | 0x60; return; case 0x85: s.A = s.P; return; case 0x86: s.A = pop(); return; case 0x87: push(s.A); return; case 0x88: s.X = pop(); return; case 0x89: push(s.X); return; case 0x8a: s.H = pop(); return; case 0x8b: push(s.H); return;
    case 0x8c: s.H = 0; nz(0); return; case 0x8d: { U8 p = pop(); s.PC = pop2(); wr(0x78, p); return; }
    case 0x90: case 0x91: rel((!(s.P & fN) == !(s.P & fV)) != (o & 1)); return; case 0x92: case 0x93: rel((!(s.P & fZ) && !(s.P & fN) == !(s.P & fV)) != (o & 1)); return;
    case 0x94: s.S = HX() - 1; return; case 0x95: setHX(s.S + 1); return; case 0x96: sthx(f2()); return; case 0x97: s.X = s.A; return; case 0x9f: s.A = s.X; return;
    case 0x98: fl(fC, 0); return; case 0x99: fl(fC, 1); return; case 0x9a: fl(fI, 0); return; case 0x9b: fl(fI, 1); return; case 0x9c: s.S |= 0xff; return; case 0x9d: return; }
  if (o == 0xa7) { s.S += (signed char)f1(); return; } if (o == 0xaf) { setHX(HX() + (signed char)f1()); return; } if (o == 0xad) { signed char r = f1(); push2(s.PC); s.PC += r; return; }
  if (o == 0xac) { U8 p = f1(); ea = f2(); push2(s.PC); push(rd(0x78)); wr(0x78, p); s.PC = ea; return; }
  switch (o >> 4) { case 0xa: ea = s.PC++; break; case 0xb: ea = f1(); break; case 0xc: ea = f2(); break; case 0xd: ea = f2() + I; break; case 0xe: ea = f1() + I; break; default: ea = I; }
  switch (o & 15) {
    case 0: s.A = sub(s.A, rd(ea), 0); return; case 1: sub(s.A, rd(ea), 0); return; case 2: s.A = sub(s.A, rd(ea), s.P & 1); return; case 3: sub(s.X, rd(ea), 0); return;
    case 4: nz(s.A &= rd(ea)); return; case 5: nz(s.A & rd(ea)); return; case 6: nz(s.A = rd(ea)); return; case 7: wr(ea, s.A); nz(s.A); return;
    case 8: nz(s.A ^= rd(ea)); return; case 9: s.A = add(s.A, rd(ea), s.P & 1); return; case 10: nz(s.A |= rd(ea)); return; case 11: s.A = add(s.A, rd(ea), 0); return;
    case 12: s.PC = ea; return; case 13: push2(s.PC); s.PC = ea; return; case 14: nz(s.X = rd(ea)); return; default: wr(ea, s.X); nz(s.X); return; }
}
static int ops[600], n;
static bool valid(int o) {
  if (o < 0x2e) return true; if (o < 0x30) return false;
  if (o < 0x80) { int k = o & 15; if (o == 0x32 || o == 0x3e) return V > 0; if (k == 2) return true; if (k == 5) return true; if (k == 14) return true; return true; }
  if (o < 0xa0) return o == 0x8d ? V == 2 : o == 0x96 ? V > 0 : o != 0x82 && o != 0x8e && o != 0x8f && o != 0x9e;
  return o == 0xac ? V == 2 : true; }
extern "C" void sym_setup(void) {
  z = (cl_hc08 *)mk_sim<cl_simm68hc08>(cpus_m68hc08, V == 0 ? "HC08" : V == 1 ? "HCS08" : "9S08");
  cl_memory_chip *c = chip_of(z->rom);
  for (int a = 0; a < 0x10000; a++) z->rom->cella[a].decode(c, a);
  plain(z->rom, 0, 0xffff); z->it_sources->disconn_all(); z->reset(); z->regs.VECTOR = 0;
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  M.attach(c, "mem", 0x10000);
  for (int o = 0; o < 256; o++) if (valid(o)) ops[n++] = o;
  for (int o : {0x60, 0x61, 0x63, 0x64, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6f}) ops[n++] = 0x9e00 | o;
  for (int o = 0xd0; o < 0xf0; o++) if ((o & 15) != 12 && (o & 15) != 13) ops[n++] = 0x9e00 | o;
  if (V) for (int o : {0xae, 0xbe, 0xce, 0xfe, 0xff, 0xf3}) ops[n++] = 0x9e00 | o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, ops[c] > 255 ? "op_%04x" : "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U16 pc = SYM16("pc"), p = pc; if (o > 255) { z->rom->set(p, o >> 8); M[p] = o >> 8; p++; } z->rom->set(p, o & 255); M[p] = o & 255;
  s.A = SYM8("a"); s.P = SYM8("ccr") | 0x60; s.H = SYM8("h"); s.X = SYM8("x"); s.S = SYM16("sp"); s.PC = pc;
  z->PC = z->instPC = pc; z->regs.A = s.A; z->regs.P = s.P; z->regs.H = s.H; z->regs.X = s.X; z->regs.SP = s.S;
  step();
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->regs.SP == s.S, "SP"); REQ(z->regs.A == s.A, "A"); REQ(z->regs.X == s.X, "X"); REQ(z->regs.H == s.H, "H");
  U8 cc = z->regs.P, f = (cc ^ s.P) & ~undefF; REQ(!(f & fH), "flag H"); REQ(!(f & fI), "flag I"); REQ(!(f & fN), "flag N"); REQ(!(f & fZ), "flag Z"); REQ(!(f & fV), "flag V"); REQ(!(f & fC), "flag C"); REQ((cc & 0x60) == 0x60, "unused bits of CCR read as one");
  sym_observe("pc", z->PC); sym_observe("a", z->regs.A); sym_observe("ccr", cc); sym_observe("sp", z->regs.SP);
  M.same("memory");
}
