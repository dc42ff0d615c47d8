// ST7: every documented instruction and addressing mode against a model of the ST7 programming manual.
#include "isa_common.h"
#include "simst7cl.h"
#include "st7cl.h"
#include "glob.h"
static cl_st7 *z; static RefMem<U8> M;
enum { fH = 0x10, fI = 8, fN = 4, fZ = 2, fC = 1 };
static struct { U8 A, X, Y, P; U16 S, PC; } s;
static U8 rd(U16 a) { return M[a]; } static void wr(U16 a, U8 v) { M[a] = v; }
static U16 rd2(U16 a) { return rd(a) << 8 | rd(a + 1); }
static U8 f1() { return rd(s.PC++); } static U16 f2() { U16 v = f1(); return v << 8 | f1(); }
static void push(U8 v) { wr(s.S, v); s.S--; } static U8 pop() { s.S++; return rd(s.S); }
static void push2(U16 v) { push(v); push(v >> 8); } static U16 pop2() { U16 v = pop(); return v << 8 | pop(); }
static void fl(U8 f, bool on) { if (on) s.P |= f; else s.P &= ~f; }
static void nz(U8 v) { fl(fN, v & 0x80); fl(fZ, !v); }
static U8 add(U8 a, U8 b, int c) { int r = a + b + c; nz(r); fl(fC, r > 255); fl(fH, (a & 15) + (b & 15) + c > 15); return r; }
static U8 sub(U8 a, U8 b, int c) { int r = a - b - c; nz(r); fl(fC, r < 0); return r; }
static bool cond(int n) { bool c = s.P & fC, zf = s.P & fZ, ng = s.P & fN, r; switch (n >> 1) {
  case 0: r = true; break; case 1: r = !(c || zf); break; case 2: r = !c; break; case 3: r = !zf; break; case 4: r = !(s.P & fH); break; case 5: r = !ng; break; default: r = !(s.P & fI); } return r != (n & 1); }
static U8 rmw(int n, U8 v) { U8 r, c = s.P & fC; switch (n) {
  case 0: r = -v; nz(r); fl(fC, r != 0); return r;
  case 3: r = ~v; nz(r); fl(fC, 1); return r;
  case 4: r = v >> 1; nz(r); fl(fC, v & 1); return r;
  case 6: r = v >> 1 | c << 7; nz(r); fl(fC, v & 1); return r;
  case 7: r = v >> 1 | (v & 0x80); nz(r); fl(fC, v & 1); return r;
  case 8: r = v << 1; nz(r); fl(fC, v & 0x80); return r;
  case 9: r = v << 1 | c; nz(r); fl(fC, v & 0x80); return r;
  case 10: r = v - 1; nz(r); return r; case 12: r = v + 1; nz(r); return r; case 13: nz(v); return v;
  case 14: r = v << 4 | v >> 4; nz(r); return r;
  default: nz(0); return 0; } }
static void rel(bool t, U8 o) { if (t) s.PC += (signed char)o; }
static void step() {
  int pre = 0, o = f1(); if (o >= 0x90 && o <= 0x92) { pre = o; o = f1(); }
  bool y = pre == 0x90 || pre == 0x91, ind = pre == 0x91 || pre == 0x92; U8 &X = y ? s.Y : s.X; U16 ea;
  if (o < 0x20) { ea = f1(); if (ind) ea = rd(ea); U8 b = 1 << (o >> 1 & 7), v = rd(ea);
    if (o < 0x10) { U8 r = f1(); bool set = v & b; fl(fC, set); rel(set != (o & 1), r); } else wr(ea, o & 1 ? v & ~b : v | b); return; }
  if (o < 0x30) { U8 r = f1(); if (ind) r = rd(r); rel(cond(o & 15), r); return; }
  if (o < 0x80) { int n = o & 15, m = o >> 4;
    if (n == 2) { U16 r = s.A * X; s.A = r; X = r >> 8; fl(fC | fH, 0); return; }
    if (m == 4) { s.A = rmw(n, s.A); return; } if (m == 5) { X = rmw(n, X); return; }
    if (m == 7) ea = X; else { ea = f1(); if (ind) ea = rd(ea); if (m == 6) ea += X; }
    U8 r = rmw(n, n == 15 ? 0 : rd(ea)); if (n != 13) wr(ea, r); return; }
  if (o < 0xa0) switch (o) {
    case 0x80: s.P = pop(); s.A = pop(); s.X = pop(); s.PC = pop2(); return; case 0x81: s.PC = pop2(); return;
    case 0x83: push2(s.PC); push(s.X); push(s.A); push(s.P); fl(fI, 1); s.PC = rd2(0xfffc); return;
    case 0x84: s.A = pop(); return; case 0x85: X = pop(); return; case 0x86: s.P = pop(); return; case 0x88: push(s.A); return; case 0x89: push(X); return; case 0x8a: push(s.P); return;
    case 0x93: if (y) s.Y = s.X; else s.X = s.Y; return; case 0x96: X = s.S; return; case 0x97: X = s.A; return; case 0x98: fl(fC, 0); return; case 0x99: fl(fC, 1); return; case 0x9a: fl(fI, 0); return; case 0x9b: fl(fI, 1); return;
    case 0x9c: s.S = 0x17f; return; case 0x9d: return; case 0x9e: s.A = s.S; return; case 0x9f: s.A = X; return; }
  if (o == 0xad) { U8 r = f1(); if (ind) r = rd(r); push2(s.PC); rel(true, r); return; }
  switch (o >> 4) { case 0xa: ea = s.PC++; break; case 0xb: ea = f1(); if (ind) ea = rd(ea); break; case 0xc: if (ind) ea = rd2(f1()); else ea = f2(); break;
    case 0xd: if (ind) ea = rd2(f1()); else ea = f2(); ea += X; break; case 0xe: ea = f1(); if (ind) ea = rd(ea); ea += X; break; default: ea = X; }
  switch (o & 15) {
    case 0: s.A = sub(s.A, rd(ea), 0); return; case 1: sub(s.A, rd(ea), 0); return; case 2: s.A = sub(s.A, rd(ea), s.P & 1); return; case 3: sub(X, rd(ea), 0); return;
    case 4: nz(s.A &= rd(ea)); return; case 5: nz(s.A & rd(ea)); return; case 6: nz(s.A = rd(ea)); return; case 7: wr(ea, s.A); nz(s.A); return;
    case 8: nz(s.A ^= rd(ea)); return; case 9: s.A = add(s.A, rd(ea), s.P & 1); return; case 10: nz(s.A |= rd(ea)); return; case 11: s.A = add(s.A, rd(ea), 0); return;
    case 12: s.PC = ea; return; case 13: push2(s.PC); s.PC = ea; return; case 14: nz(X = rd(ea)); return; default: wr(ea, X); nz(X); return; }
}
static int ops[1000], n;
extern "C" void sym_setup(void) {
  z = (cl_st7 *)mk_sim<cl_simst7>(cpus_st7, 0);
  plain((cl_address_space *)z->rom, 0, 0xffff); z->it_sources->disconn_all(); z->reset(); z->regs.VECTOR = 0;
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  M.attach(chip_of(z->rom), "mem", 0x10000);
  static const int pr[] = { 0, 0x90, 0x91, 0x92 };
  for (int p : pr) for (int o = 0; o < 256; o++) { int k = o & 15, m = o >> 4; bool ok;
    if (m < 2) ok = p == 0 || p == 0x92; else if (m == 2) ok = k < 14 && (p == 0 || p == 0x92);
    else if (m < 8) { ok = k != 1 && k != 5 && k != 11 && k != 2; if (o == 0x42) ok = true; if (m == 4) ok = ok && (p == 0 || (o == 0x42 && p == 0x90)); else if (m == 3) ok = ok && (p == 0 || p == 0x92); else if (m == 5 || m == 7) ok = ok && p <= 0x90; }
    else if (m < 10) { ok = o == 0x80 || o == 0x81 || (o >= 0x83 && o <= 0x86) || (o >= 0x88 && o <= 0x8a) || o == 0x93 || (o >= 0x96 && o <= 0x9f); if (p) ok = p == 0x90 && (o == 0x85 || o == 0x89 || o == 0x93 || o == 0x96 || o == 0x97 || o == 0x9f); }
    else { bool xy = k == 3 || k == 14 || k == 15; ok = m > 10 || (k != 7 && k != 12 && k != 15); if (o == 0xad) ok = p == 0 || p == 0x92; else if (m == 10) ok = ok && (p == 0 || (p == 0x90 && xy)); else if (m < 13) ok = ok && (p == 0 || p == 0x92 || xy); else if (m == 15) ok = ok && p <= 0x90; }
    if (ok) ops[n++] = p << 8 | o; }
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, ops[c] > 255 ? "op_%04x" : "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U16 pc = SYM16("pc"), p = pc; if (o > 255) { z->rom->set(p, o >> 8); M[p] = o >> 8; p++; } z->rom->set(p, o & 255); M[p] = o & 255;
  s.A = SYM8("a"); s.P = SYM8("cc"); s.X = SYM8("x"); s.Y = SYM8("y"); s.S = SYM16("sp"); s.PC = pc; sym_assume(s.S >= 0x107 && s.S < 0x1f8);
  z->PC = z->instPC = pc; z->regs.A = s.A; z->regs.CC = s.P; z->regs.X = s.X; z->regs.Y = s.Y; z->regs.SP = s.S;
  step();
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->regs.SP == s.S, "SP"); REQ(z->regs.A == s.A, "A"); REQ(z->regs.X == s.X, "X"); REQ(z->regs.Y == s.Y, "Y");
  U8 cc = z->regs.CC, f = cc ^ s.P; REQ(!(f & fH), "flag H"); REQ(!(f & fI), "flag I"); REQ(!(f & fN), "flag N"); REQ(!(f & fZ), "flag Z"); REQ(!(f & fC), "flag C"); REQ(!(f & 0xe0), "other bits of CC");
  sym_observe("pc", z->PC); sym_observe("a", z->regs.A); sym_observe("cc", cc); sym_observe("sp", z->regs.SP);
  M.same("memory");
}
