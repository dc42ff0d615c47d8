// STM8: every documented instruction against a model of the programming manual (PM0044).
// The CPU is given a 256K address space of plain memory (peripherals and write protection detached).
#include "isa_common.h"
#include "glob.h"
#include "simstm8cl.h"
#include "stm8cl.h"
static cl_stm8 *z; static RefMem<U8> M; static cl_chip8 *chip;
enum { SZ = 0x40000, fC = 1, fZ = 2, fN = 4, fI0 = 8, fH = 0x10, fI1 = 0x20, fV = 0x80 };
static struct { U8 A, CC; U16 X, Y, S; U32 PC; } s;
static U8 undefF; static bool noRes, roll;
static U8 rd(U32 a) { sym_assume(a < SZ); return M[a]; } static void wr(U32 a, U8 v) { sym_assume(a < SZ); M[a] = v; }
static U16 rd2(U32 a) { U16 h = rd(a); return h << 8 | rd(a + 1); } static void wr2(U32 a, U16 v) { wr(a, v >> 8); wr(a + 1, v); }
static U32 rd3(U32 a) { U32 h = rd2(a); return h << 8 | rd(a + 2); }
static U8 f1() { U8 v = M[s.PC]; s.PC = (s.PC + 1) & (SZ - 1); return v; } static U16 f2() { U16 h = f1(); return h << 8 | f1(); } static U32 f3() { U32 h = f2(); return h << 8 | f1(); }
static void push(U8 v) { wr(s.S, v); s.S--; if (roll && s.S == 0x14ff) s.S = 0x17ff; }
static U8 pop() { sym_assume(s.S != 0x14fe); s.S++; return rd(s.S); }
static void push2(U16 v) { push(v); push(v >> 8); } static U16 pop2() { U16 h = pop(); return h << 8 | pop(); }
static void fl(U8 f, bool on) { if (on) s.CC |= f; else s.CC &= ~f; }
static void nz8(U8 v) { fl(fN, v & 0x80); fl(fZ, !v); } static void nz16(U16 v) { fl(fN, v & 0x8000); fl(fZ, !v); }
static U8 add(U8 a, U8 b, int c) { int r = a + b + c; nz8(r); fl(fC, r > 255); fl(fV, (a ^ r) & (b ^ r) & 0x80); fl(fH, (a & 15) + (b & 15) + c > 15); return r; }
static U8 sub(U8 a, U8 b, int c) { int r = a - b - c; nz8(r); fl(fC, r < 0); fl(fV, (a ^ b) & (a ^ r) & 0x80); return r; }
static U16 addw(U16 a, U16 b) { U32 r = (U32)a + b; nz16(r); fl(fC, r > 0xffff); fl(fV, (a ^ r) & (b ^ r) & 0x8000); fl(fH, (a & 255) + (b & 255) > 255); return r; }
static U16 cmpw(U16 a, U16 b) { U16 r = a - b; nz16(r); fl(fC, a < b); fl(fV, (a ^ b) & (a ^ r) & 0x8000); return r; }
static U16 subw(U16 a, U16 b) { fl(fH, (a & 255) < (b & 255)); return cmpw(a, b); }
// effective address of the group with high nibble m (1, b..f) and prefix p; iy: which index register an unprefixed form uses is X
static U32 ea(int m, int p) {
  U16 I = p == 0x90 || p == 0x91 ? s.Y : s.X;
  switch (m) {
    case 1: return f1() + (U32)s.S;
    case 0xb: return f1();
    case 0xc: if (p == 0x72) return rd2(f2()); if (p == 0x92 || p == 0x91) return rd2(f1()); return f2();
    case 0xd: if (p == 0x72) return rd2(f2()) + (U32)I; if (p == 0x92 || p == 0x91) return rd2(f1()) + (U32)I; return f2() + (U32)I;
    case 0xe: return f1() + (U32)I;
    default: return I; } }
static U8 rmw8(int n, U8 v) { U8 c = s.CC & fC, r; switch (n) {
  case 0: r = -v; nz8(r); fl(fC, r != 0); fl(fV, r == 0x80); return r;
  case 3: r = ~v; nz8(r); fl(fC, 1); return r;
  case 4: r = v >> 1; nz8(r); fl(fC, v & 1); return r;
  case 6: r = v >> 1 | c << 7; nz8(r); fl(fC, v & 1); return r;
  case 7: r = v >> 1 | (v & 0x80); nz8(r); fl(fC, v & 1); return r;
  case 8: r = v << 1; nz8(r); fl(fC, v & 0x80); return r;
  case 9: r = v << 1 | c; nz8(r); fl(fC, v & 0x80); return r;
  case 10: r = v - 1; nz8(r); fl(fV, v == 0x80); return r;
  case 12: r = v + 1; nz8(r); fl(fV, v == 0x7f); return r;
  case 13: nz8(v); return v;
  case 14: r = v << 4 | v >> 4; nz8(r); return r;
  default: fl(fN, 0); fl(fZ, 1); return 0; } }
static U16 rmw16(int n, U16 v) { U16 c = s.CC & fC, r; switch (n) {
  case 0: r = -v; nz16(r); fl(fC, r != 0); fl(fV, r == 0x8000); return r;
  case 3: r = ~v; nz16(r); fl(fC, 1); return r;
  case 4: r = v >> 1; nz16(r); fl(fC, v & 1); return r;
  case 6: r = v >> 1 | c << 15; nz16(r); fl(fC, v & 1); return r;
  case 7: r = v >> 1 | (v & 0x8000); nz16(r); fl(fC, v & 1); return r;
  case 8: r = v << 1; nz16(r); fl(fC, v & 0x8000); return r;
  case 9: r = v << 1 | c; nz16(r); fl(fC, v & 0x8000); return r;
  case 10: r = v - 1; nz16(r); fl(fV, v == 0x8000); return r;
  case 12: r = v + 1; nz16(r); fl(fV, v == 0x7fff); return r;
  case 13: nz16(v); return v;
  case 14: r = v << 8 | v >> 8; nz16(r); return r;
  default: fl(fN, 0); fl(fZ, 1); return 0; } }
static bool cond(int n) { bool c = s.CC & fC, v = s.CC & fV, q = s.CC & fZ, g = s.CC & fN, r; switch (n >> 1) {
  case 0: r = true; break; case 1: r = !(c || q); break; case 2: r = !c; break; case 3: r = !q; break; case 4: r = !v; break; case 5: r = !g; break; case 6: r = !(q || g != v); break; default: r = g == v; } return r != (n & 1); }
static void rel(bool t, signed char o) { if (t) s.PC = (s.PC + o) & 0xffffff; }
static void jump(U32 a) { sym_assume(a < 0x10000); s.PC = (s.PC & 0xff0000) | a; }
static void step() {
  undefF = 0x40; noRes = false; int p = 0, o = f1(); if (o == 0x72 || o == 0x90 || o == 0x91 || o == 0x92) { p = o; o = f1(); }
  int h = o >> 4, n = o & 15; U16 &W = p == 0x90 ? s.Y : s.X;
  if (p == 0x72 && h == 0) { U32 a = f2(); U8 v = rd(a); signed char r = f1(); bool b = v >> (n >> 1) & 1; fl(fC, b); rel(b != (n & 1), r); return; }
  if (p == 0x72 && h == 1) { U32 a = f2(); U8 v = rd(a), k = 1 << (n >> 1); wr(a, n & 1 ? v & ~k : v | k); return; }
  if (p == 0x90 && h == 1) { U32 a = f2(); U8 v = rd(a), k = 1 << (n >> 1); wr(a, n & 1 ? (s.CC & fC ? v | k : v & ~k) : v ^ k); return; }
  if (h == 2) { signed char r = f1(); bool t = p ? (n == 8 ? !(s.CC & fH) : n == 9 ? s.CC & fH : n == 12 ? (s.CC & (fI0 | fI1)) != (fI0 | fI1) : (s.CC & (fI0 | fI1)) == (fI0 | fI1)) : cond(n); rel(t, r); return; }
  if (p == 0x72 && (h == 0xa || h == 0xb || h == 0xf) && (n == 0 || n == 2 || n == 9 || n == 11)) { U16 &R = n == 9 || n == 2 ? s.Y : s.X; U16 v; if (h == 0xa) v = f2(); else if (h == 0xb) v = rd2(f2()); else v = rd2(s.S + (U32)f1()); R = n & 1 ? addw(R, v) : subw(R, v); return; }
  if (h >= 0xa || h == 1) {
    if (o == 0x1c) { U16 v = f2(); s.X = addw(s.X, v); return; } if (o == 0x1d) { U16 v = f2(); s.X = subw(s.X, v); return; }
    if (o == 0x17) { U32 a = ea(1, 0); wr2(a, s.Y); nz16(s.Y); return; } if (o == 0x16) { U32 a = ea(1, 0); s.Y = rd2(a); nz16(s.Y); return; }
    if (o == 0xa7) { U32 a; if (p == 0x92) a = rd3(f2()) + s.X; else if (p == 0x91) a = rd3(f2()) + s.Y; else { a = f3(); a += W; } wr(a, s.A); nz8(s.A); return; }
    if (o == 0xaf) { U32 a; if (p == 0x92) a = rd3(f2()) + s.X; else if (p == 0x91) a = rd3(f2()) + s.Y; else { a = f3(); a += W; } nz8(s.A = rd(a)); return; }
    if (o == 0xac) { s.PC = p ? rd3(f2()) : f3(); return; }
    if (o == 0xbc) { U32 a = p ? rd3(f2()) : f3(); nz8(s.A = rd(a)); return; } if (o == 0xbd) { U32 a = p ? rd3(f2()) : f3(); wr(a, s.A); nz8(s.A); return; }
    if (o == 0xad) { signed char r = f1(); push2(s.PC); rel(true, r); return; }
    if (n == 3) { U16 v; bool yreg; /* CPW */
      if (h == 0xa) { v = f2(); yreg = p == 0x90; } else { v = rd2(ea(h, p)); yreg = h >= 0xd ? !(p == 0x90 || p == 0x91) : p == 0x90 || p == 0x91; }
      cmpw(yreg ? s.Y : s.X, v); return; }
    if (n == 14) { U16 v = h == 0xa ? f2() : rd2(ea(h, p)); nz16(v); if (p == 0x90 || p == 0x91) s.Y = v; else s.X = v; return; }
    if (n == 15) { U32 a = ea(h, p); bool y = p == 0x90 || p == 0x91; if (h >= 0xd) y = !y; U16 v = y ? s.Y : s.X; wr2(a, v); nz16(v); return; }
    if (n == 12) { jump(ea(h, p)); return; } if (n == 13) { U32 a = ea(h, p); push2(s.PC); jump(a); return; }
    if (n == 7) { U32 a = ea(h, p); wr(a, s.A); nz8(s.A); return; }
    U8 v = h == 0xa ? f1() : rd(ea(h, p));
    switch (n) { case 0: s.A = sub(s.A, v, 0); return; case 1: sub(s.A, v, 0); return; case 2: s.A = sub(s.A, v, s.CC & 1); return; case 4: nz8(s.A &= v); return; case 5: nz8(s.A & v); return;
      case 6: nz8(s.A = v); return; case 8: nz8(s.A ^= v); return; case 9: s.A = add(s.A, v, s.CC & 1); return; case 10: nz8(s.A |= v); return; default: s.A = add(s.A, v, 0); return; } }
  if (h < 8 && n != 1 && n != 2 && n != 5 && n != 11) {
    if (h == 4 && !p) { s.A = rmw8(n, s.A); return; } if (h == 5 && p != 0x72) { W = rmw16(n, W); return; }
    U16 I = p == 0x90 || p == 0x91 ? s.Y : s.X; U32 a;
    switch (h) { case 0: a = f1() + (U32)s.S; break; case 3: a = p == 0x72 ? rd2(f2()) : p ? rd2(f1()) : f1(); break; case 4: a = f2() + (U32)I; break; case 5: a = f2(); break;
      case 6: a = p == 0x72 ? rd2(f2()) + (U32)I : p == 0x92 || p == 0x91 ? rd2(f1()) + (U32)I : f1() + (U32)I; break; default: a = I; }
    U8 r = rmw8(n, n == 15 ? 0 : rd(a)); if (n != 13) wr(a, r); return; }
  switch (o) {
    case 0x01: { U16 w = W; W = w >> 8 | s.A << 8; s.A = w; nz16(W); return; } case 0x02: { U16 w = W; W = w << 8 | s.A; s.A = w >> 8; nz16(W); return; }
    case 0x31: { U32 a = f2(); U8 v = rd(a); wr(a, s.A); s.A = v; return; } case 0x41: { U8 v = s.X; s.X = (s.X & 0xff00) | s.A; s.A = v; return; } case 0x61: { U8 v = s.Y; s.Y = (s.Y & 0xff00) | s.A; s.A = v; return; }
    case 0x51: { U16 v = s.X; s.X = s.Y; s.Y = v; return; }
    case 0x32: { U32 a = f2(); U8 v = pop(); wr(a, v); return; } case 0x3b: { U32 a = f2(); push(rd(a)); return; } case 0x4b: { U8 v = f1(); push(v); return; }
    case 0x42: W = (W & 255) * s.A; fl(fH | fC, 0); return; case 0x52: s.S -= f1(); return; case 0x5b: s.S += f1(); return;
    case 0x62: fl(fV | fH | fN, 0); if (!s.A) { fl(fC, 1); undefF |= fZ; noRes = true; return; } { U16 q = W / s.A; U8 r = W % s.A; W = q; s.A = r; fl(fZ, !q); fl(fC, 0); } return;
    case 0x65: fl(fV | fH | fN, 0); if (!s.Y) { fl(fC, 1); undefF |= fZ; noRes = true; return; } { U16 q = s.X / s.Y, r = s.X % s.Y; s.X = q; s.Y = r; fl(fZ, !q); fl(fC, 0); } return;
    case 0x35: { U8 v = f1(); U32 a = f2(); wr(a, v); return; } case 0x45: { U8 v = rd(f1()); U32 a = f1(); wr(a, v); return; } case 0x55: { U8 v = rd(f2()); U32 a = f2(); wr(a, v); return; }
    case 0x6b: { U32 a = f1() + (U32)s.S; wr(a, s.A); nz8(s.A); return; } case 0x7b: { U32 a = f1() + (U32)s.S; nz8(s.A = rd(a)); return; }
    case 0x80: s.CC = pop(); s.A = pop(); s.X = pop2(); s.Y = pop2(); { U32 e = pop(); s.PC = e << 16 | pop2(); } return;
    case 0x81: s.PC = (s.PC & 0xff0000) | pop2(); return; case 0x82: s.PC = f3(); return;
    case 0x83: push2(s.PC); push(s.PC >> 16); push2(s.Y); push2(s.X); push(s.A); push(s.CC); s.CC |= fI0 | fI1; s.PC = 0x8004; return;
    case 0x84: s.A = pop(); return; case 0x85: W = pop2(); return; case 0x86: s.CC = pop(); return; case 0x87: { U32 e = pop(); s.PC = e << 16 | pop2(); return; }
    case 0x88: push(s.A); return; case 0x89: push2(W); return; case 0x8a: push(s.CC); return; case 0x8c: s.CC ^= fC; return;
    case 0x8d: { U32 a; if (p) { U32 q = f2(); sym_assume(!roll && s.S > 4 && (q > s.S || q + 5 < s.S)); /* pointer apart from the pushed bytes */ a = rd3(q); } else a = f3(); push2(s.PC); push(s.PC >> 16); s.PC = a; return; }
    case 0x93: if (p) s.Y = s.X; else s.X = s.Y; return; case 0x94: s.S = W; return; case 0x95: W = (W & 255) | s.A << 8; return; case 0x96: W = s.S; return; case 0x97: W = (W & 0xff00) | s.A; return;
    case 0x98: fl(fC, 0); return; case 0x99: fl(fC, 1); return; case 0x9a: fl(fI1, 1); fl(fI0, 0); return; case 0x9b: fl(fI1 | fI0, 1); return; case 0x9c: fl(fV, 0); return; case 0x9d: return;
    case 0x9e: s.A = W >> 8; return; case 0x9f: s.A = W; return; } }
static int ops[1000], n;
static bool valid(int p, int o) {
  int h = o >> 4, k = o & 15;
  if (p == 0x72 && h < 2) return true; if (p == 0x90 && h == 1) return true;
  if (h == 2) return !p || (p == 0x90 && (k == 8 || k == 9 || k == 12 || k == 13));
  if (p == 0x72 && (h == 0xa || h == 0xb || h == 0xf)) return (h == 0xa ? k == 9 || k == 2 : k == 9 || k == 2 || k == 11 || k == 0);
  if (h == 1) return !p;
  if (o == 0xa7 || o == 0xaf) return p != 0x72; if (o == 0xac || o == 0xbc || o == 0xbd || o == 0x8d) return !p || p == 0x92; if (o == 0xad) return !p;
  if (h >= 0xa) { if (k == 3 || k == 14 || k == 15) { if (h == 0xa) return !p || p == 0x90; if (h == 0xc) return true; if (h == 0xd) return true; return !p || p == 0x90; }
    if (h == 0xa) return !p; if (h == 0xb) return !p; if (h == 0xc) return !p || p == 0x72 || p == 0x92; if (h == 0xd) return true; return !p || p == 0x90; }
  if (h < 8 && k != 1 && k != 2 && k != 5 && k != 11) switch (h) { case 0: return !p; case 3: return !p || p == 0x72 || p == 0x92; case 4: return !p || p == 0x72 || p == 0x90; case 5: return !p || p == 0x72 || p == 0x90; case 6: return true; default: return !p || p == 0x90; }
  switch (o) { case 0x01: case 0x02: case 0x42: case 0x62: case 0x85: case 0x89: case 0x93: case 0x94: case 0x95: case 0x96: case 0x97: case 0x9e: case 0x9f: return !p || p == 0x90;
    case 0x05: case 0x0b: case 0x11: case 0x12: case 0x15: case 0x21: case 0x71: case 0x72: case 0x75: case 0x8b: case 0x8e: case 0x8f: case 0x90: case 0x91: case 0x92: return false; }
  return !p; }
static const U32 pcs[2] = {0x80fe, 0x1fe};
// control transfers run from an arbitrary PC, the others from code in the zero section's RAM and in ROM, crossing a page
static bool flow(int o) { if (o >> 8 == 0x92) return false; int p = o >> 8, h = o >> 4 & 15, k = o & 15; o &= 255; if (h == 2 || (p == 0x72 && h == 0)) return true; return o == 0x9d || o == 0x81 || o == 0x82 || o == 0x83 || o == 0x87 || o == 0x80 || o == 0x8d || o == 0xac || o == 0xad || (h >= 0xc && (k == 12 || k == 13)); }
extern "C" void sym_setup(void) {
  z = (cl_stm8 *)mk_sim<cl_simstm8>(cpus_stm8, "STM8S"); z->reset();
  chip = new cl_chip8("mem", SZ, 8); chip->init();
  z->rom = z->ram = new cl_address_space("rom", 0, SZ, 8); z->rom->init();
  cl_address_decoder *ad = new cl_address_decoder(z->rom, chip, 0, SZ - 1, 0); ad->init(); z->rom->decoders->add(ad); ad->activate(0);
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write");
  M.attach(chip, "mem", SZ);
  for (int p : {0, 0x72, 0x90, 0x91, 0x92}) for (int o = 0; o < 256; o++) if (valid(p, o)) ops[n++] = p << 8 | o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, ops[c] > 255 ? "op_%04x" : "op_%02x", ops[c]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U32 pc = flow(o) ? sym_int("pc", 18) : pcs[sym_int("where", 1)], p = pc; if (!flow(o)) pc = p = sym_fork(pc); sym_assume(pc < SZ - 6 && (pc & 0xffff) < 0xfffa); if (o > 255) { z->rom->set(p, o >> 8); M[p] = o >> 8; p = (p + 1) & (SZ - 1); } z->rom->set(p, o & 255); M[p] = o & 255;
  roll = SYM1("rollover"); z->cSP.set_rollover(roll);
  s.A = SYM8("a"); s.CC = SYM8("cc"); s.X = SYM16("x"); s.Y = SYM16("y"); s.S = SYM16("sp"); s.PC = pc;
  z->PC = z->instPC = pc; z->regs.A = s.A; z->regs.CC = s.CC; z->regs.X = s.X; z->regs.Y = s.Y; z->regs.SP = s.S; z->inst_ticks = 0;
  step();
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised");
  REQ(z->PC == s.PC, "PC"); REQ(z->regs.SP == s.S, "SP");
  if (!noRes) { REQ(z->regs.X == s.X, "X"); REQ(z->regs.Y == s.Y, "Y"); REQ(z->regs.A == s.A, "A"); }
  U8 cc = z->regs.CC, f = (cc ^ s.CC) & ~undefF; REQ(!(f & fH), "flag H"); REQ(!(f & (fI0 | fI1)), "interrupt level"); REQ(!(f & fN), "flag N"); REQ(!(f & fZ), "flag Z"); REQ(!(f & fV), "flag V"); REQ(!(f & fC), "flag C");
  sym_observe("pc", z->PC); sym_observe("a", z->regs.A); sym_observe("cc", cc); sym_observe("sp", z->regs.SP);
  M.same("memory");
}
