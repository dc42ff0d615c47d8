// Padauk FPPA cores (pdk13, pdk14, pdk15, pdk16): every instruction against a model of the architecture; V=4: several
// cores sharing one controller.
#include "isa_common.h"
#include "glob.h"
#include "simpdkcl.h"
#include "pdkcl.h"
#include "t16cl.h"
#ifndef V
#define V 0
#endif
static const char *types[] = { "PDK13", "PDK14", "PDK15", "PDK16", "PDK16" };
enum { Z = 1, C = 2, AC = 4, OV = 8 };
enum Fm { IMP, K8, ME, WD, IO, IOB, MB, BR };
struct Op { const char *n; Fm f; int c[4]; };
static const int mbits[] = { 6, 7, 8, 9, 8 }, iobits[] = { 5, 6, 7, 6, 7 }, ish[] = { 5, 6, 7, 6, 7 }, msh[] = { 5, 6, 7, 9, 7 }, mbb[] = { 4, 6, 7, 9, 7 }, pcb[] = { 10, 11, 12, 13, 12 };
static const Op ops[] = {
 { "nop", IMP, { 0, 0, 0, 0 } }, { "ret", IMP, { 0x3a, 0x7a, 0x7a, 0x3a } }, { "pushaf", IMP, { 0x32, 0x72, 0x72, 0x32 } }, { "popaf", IMP, { 0x33, 0x73, 0x73, 0x33 } },
 { "addc a", IMP, { 0x10, 0x60, 0x60, 0x10 } }, { "subc a", IMP, { 0x11, 0x61, 0x61, 0x11 } }, { "izsn a", IMP, { 0x12, 0x62, 0x62, 0x12 } }, { "dzsn a", IMP, { 0x13, 0x63, 0x63, 0x13 } },
 { "sr a", IMP, { 0x1a, 0x6a, 0x6a, 0x1a } }, { "sl a", IMP, { 0x1b, 0x6b, 0x6b, 0x1b } }, { "src a", IMP, { 0x1c, 0x6c, 0x6c, 0x1c } }, { "slc a", IMP, { 0x1d, 0x6d, 0x6d, 0x1d } },
 { "swap a", IMP, { 0x1e, 0x6e, 0x6e, 0x1e } }, { "not a", IMP, { 0x18, 0x68, 0x68, 0x18 } }, { "neg a", IMP, { 0x19, 0x69, 0x69, 0x19 } }, { "pcadd a", IMP, { 0x17, 0x67, 0x67, 0x17 } },
 { "mul", IMP, { 0x3c, 0x7c, 0x7c, 0x3c } }, { "stopsys", IMP, { 0x36, 0x76, 0x76, 0x36 } }, { "stopexe", IMP, { 0x37, 0x77, 0x77, 0x37 } },
 { "ret k", K8, { 0x100, 0x200, 0x200, 0xf00 } }, { "mov a,k", K8, { 0x1700, 0x2f00, 0x5700, 0x1f00 } }, { "add a,k", K8, { 0x1000, 0x2800, 0x5000, 0x1800 } }, { "sub a,k", K8, { 0x1100, 0x2900, 0x5100, 0x1900 } },
 { "ceqsn a,k", K8, { 0x1200, 0x2a00, 0x5200, 0x1a00 } }, { "cneqsn a,k", K8, { -1, 0x2b00, 0x5300, 0x1b00 } }, { "and a,k", K8, { 0x1400, 0x2c00, 0x5400, 0x1c00 } }, { "or a,k", K8, { 0x1500, 0x2d00, 0x5500, 0x1d00 } }, { "xor a,k", K8, { 0x1600, 0x2e00, 0x5600, 0x1e00 } },
 { "mov m,a", ME, { 0x5c0, 0xb80, 0x1700, 0x5c00 } }, { "mov a,m", ME, { 0x7c0, 0xf80, 0x1f00, 0x5e00 } }, { "xch m", ME, { 0x9c0, 0x1380, 0x2700, 0x6e00 } },
 { "add a,m", ME, { 0x600, 0xc00, 0x1800, 0x4200 } }, { "add m,a", ME, { 0x400, 0x800, 0x1000, 0x4000 } }, { "sub a,m", ME, { 0x640, 0xc80, 0x1900, 0x4600 } }, { "sub m,a", ME, { 0x440, 0x880, 0x1100, 0x4400 } },
 { "addc a,m", ME, { 0x680, 0xd00, 0x1a00, 0x4a00 } }, { "addc m,a", ME, { 0x480, 0x900, 0x1200, 0x4800 } }, { "addc m", ME, { 0x800, 0x1000, 0x2000, 0x6000 } },
 { "subc a,m", ME, { 0x6c0, 0xd80, 0x1b00, 0x4e00 } }, { "subc m,a", ME, { 0x4c0, 0x980, 0x1300, 0x4c00 } }, { "subc m", ME, { 0x840, 0x1080, 0x2100, 0x6200 } },
 { "inc m", ME, { 0x900, 0x1200, 0x2400, 0x6800 } }, { "dec m", ME, { 0x940, 0x1280, 0x2500, 0x6a00 } }, { "clear m", ME, { 0x980, 0x1300, 0x2600, 0x6c00 } },
 { "sr m", ME, { 0xa80, 0x1500, 0x2a00, 0x7400 } }, { "sl m", ME, { 0xac0, 0x1580, 0x2b00, 0x7600 } }, { "src m", ME, { 0xb00, 0x1600, 0x2c00, 0x7800 } }, { "slc m", ME, { 0xb40, 0x1680, 0x2d00, 0x7a00 } },
 { "and a,m", ME, { 0x700, 0xe00, 0x1c00, 0x5200 } }, { "and m,a", ME, { 0x500, 0xa00, 0x1400, 0x5000 } }, { "or a,m", ME, { 0x740, 0xe80, 0x1d00, 0x5600 } }, { "or m,a", ME, { 0x540, 0xa80, 0x1500, 0x5400 } },
 { "xor a,m", ME, { 0x780, 0xf00, 0x1e00, 0x5a00 } }, { "xor m,a", ME, { 0x580, 0xb00, 0x1600, 0x5800 } }, { "not m", ME, { 0xa00, 0x1400, 0x2800, 0x7000 } }, { "neg m", ME, { 0xa40, 0x1480, 0x2900, 0x7200 } },
 { "ceqsn a,m", ME, { 0xb80, 0x1700, 0x2e00, 0x3800 } }, { "cneqsn a,m", ME, { -1, 0x1780, 0x2f00, 0x1600 } }, { "ceqsn m,a", ME, { -1, -1, -1, 0x3a00 } }, { "cneqsn m,a", ME, { -1, -1, -1, 0x1400 } },
 { "izsn m", ME, { 0x880, 0x1100, 0x2200, 0x6400 } }, { "dzsn m", ME, { 0x8c0, 0x1180, 0x2300, 0x6600 } }, { "comp a,m", ME, { -1, 0x600, 0xc00, 0x3c00 } }, { "comp m,a", ME, { -1, 0x680, 0xd00, 0x3e00 } },
 { "nadd a,m", ME, { -1, 0x700, 0xe00, 0x3400 } }, { "nadd m,a", ME, { -1, 0x780, 0xf00, 0x3600 } }, { "nmov m,a", ME, { -1, -1, -1, 0x3200 } }, { "nmov a,m", ME, { -1, -1, -1, 0x3000 } }, { "swap m", ME, { -1, -1, -1, 0x7c00 } },
 { "ldt16 w", WD, { 0xc1, 0x301, 0x601, 0x201 } }, { "stt16 w", WD, { 0xc0, 0x300, 0x600, 0x200 } }, { "idxm a,w", WD, { 0xe1, 0x381, 0x701, 0x801 } }, { "idxm w,a", WD, { 0xe0, 0x380, 0x700, 0x800 } },
 { "pushw w", WD, { -1, -1, -1, 0x401 } }, { "popw w", WD, { -1, -1, -1, 0x400 } }, { "icall w", WD, { -1, -1, -1, 0x601 } }, { "igoto w", WD, { -1, -1, -1, 0x600 } },
 { "mov io,a", IO, { 0x80, 0x180, 0x100, 0x80 } }, { "mov a,io", IO, { 0xa0, 0x1c0, 0x180, 0xc0 } }, { "xor io,a", IO, { 0x60, 0xc0, 0x80, 0x1000 } }, { "xor a,io", IO, { -1, -1, -1, 0x1040 } },
 { "set0 io", IOB, { 0xe00, 0x1c00, 0x3800, 0x2400 } }, { "set1 io", IOB, { 0xf00, 0x1e00, 0x3c00, 0x2600 } }, { "t0sn io", IOB, { 0xc00, 0x1800, 0x3000, 0x2000 } }, { "t1sn io", IOB, { 0xd00, 0x1a00, 0x3400, 0x2200 } },
 { "swapc io", IOB, { -1, 0x400, 0x5c00, 0x2e00 } }, { "wait0 io", IOB, { -1, -1, -1, 0x2a00 } }, { "wait1 io", IOB, { -1, -1, -1, 0x2c00 } },
 { "set0 m", MB, { 0x300, 0x2400, 0x4800, 0xa000 } }, { "set1 m", MB, { 0x310, 0x2600, 0x4c00, 0xb000 } }, { "t0sn m", MB, { 0x200, 0x2000, 0x4000, 0x8000 } }, { "t1sn m", MB, { 0x210, 0x2200, 0x4400, 0x9000 } },
 { "call k", BR, { 0x1c00, 0x3800, 0x7000, 0xe000 } }, { "goto k", BR, { 0x1800, 0x3000, 0x6000, 0xc000 } } };
static const int NOPS = sizeof ops / sizeof *ops;
static int tab[NOPS], n;
static cl_pdk *u; static cl_fpp *p; static RefMem<U8> M, I;
struct St { unsigned PC; U8 A, F, SP, mulrh; U16 t16; int mode, cyc; bool cf; };
static St s;
static U8 rio(U8 a) { return a == 0 ? s.F : a == 1 ? 1 : a == 2 ? s.SP : a == 9 ? s.mulrh : I[a]; }
static void wio(U8 a, U8 v) { if (a == 0) s.F = v; else if (a == 2) s.SP = v; else if (a != 1) I[a] = v; }
static void fl(int z, int c, int ac, int ov) { s.F = (z ? Z : 0) | (c ? C : 0) | (ac ? AC : 0) | (ov ? OV : 0); }
static U8 add(U8 a, U8 b, int c) { unsigned r = a + b + c; fl(!(r & 255), r > 255, (a & 15) + (b & 15) + c > 15, (~(a ^ b) & (a ^ r)) >> 7 & 1); return r; }
static U8 sub(U8 a, U8 b, int c) { unsigned r = a - b - c; fl(!(r & 255), (unsigned)b + c > a, (b & 15u) + c > (a & 15u), ((a ^ b) & (a ^ r)) >> 7 & 1); return r; }
static void zf(U8 v) { s.F = (s.F & ~Z) | (v ? 0 : Z); }
static void cf(int c) { s.F = (s.F & ~C) | (c ? C : 0); }
static void skip(bool b) { if (b) { s.PC++; s.cyc = 2; } }
static void push(unsigned v) { M[s.SP] = v; M[(U8)(s.SP + 1)] = v >> 8; s.SP += 2; }
static unsigned pop() { s.SP -= 2; return M[s.SP] | M[(U8)(s.SP + 1)] << 8; }
static bool is(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static U8 sh(const char *m, U8 v) { int c = s.F >> 1 & 1; U8 r; if (m[1] == 'r') { r = v >> 1 | (m[2] == 'c' ? c << 7 : 0); cf(v & 1); } else { r = v << 1 | (m[2] == 'c' ? c : 0); cf(v >> 7); } return r; }
/* x: the operand field (k, memory, word or IO address), b: the bit number */
static void step(const char *m, Fm f, unsigned x, int b) {
  int c = s.F >> 1 & 1; s.cyc = 1; s.cf = true;
  switch (f) {
  case IMP:
    if (is(m, "ret")) { s.PC = pop(); s.cyc = 2; } else if (is(m, "pushaf")) push(s.A | s.F << 8); else if (is(m, "popaf")) { unsigned v = pop(); s.A = v; s.F = v >> 8; }
    else if (is(m, "addc a")) s.A = add(s.A, 0, c); else if (is(m, "subc a")) s.A = sub(s.A, 0, c); else if (is(m, "izsn a")) { s.A = add(s.A, 1, 0); skip(!s.A); } else if (is(m, "dzsn a")) { s.A = sub(s.A, 1, 0); skip(!s.A); }
    else if (m[0] == 's' && (m[1] == 'r' || m[1] == 'l')) s.A = sh(m, s.A); else if (is(m, "swap a")) s.A = s.A << 4 | s.A >> 4;
    else if (is(m, "not a")) zf(s.A = ~s.A); else if (is(m, "neg a")) zf(s.A = -s.A); else if (is(m, "pcadd a")) { s.PC = s.PC - 1 + s.A; s.cyc = 2; }
    else if (is(m, "mul")) { unsigned r = s.A * rio(8); s.A = r; s.mulrh = r >> 8; } else if (is(m, "stopsys")) s.mode = pm_pd; else if (is(m, "stopexe")) s.mode = pm_ps;
    break;
  case K8:
    if (m[0] == 'r') { s.A = x; s.PC = pop(); s.cyc = 2; } else if (m[0] == 'm') s.A = x; else if (is(m, "add a,k")) s.A = add(s.A, x, 0); else if (m[0] == 's') s.A = sub(s.A, x, 0);
    else if (m[0] == 'c') { sub(s.A, x, 0); skip((s.A == x) == (m[1] == 'e')); } else if (m[0] == 'a') zf(s.A &= x); else if (m[0] == 'o') zf(s.A |= x); else zf(s.A ^= x);
    break;
  case ME: { U8 &v = M[x];
    if (is(m, "mov m,a")) v = s.A; else if (is(m, "mov a,m")) s.A = v; else if (is(m, "xch m")) { U8 t = v; v = s.A; s.A = t; }
    else if (is(m, "add a,m")) s.A = add(s.A, v, 0); else if (is(m, "add m,a")) v = add(s.A, v, 0); else if (is(m, "sub a,m")) s.A = sub(s.A, v, 0); else if (is(m, "sub m,a")) v = sub(v, s.A, 0);
    else if (is(m, "addc a,m")) s.A = add(s.A, v, c); else if (is(m, "addc m,a")) v = add(s.A, v, c); else if (is(m, "addc m")) v = add(v, 0, c);
    else if (is(m, "subc a,m")) s.A = sub(s.A, v, c); else if (is(m, "subc m,a")) v = sub(v, s.A, c); else if (is(m, "subc m")) v = sub(v, 0, c);
    else if (is(m, "inc m")) v = add(v, 1, 0); else if (is(m, "dec m")) v = sub(v, 1, 0); else if (is(m, "clear m")) v = 0;
    else if (m[0] == 's' && (m[1] == 'r' || m[1] == 'l')) v = sh(m, v);
    else if (is(m, "and a,m")) zf(s.A &= v); else if (is(m, "and m,a")) zf(v &= s.A); else if (is(m, "or a,m")) zf(s.A |= v); else if (is(m, "or m,a")) zf(v |= s.A); else if (is(m, "xor a,m")) zf(s.A ^= v); else if (is(m, "xor m,a")) zf(v ^= s.A);
    else if (is(m, "not m")) { v = ~v; zf(v); } else if (is(m, "neg m")) { v = -v; zf(v); }
    else if (is(m, "ceqsn a,m")) { sub(s.A, v, 0); skip(s.A == v); } else if (is(m, "cneqsn a,m")) { sub(s.A, v, 0); skip(s.A != v); } else if (is(m, "ceqsn m,a")) { sub(v, s.A, 0); skip(s.A == v); } else if (is(m, "cneqsn m,a")) { sub(v, s.A, 0); skip(s.A != v); }
    else if (is(m, "izsn m")) { U8 t = add(v, 1, 0); v = t; skip(!t); } else if (is(m, "dzsn m")) { U8 t = sub(v, 1, 0); v = t; skip(!t); }
    else if (is(m, "comp a,m")) sub(s.A, v, 0); else if (is(m, "comp m,a")) sub(v, s.A, 0);
    else if (is(m, "nadd a,m")) { s.A = v - s.A; zf(s.A); s.cf = false; } else if (is(m, "nadd m,a")) { U8 t = s.A - v; v = t; zf(t); s.cf = false; }
    else if (is(m, "nmov m,a")) v = -s.A; else if (is(m, "nmov a,m")) zf(s.A = -v); else if (is(m, "swap m")) { U8 t = v; v = t << 4 | t >> 4; }
    break; }
  case WD: { unsigned w = M[x] | M[x + 1] << 8;
    if (is(m, "ldt16 w")) { M[x] = s.t16; M[x + 1] = s.t16 >> 8; } else if (is(m, "stt16 w")) s.t16 = w;
    else if (is(m, "idxm a,w")) { s.A = M[w & (V == 3 ? 511 : 255)]; s.cyc = 2; } else if (is(m, "idxm w,a")) { M[w & (V == 3 ? 511 : 255)] = s.A; s.cyc = 2; }
    else if (is(m, "pushw w")) push(w); else if (is(m, "popw w")) { unsigned v = pop(); M[x] = v; M[x + 1] = v >> 8; } else if (is(m, "icall w")) { push(s.PC); s.PC = w; } else s.PC = w;
    break; }
  case IO:
    if (is(m, "mov io,a")) wio(x, s.A); else if (is(m, "mov a,io")) s.A = rio(x); else if (is(m, "xor io,a")) wio(x, rio(x) ^ s.A); else zf(s.A ^= rio(x));
    break;
  case IOB: { U8 v = rio(x), k = 1 << b;
    if (is(m, "set0 io")) wio(x, v & ~k); else if (is(m, "set1 io")) wio(x, v | k); else if (m[0] == 't') skip(!(v & k) == (m[1] == '0'));
    else if (m[0] == 'w') { if (!(v & k) != (m[4] == '0')) s.PC--; } else { U8 nv = c ? v | k : v & ~k; cf(v & k); wio(x, nv); }
    break; }
  case MB: { U8 v = M[x], k = 1 << b; if (is(m, "set0 m")) M[x] = v & ~k; else if (is(m, "set1 m")) M[x] = v | k; else skip(!(v & k) == (m[1] == '0')); break; }
  case BR: if (m[0] == 'c') push(s.PC); s.PC = x; s.cyc = 2; break; }
}
#if V == 4
extern "C" void sym_setup(void) { u = (cl_pdk *)mk_sim<cl_simpdk>(cpus_pdk, types[V]); u->cnuof_fpp->write(8); u->reset(); sym_stub("cl_memory::err_inv_addr"); }
static const char *cn[] = { "schedule", "disable", "select" };
extern "C" long sym_ncases(void) { return 3; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s", cn[c]); }
extern "C" void sym_test(long c) {
  U8 A[8], F[8], S[8]; unsigned PC[8]; U8 en = SYM8("fppen"), act = sym_int("act", 3); sym_assume(en); act = sym_fork(act);
  for (int i = 0; i < 8; i++) { char b[] = "a0", d[] = "f0", e[] = "sp0"; b[1] += i; d[1] += i; e[2] += i; A[i] = SYM8(b); F[i] = SYM8(d) & 15; S[i] = SYM8(e); PC[i] = 0x100 + 0x20 * i; cl_fpp *q = u->fpps[i]; q->rA = A[i]; q->rF = F[i]; q->rSP = S[i]; q->PC = PC[i]; for (int k = 0; k < 32; k++) u->rom->set(PC[i] + k, 0x1800 + 7); }
  u->mode = pm_run; u->act = act; u->rFPPEN = 1; u->cFPPEN->write(en);
  if (c == 2) { U8 w = sym_int("select", 3); u->cact->write(w); REQ(u->act == w, "the selected core is the active one"); w = sym_fork(w); REQ(u->cPC.get() == PC[w] && u->PC == PC[w], "PC is the program counter of the selected core"); return; }
  int want = act, st = sym_thorough() ? 12 : 9; U8 nv = 0; int at = 2;
  if (c == 1) { nv = sym_int("new_fppen", 4); sym_assume(en < 16 && act < 4); st = 6; }
  for (int i = 0; i < st; i++) {
    while (!(en >> want & 1)) want = (want + 1) & 7;
    if (c == 1 && i == at) { u->rom->set(PC[want], 0x0081); A[want] = nv; u->fpps[want]->rA = nv; }
    u->exec_inst();
    PC[want]++;
    if (c == 1 && i == at) { en = nv ? nv : 1; }
    else { unsigned r = A[want] + 7; U8 f = (r & 255 ? 0 : Z) | (r > 255 ? C : 0) | ((A[want] & 15) + 7 > 15 ? AC : 0) | ((~(A[want] ^ 7) & (A[want] ^ r)) >> 7 & 1 ? OV : 0); A[want] = r; F[want] = f; }
    for (int k = 0; k < 8; k++) { cl_fpp *q = u->fpps[k]; REQ(q->PC == PC[k], "one instruction of the core whose turn it is, and of no other"); REQ(q->rA == A[k] && (q->rF & 15) == F[k] && q->rSP == S[k], "every core has registers of its own"); }
    want = (want + 1) & 7;
    REQ(u->cPC.get() == u->fpps[u->act]->PC && u->PC == u->fpps[u->act]->PC, "PC is that of the active core");
  }
}
#else
extern "C" void sym_setup(void) {
  u = (cl_pdk *)mk_sim<cl_simpdk>(cpus_pdk, types[V]); u->reset(); p = u->fpps[0]; sym_stub("cl_memory::err_inv_addr");
  plain(u->sfr, 3, 8); plain(u->sfr, 10, 127);
  M.attach(chip_of(u->ram), "ram", 512); I.attach(chip_of(u->sfr), "io", 128);
  for (int i = 0; i < NOPS; i++) if (ops[i].c[V] >= 0) tab[n++] = i;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s", ops[tab[c]].n); for (; *b; b++) if (*b == ' ') *b = '_'; }
extern "C" void sym_test(long c) {
  const Op &o = ops[tab[c]]; M.sym(); I.sym();
  unsigned pc = V == 3 ? 0x1234 : 0x123, x = 0, code = o.c[V]; int b = 0;
  memset(&s, 0, sizeof s); s.A = SYM8("a"); s.F = SYM8("f") & 15; s.SP = SYM8("sp") & 0xfe; s.mulrh = SYM8("mulrh"); s.t16 = SYM16("t16");
  bool pops = is(o.n, "ret") || is(o.n, "ret k") || is(o.n, "popaf") || is(o.n, "popw w"); if (pops) sym_assume(s.SP >= 2);
  switch (o.f) {
  case K8: x = SYM8("k"); code |= x; break;
  case ME: x = sym_int("m", mbits[V]); code |= x; break;
  case WD: x = sym_int("w", V == 0 ? 5 : mbits[V]) & ~1u; code |= x; break;
  case IO: x = sym_int("io", iobits[V]); code |= x; break;
  case IOB: x = sym_int("io", iobits[V]); b = sym_int("bit", 3); code |= x | b << ish[V]; break;
  case MB: x = sym_int("m", mbb[V]); b = sym_int("bit", 3); code |= x | b << msh[V]; break;
  case BR: x = sym_int("target", pcb[V]); code |= x; break;
  default: break; }
  if (o.f == WD && is(o.n, "idxm a,w")) { unsigned w = M[x] | M[x + 1] << 8; sym_assume(w < (V == 3 ? 512u : 256u)); }
  if (o.f == WD && is(o.n, "idxm w,a")) { unsigned w = M[x] | M[x + 1] << 8; sym_assume(w < (V == 3 ? 512u : 256u)); }
  if (is(o.n, "icall w")) sym_assume(x + 1 < s.SP || x > s.SP + 1u);
  u->rom->set(pc, code); p->PC = u->PC = pc; p->rA = s.A; p->rF = s.F; p->rSP = s.SP; u->rMULRH = s.mulrh; u->t16->cnt = s.t16; u->mode = pm_run; u->single = o.n[0] != 'w'; s.PC = pc + 1;
  int ret = u->exec_inst();
  step(o.n, o.f, x, b);
  unsigned pm = (1u << pcb[V]) - 1; 
  sym_observe("A", p->rA); sym_observe("F", p->rF); sym_observe("SP", p->rSP); sym_observe("PC", p->PC); sym_observe("model_A", s.A); sym_observe("model_F", s.F); sym_observe("model_SP", s.SP); sym_observe("model_PC", s.PC); sym_observe("ticks", p->inst_ticks);
  REQ(ret == resGO, "the instruction exists");
  REQ((p->PC & pm) == (s.PC & pm), "program counter"); REQ(p->rA == s.A, "accumulator");
  if (s.cf) REQ((p->rF & 15) == (s.F & 15), "flags"); else REQ((p->rF & Z) == (s.F & Z), "zero flag");
  REQ(p->rSP == s.SP, "stack pointer"); REQ(u->rMULRH == s.mulrh, "high byte of the product"); REQ(u->t16->cnt == s.t16, "Timer16 counter"); REQ((int)u->mode == s.mode, "operating mode");
  if (V != 3) REQ(p->inst_ticks == s.cyc, "cycles");
  M.same("data memory"); unsigned i = sym_int("any_io_addr", 7); sym_assume(i > 2 && i != 9); REQ(I.simval(i) == I[i], "IO registers");
}
#endif
