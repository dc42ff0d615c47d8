// PicoBlaze: every instruction of KCPSM3 (V=0) and KCPSM6 (V=1) against a model of the architecture; interrupt entry.
#include "isa_common.h"
#include "glob.h"
#include "simpblazecl.h"
#include "pblazecl.h"
#include "interruptcl.h"
#include "inputportcl.h"
#include "outputportcl.h"
#include "portidcl.h"
#undef S0
#undef S1
#undef SP
#ifndef V
#define V 0
#endif
enum Fm { I0, F_RR, RK, R1, MM, PP, A_, RI, RP, KP, AT };   /* operands: none, sX sY, sX kk, sX, sX ss, sX pp, address, sX (sY) memory, sX (sY) port, kk p, (sX,sY) */
struct Op { const char *n; Fm f; int c[2]; };
static const Op ops[] = {
 { "load", F_RR, { 0x01000, 0x00000 } }, { "load", RK, { 0x00000, 0x01000 } }, { "and", F_RR, { 0x0b000, 0x02000 } }, { "and", RK, { 0x0a000, 0x03000 } },
 { "or", F_RR, { 0x0d000, 0x04000 } }, { "or", RK, { 0x0c000, 0x05000 } }, { "xor", F_RR, { 0x0f000, 0x06000 } }, { "xor", RK, { 0x0e000, 0x07000 } },
 { "input", RP, { 0x05000, 0x08000 } }, { "input", PP, { 0x04000, 0x09000 } }, { "fetch", RI, { 0x07000, 0x0a000 } }, { "fetch", MM, { 0x06000, 0x0b000 } },
 { "test", F_RR, { 0x13000, 0x0c000 } }, { "test", RK, { 0x12000, 0x0d000 } }, { "testcy", F_RR, { -1, 0x0e000 } }, { "testcy", RK, { -1, 0x0f000 } },
 { "add", F_RR, { 0x19000, 0x10000 } }, { "add", RK, { 0x18000, 0x11000 } }, { "addcy", F_RR, { 0x1b000, 0x12000 } }, { "addcy", RK, { 0x1a000, 0x13000 } },
 { "sub", F_RR, { 0x1d000, 0x18000 } }, { "sub", RK, { 0x1c000, 0x19000 } }, { "subcy", F_RR, { 0x1f000, 0x1a000 } }, { "subcy", RK, { 0x1e000, 0x1b000 } },
 { "compare", F_RR, { 0x15000, 0x1c000 } }, { "compare", RK, { 0x14000, 0x1d000 } }, { "comparecy", F_RR, { -1, 0x1e000 } }, { "comparecy", RK, { -1, 0x1f000 } },
 { "star", F_RR, { -1, 0x16000 } }, { "hwbuild", R1, { -1, 0x14080 } },
 { "sl0", R1, { 0x20006, 0x14006 } }, { "sl1", R1, { 0x20007, 0x14007 } }, { "slx", R1, { 0x20004, 0x14004 } }, { "sla", R1, { 0x20000, 0x14000 } }, { "rl", R1, { 0x20002, 0x14002 } },
 { "sr0", R1, { 0x2000e, 0x1400e } }, { "sr1", R1, { 0x2000f, 0x1400f } }, { "srx", R1, { 0x2000a, 0x1400a } }, { "sra", R1, { 0x20008, 0x14008 } }, { "rr", R1, { 0x2000c, 0x1400c } },
 { "output", RP, { 0x2d000, 0x2c000 } }, { "output", PP, { 0x2c000, 0x2d000 } }, { "outputk", KP, { -1, 0x2b000 } }, { "store", RI, { 0x2f000, 0x2e000 } }, { "store", MM, { 0x2e000, 0x2f000 } },
 { "call", A_, { 0x30000, 0x20000 } }, { "callz", A_, { 0x31000, 0x30000 } }, { "callnz", A_, { 0x31400, 0x34000 } }, { "callc", A_, { 0x31800, 0x38000 } }, { "callnc", A_, { 0x31c00, 0x3c000 } }, { "call@", AT, { -1, 0x24000 } },
 { "jump", A_, { 0x34000, 0x22000 } }, { "jumpz", A_, { 0x35000, 0x32000 } }, { "jumpnz", A_, { 0x35400, 0x36000 } }, { "jumpc", A_, { 0x35800, 0x3a000 } }, { "jumpnc", A_, { 0x35c00, 0x3e000 } }, { "jump@", AT, { -1, 0x26000 } },
 { "ret", I0, { 0x2a000, 0x25000 } }, { "retz", I0, { 0x2b000, 0x31000 } }, { "retnz", I0, { 0x2b400, 0x35000 } }, { "retc", I0, { 0x2b800, 0x39000 } }, { "retnc", I0, { 0x2bc00, 0x3d000 } }, { "load_return", RK, { -1, 0x21000 } },
 { "disable", I0, { 0x3c000, 0x28000 } }, { "enable", I0, { 0x3c001, 0x28001 } }, { "returni_d", I0, { 0x38000, 0x29000 } }, { "returni_e", I0, { 0x38001, 0x29001 } }, { "regbank_a", I0, { -1, 0x37000 } }, { "regbank_b", I0, { -1, 0x37001 } },
 { "interrupt", I0, { 0, 0 } } };
static const int NOPS = sizeof ops / sizeof *ops, AM = V ? 0xfff : 0x3ff, DEPTH = V ? 30 : 31;
static int tab[NOPS], n;
static cl_pblaze *u; static RefMem<U8> M, R; static RefMem<U16> S;
struct St { unsigned PC; int C, Z, I, SP, bank, pc, pz, pb, port, out; bool reset; };
static St s;
static bool is(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static U8 par(U8 v) { v ^= v >> 4; v ^= v >> 2; v ^= v >> 1; return v & 1; }
static void push(unsigned v) { if (s.SP < DEPTH) S[s.SP] = v & 0xfff; if (++s.SP == 31) { s.SP = 0; if (V) s.reset = true; } }
static unsigned pop() { if (s.SP == 0) { s.SP = 30; if (V) s.reset = true; } else s.SP--; return s.SP < DEPTH ? S[s.SP] : 0; }
static bool cond(const char *m) { return !*m ? true : m[0] == 'n' ? !cond(m + 1) : m[0] == 'z' ? s.Z : s.C; }
/* x, y: register numbers; k: the low 8 bits */
static void step(const char *m, Fm f, int x, int y, U8 k, unsigned a) {
  int B = s.bank ? 16 : 0, c = s.C; U8 &X = R[B + x]; U8 o = f == F_RR || f == RI || f == RP || f == AT ? R[B + y] : k; unsigned r;
  if (is(m, "interrupt")) { s.pc = s.C; s.pz = s.Z; s.pb = s.bank; s.I = 0; push((s.PC - 1) & AM); s.PC = 0x3ff; }
  else if (f == AT) { a = (X & 15) << 8 | o; if (m[0] == 'c') push((s.PC - 1) & AM); s.PC = a; }
  else if (f == A_) { if (cond(m + 4)) { if (m[0] == 'c') push((s.PC - 1) & AM); s.PC = a; } }
  else if (is(m, "load_return")) { X = o; s.PC = (pop() + 1) & AM; }
  else if (is(m, "load")) X = o;
  else if (is(m, "and")) { X &= o; s.C = 0; s.Z = !X; } else if (is(m, "or")) { X |= o; s.C = 0; s.Z = !X; } else if (is(m, "xor")) { X ^= o; s.C = 0; s.Z = !X; }
  else if (is(m, "test")) { s.Z = !(X & o); s.C = par(X & o); } else if (is(m, "testcy")) { s.Z = s.Z && !(X & o); s.C = par(X & o) ^ c; }
  else if (is(m, "add")) { r = X + o; X = r; s.C = r >> 8; s.Z = !X; } else if (is(m, "addcy")) { r = X + o + c; X = r; s.C = r >> 8; s.Z = (!V || s.Z) && !X; }
  else if (is(m, "sub")) { r = X - o; X = r; s.C = r >> 8 & 1; s.Z = !X; } else if (is(m, "subcy")) { r = X - o - c; X = r; s.C = r >> 8 & 1; s.Z = (!V || s.Z) && !X; }
  else if (is(m, "compare")) { r = X - o; s.C = r >> 8 & 1; s.Z = !r; } else if (is(m, "comparecy")) { sym_assume(!(X == 0 && o == 255 && c)); r = X - o - c; s.C = r >> 8 & 1; s.Z = s.Z && !r; }
  else if (is(m, "star")) R[(B ^ 16) + x] = o; else if (is(m, "hwbuild")) { X = u->hw_constant; s.C = 1; s.Z = !u->hw_constant; }
  else if (is(m, "rl")) { s.C = X >> 7; X = X << 1 | X >> 7; s.Z = !X; } else if (is(m, "rr")) { s.C = X & 1; X = X >> 1 | X << 7; s.Z = !X; }
  else if (m[0] == 's' && m[1] == 'l') { s.C = X >> 7; X = X << 1 | (m[2] == '1' ? 1 : m[2] == 'x' ? X & 1 : m[2] == 'a' ? c : 0); s.Z = !X; }
  else if (m[0] == 's' && m[1] == 'r') { s.C = X & 1; X = X >> 1 | (m[2] == '1' ? 0x80 : m[2] == 'x' ? X & 0x80 : m[2] == 'a' ? c << 7 : 0); s.Z = !X; }
  else if (is(m, "fetch")) X = M[o & 63]; else if (is(m, "store")) M[o & 63] = X;
  else if (is(m, "input")) { s.port = o; X = s.out; } else if (is(m, "output")) { s.port = o; s.out = X; } else if (is(m, "outputk")) { s.port = k & 15; s.out = a >> 4 & 255; }
  else if (is(m, "disable")) s.I = 0; else if (is(m, "enable")) s.I = 1; else if (is(m, "regbank_a")) s.bank = 0; else if (is(m, "regbank_b")) s.bank = 1;
  else if (m[0] == 'r' && m[3] == 'u') { s.PC = (pop() + 1) & AM; s.C = s.pc; s.Z = s.pz; s.bank = s.pb; s.I = m[8] == 'e'; }
  else if (cond(m + 3)) s.PC = (pop() + 1) & AM;
  if (s.reset) { s.PC = 0; s.C = s.Z = s.I = s.SP = s.bank = 0; }
}
extern "C" void sym_setup(void) {
  u = (cl_pblaze *)mk_sim<cl_simpblaze>(cpus_pblaze, V ? "KCPSM6" : "KCPSM3"); u->reset(); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_output_port::add_output"); sym_stub("cl_app::dd_printf"); sym_stub("cl_app::debug");
  M.attach(chip_of(u->ram), "ram", 64); R.attach(chip_of(u->sfr), "reg", 34); S.attach(chip_of(u->stack), "stack", DEPTH);
  for (int i = 0; i < NOPS; i++) if (ops[i].c[V] >= 0) tab[n++] = i;
}
static const char *fn[] = { "", "_rr", "_rk", "", "_ss", "_pp", "", "_m", "_p", "", "" };
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s%s", ops[tab[c]].n, fn[ops[tab[c]].f]); }
extern "C" void sym_test(long c) {
  const Op &o = ops[tab[c]]; M.sym(); R.sym(); S.sym(); memset(&s, 0, sizeof s);
  bool stk = o.f == AT || o.n[0] == 'c' && o.n[1] == 'a' || o.n[0] == 'r' && o.n[1] == 'e' && o.n[2] == 't' || is(o.n, "load_return") || is(o.n, "interrupt");
  int pc = !V && sym_fork(SYM1("last")) ? 0x3ff : 0x123;
  U8 k = SYM8("k"); int x = sym_int("x", 4), y = k >> 4; unsigned a = sym_int("a", V ? 12 : 10), low = 0;
  if (!sym_thorough() && o.f == F_RR) sym_assume(x == 0 || x == 7 || x == 15);
  x = sym_fork(x); if (o.f == F_RR || o.f == RI || o.f == RP || o.f == AT) y = sym_fork(y);
  switch (o.f) { case I0: break; case F_RR: case RI: case RP: case AT: low = x << 8 | y << 4; break; case RK: case PP: low = x << 8 | k; break; case MM: if (!V) k &= 63; low = x << 8 | k; break; case R1: low = x << 8; break; case A_: low = a; break; case KP: low = a; k = a; break; }
  unsigned code = o.c[V] | low;
  s.PC = pc; s.C = SYM1("c"); s.Z = SYM1("z"); s.I = SYM1("i"); s.SP = sym_int("sp", 5); sym_assume(s.SP < 31); s.bank = V ? sym_fork(SYM1("bank")) : 0;
  s.pc = SYM1("shadow_c"); s.pz = SYM1("shadow_z"); s.pb = V ? SYM1("shadow_bank") : 0; s.out = SYM8("in"); s.port = SYM8("port");
  bool irq = is(o.n, "interrupt"); int req = 1; if (irq) req = SYM1("request");
  R[0x20] = s.C | s.Z << 1 | s.I << 2; R[0x21] = s.SP; ((U8 *)chip_of(u->sfr)->array)[0x20] = R[0x20]; ((U8 *)chip_of(u->sfr)->array)[0x21] = s.SP;
  if (stk) s.SP = sym_fork(s.SP);
  u->active_regbank = s.bank ? REGISTER_BANK_B : REGISTER_BANK_A; u->interrupt->preserved_flag_c = s.pc; u->interrupt->preserved_flag_z = s.pz; u->interrupt->preserved_regbank = s.pb ? REGISTER_BANK_B : REGISTER_BANK_A;
  u->interrupt->interrupt_request = irq && req; u->input_port->value_set = true; u->input_port->value = s.out; u->output_port->value = s.out; u->port_id->value = s.port;
  u->rom->set(pc, code); u->PC = pc; unsigned long t0 = u->ticks->ticks;
  if (irq) { bool take = s.I && req; int r = u->do_interrupt(); REQ((r == resINTERRUPT) == take, "an enabled interrupt request is served"); if (take) step(o.n, o.f, x, y, k, a); else s.I = s.I; REQ(!take || !u->interrupt->interrupt_request, "the request is consumed"); }
  else { s.PC = (pc + 1) & u->rom->highest_valid_address(); step(o.n, o.f, x, y, k, a); int r = u->exec_inst(); REQ(r == resGO, "the instruction executes"); if (!s.reset) REQ(u->ticks->ticks - t0 == (unsigned long)u->clock_per_cycle(), "two clocks"); }
  R[0x20] = s.C | s.Z << 1 | s.I << 2; R[0x21] = s.SP;
  sym_observe("pc", u->PC); sym_observe("flags", u->sfr->get(0x20));
  REQ(u->PC == s.PC, "PC"); REQ((u->active_regbank == REGISTER_BANK_B) == (s.bank == 1), "register bank"); M.same("scratch pad"); R.same("registers, flags and stack pointer"); S.same("stack");
  REQ((int)u->output_port->value == s.out || is(o.n, "input"), "value of the output port"); REQ((int)u->port_id->value == s.port, "port number");
  if (irq) { REQ(u->interrupt->preserved_flag_c == s.pc && u->interrupt->preserved_flag_z == s.pz, "preserved flags"); if (V) REQ((u->interrupt->preserved_regbank == REGISTER_BANK_B) == (s.pb == 1), "preserved register bank"); }
}
