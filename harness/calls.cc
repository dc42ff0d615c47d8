// The next command: which instructions are subroutine calls, and where execution continues after them.
#include "uc_common.h"
#undef SP
#undef CC
#ifndef V
#define V 0
#endif
#if R_Z80
#include "z80cl.h"
#include "simz80cl.h"
extern struct cpu_entry cpus_z80[];
#define MK mk_sim<cl_simz80>(cpus_z80, V == 0 ? "Z80" : V == 1 ? "Z180" : "LR35902")
static bool pre(U8 b) { return V == 2 && (b >= 0xe3 && b <= 0xfd && ((b & 15) >= 11 && b != 0xfb && (b & 15) < 14 || (b & 15) == 3 && b != 0xf3 || (b & 15) == 4)) || b == 0xcb || b == 0xed || b == 0xdd || b == 0xfd; }
static bool call(U8 b) { return b == 0xcd || (b & (V == 2 ? 0xe7 : 0xc7)) == 0xc4 || (b & 0xc7) == 0xc7; }
static int len(U8 b) { return (b & 0xc7) == 0xc7 ? 1 : 3; }
#elif R_8085
#include "i8085cl.h"
#include "simi8085cl.h"
#include "glob.h"

#define MK mk_sim<cl_simi8085>(cpus_i8085, "I8080")
static bool pre(U8 b) { return (b & 0xcf) == 0xcd && b != 0xcd || b == 0xcb || b == 8 || b == 16 || b == 24 || b == 32 || b == 40 || b == 48 || b == 56 || b == 0xd9; }
static bool call(U8 b) { return b == 0xcd || (b & 0xc7) == 0xc4 || (b & 0xc7) == 0xc7; }
static int len(U8 b) { return (b & 0xc7) == 0xc7 ? 1 : 3; }
#elif R_51
#include "sim51cl.h"
#include "uc51cl.h"
extern struct cpu_entry cpus_51[];
#define MK mk_sim<cl_sim51>(cpus_51, "52")
static bool pre(U8 b) { return false; }
static bool call(U8 b) { return b == 0x12 || (b & 0x1f) == 0x11; }
static int len(U8 b) { return b == 0x12 ? 3 : 2; }
#elif R_6502
#include "glob.h"
#include "simmos6502cl.h"
#include "mos6502cl.h"
#define MK mk_sim<cl_simmos6502>(cpus_mos6502, V ? "65C02" : "6502")
static bool pre(U8 b) { return false; }
static bool call(U8 b) { return b == 0x20; }
static int len(U8 b) { return 3; }
#elif R_6800
#if V == 2
#include "simm68hc11cl.h"
#include "m68hc11cl.h"
#include "glob11.h"
#define MK mk_sim<cl_simm68hc11>(cpus_m68hc11, "HC11")
#else
#include "simm6800cl.h"
#include "m6801cl.h"
#include "glob68.h"
#define MK mk_sim<cl_simm6800>(cpus_m6800, V ? "6801" : "6800")
#endif
static bool pre(U8 b) { return V == 2 && (b == 0x18 || b == 0x1a || b == 0xcd); }
static bool call(U8 b) { return b == 0x8d || b == 0xad || b == 0xbd || V && b == 0x9d; }
static int len(U8 b) { return b == 0xbd ? 3 : 2; }
#elif R_6809
#include "glob.h"
#include "simm6809cl.h"
#include "m6809cl.h"
#define MK mk_sim<cl_simm6809>(cpus_m6809, "M6809")
static bool pre(U8 b) { return b == 0x10 || b == 0x11; }
static bool call(U8 b) { return b == 0x8d || b == 0x17 || b == 0x9d || b == 0xad || b == 0xbd; }
static int len(U8 b) { return b == 0xbd || b == 0x17 ? 3 : b == 0xad ? 0 : 2; }
#elif R_HC08
#include "simm68hc08cl.h"
#include "m68hc08cl.h"
#include "glob.h"
#define MK mk_sim<cl_simm68hc08>(cpus_m68hc08, V == 0 ? "HC08" : "HCS08")
static bool pre(U8 b) { return b == 0x9e || b == 0x83; }
static bool call(U8 b) { return (b & 0x8f) == 0x8d && b >= 0xad; }
static int len(U8 b) { return b == 0xcd || b == 0xdd ? 3 : b == 0xfd ? 1 : 2; }
#elif R_ST7
#include "simst7cl.h"
#include "st7cl.h"
#include "glob.h"
#define MK mk_sim<cl_simst7>(cpus_st7, 0)
static bool pre(U8 b) { return b >= 0x90 && b <= 0x92 || b == 0x83; }
static bool call(U8 b) { return (b & 0x8f) == 0x8d && b >= 0xad; }
static int len(U8 b) { return b == 0xcd || b == 0xdd ? 3 : b == 0xfd ? 1 : 2; }
#elif R_STM8
#include "simstm8cl.h"
#include "stm8cl.h"
#include "glob.h"
#define MK mk_sim<cl_simstm8>(cpus_stm8, 0)
static bool pre(U8 b) { return b >= 0x90 && b <= 0x92 || b == 0x72 || b == 0x83; }
static bool call(U8 b) { return b == 0x8d || b == 0xad || b == 0xcd || b == 0xdd || b == 0xed || b == 0xfd || b == 0xbd && 0; }
static int len(U8 b) { return b == 0x8d ? 4 : b == 0xcd || b == 0xdd ? 3 : b == 0xfd ? 1 : 2; }
#elif R_8048
#include "i8048cl.h"
#include "simi8048cl.h"
#include "glob.h"
#define MK mk_sim<cl_simi8048>(cpus_i8048, "I8048")
static bool pre(U8 b) { return false; }
static bool call(U8 b) { return (b & 0x1f) == 0x14; }
static int len(U8 b) { return 2; }
#elif R_AVR
#include "glob.h"
#include "simavrcl.h"
#include "avrcl.h"
#define MK mk_sim<cl_simavr>(cpus_avr, 0)
#define WORDS 1
static bool pre(U16 b) { return (b & 0xff0f) == 0x9509 && b > 0x9519; }
static bool call(U16 b) { return (b & 0xfe0e) == 0x940e || (b & 0xf000) == 0xd000 || b == 0x9509 || b == 0x9519; }
static int len(U16 b) { return (b & 0xfe0e) == 0x940e ? 2 : 1; }
#endif
static cl_uc *uc;
// prefixed instructions: -1 not asked
#if R_STM8
static const U8 PX[] = {0x72, 0x90, 0x91, 0x92};
static int pcall(U8 p, U8 b) { return p == 0x72 ? b == 0xcd || b == 0xdd : p == 0x90 ? b == 0xdd || b == 0xed || b == 0xfd : p == 0x91 ? b == 0xdd : b == 0x8d || b == 0xcd || b == 0xdd; }
static int plen(U8 p, U8 b) { return p == 0x72 || p == 0x90 && b == 0xdd || b == 0x8d ? 4 : p == 0x90 && b == 0xfd ? 2 : 3; }
#elif R_ST7
static const U8 PX[] = {0x90, 0x91, 0x92};
static int pcall(U8 p, U8 b) { return b == 0x83 || p == 0x92 && (b == 0xbd || b == 0xed) || p == 0x90 && (b == 0xad || b == 0xbd || b == 0xcd) || p == 0x91 && (b == 0xad || b == 0xbd || b == 0xcd || b == 0xfd) || p == 0x92 && b == 0xfd ? -1 : p == 0x90 ? b == 0xdd || b == 0xed || b == 0xfd : p == 0x91 ? b == 0xdd || b == 0xed : b == 0xcd || b == 0xdd || b == 0xad; }
static int plen(U8 p, U8 b) { return p == 0x90 && b == 0xdd ? 4 : p == 0x90 && b == 0xfd ? 2 : 3; }
#elif R_HC08
static const U8 PX[] = {0x9e};
static int pcall(U8 p, U8 b) { return b >= 0x60 && b < 0x70 || b >= 0xd0 && b < 0xf0 && (b & 15) < 12 ? 0 : -1; }
static int plen(U8 p, U8 b) { return 0; }
#elif R_Z80 && V < 2
static const U8 PX[] = {0xcb, 0xed};
static int pcall(U8 p, U8 b) { return 0; }
static int plen(U8 p, U8 b) { return 0; }
#elif R_6800 && V == 2
static const U8 PX[] = {0x18, 0x1a, 0xcd};
static int pcall(U8 p, U8 b) { return p == 0x18 ? b == 0xad : b == 0xad || b == 0xbd || b == 0x9d || b == 0x8d ? -1 : 0; }
static int plen(U8 p, U8 b) { return 3; }
#elif R_6809
static const U8 PX[] = {0x10, 0x11};
static int pcall(U8 p, U8 b) { return b == 0x3f || b == 0x8d || b == 0x9d || b == 0xad || b == 0xbd || b == 0x17 ? -1 : 0; }
static int plen(U8 p, U8 b) { return 0; }
#else
static const U8 PX[] = {0};
#define NPX 0
static int pcall(U8 p, U8 b) { return -1; }
static int plen(U8 p, U8 b) { return 0; }
#endif
#ifndef NPX
#define NPX (int)sizeof(PX)
#endif
extern "C" void sym_setup(void) { uc = MK; sym_stub("cl_app::debug"); sym_stub("cl_memory::err_inv_addr"); }
extern "C" long sym_ncases(void) { return 16 + NPX; }
extern "C" void sym_casename(long c, char *b, int n) { if (c < 16) snprintf(b, n, "opcodes:%lx", c); else snprintf(b, n, "prefix:%02x", PX[c - 16]); }
extern "C" void sym_test(long c) {
  enum { A0 = 0x210 }; cl_memory *r = uc->rom;
  if (c >= 16) { U8 p = PX[c - 16], op = SYM8("op"), b2 = SYM8("b2"), b3 = SYM8("b3"); r->set(A0, p); r->set(A0 + 1, op); r->set(A0 + 2, b2); r->set(A0 + 3, b3); op = sym_fork(op); int e = pcall(p, op); if (e < 0) { sym_assert(1, "not asked"); return; }
    bool g = uc->is_call(A0); sym_observe("is_call", g); REQ(g == (e != 0), "the next command knows which instructions are calls"); if (e) { t_addr n = uc->next_inst(A0); REQ(n == A0 + plen(p, op), "the instruction after the call"); } return; }
#if WORDS
  U16 op = SYM16("op"); sym_assume(op >> 12 == c);
#else
  U8 op = SYM8("op"); sym_assume(op >> 4 == c);
#endif
  sym_assume(!pre(op)); r->set(A0, op); U8 b1 = SYM8("b1"), b2 = SYM8("b2"), b3 = SYM8("b3"); r->set(A0 + 1, b1); r->set(A0 + 2, b2); r->set(A0 + 3, b3);
  bool g = uc->is_call(A0); sym_observe("is_call", g); bool e = call(op); REQ(g == e, "the next command knows which instructions are calls");
  if (sym_fork(e) && len(op)) { t_addr n = uc->next_inst(A0); REQ(n == A0 + len(op), "the instruction after the call"); }
}
