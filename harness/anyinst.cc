// Any processor: one instruction from an arbitrary state.  The symbolic executor itself decides that no access leaves its
// object, no freed or null object is used, nothing divides by zero and execution ends; the harness adds that the result code
// is a legal one and that the program counter stays inside the program memory.
#include "uc_common.h"
#if defined(S_f8)
#include "simf8cl.h"
#define SIM cl_simf8
#define CPUS cpus_f8
#elif defined(S_i8048)
#include "simi8048cl.h"
#define SIM cl_simi8048
#define CPUS cpus_i8048
#elif defined(S_m68hc08)
#include "simm68hc08cl.h"
#define SIM cl_simm68hc08
#define CPUS cpus_m68hc08
#elif defined(S_m68hc12)
#include "simm68hc12cl.h"
#define SIM cl_simm68hc12
#define CPUS cpus_m68hc12
#elif defined(S_oisc)
#include "simoisccl.h"
#define SIM cl_simoisc
#define CPUS cpus_oisc
#elif defined(S_p1516)
#include "simp1516cl.h"
#define SIM cl_simp1516
#define CPUS cpus_p1516
#elif defined(S_pblaze)
#include "simpblazecl.h"
#define SIM cl_simpblaze
#define CPUS cpus_pblaze
#elif defined(S_pdk)
#include "simpdkcl.h"
#define SIM cl_simpdk
#define CPUS cpus_pdk
#elif defined(S_rxk)
#include "simrxkcl.h"
#define SIM cl_simrxk
#define CPUS cpus_rxk
#elif defined(S_st7)
#include "simst7cl.h"
#define SIM cl_simst7
#define CPUS cpus_st7
#elif defined(S_tlcs)
#include "simtlcscl.h"
#define SIM cl_simtlcs
#define CPUS cpus_tlcs
#elif defined(S_xa)
#include "simxacl.h"
#define SIM cl_simxa
#define CPUS cpus_xa
#elif defined(S_z80)
#include "simz80cl.h"
#define SIM cl_simz80
#define CPUS cpus_z80
#elif defined(S_mos6502)
#include "simmos6502cl.h"
#define SIM cl_simmos6502
#define CPUS cpus_mos6502
#elif defined(S_s51)
#include "sim51cl.h"
#define SIM cl_sim51
#define CPUS cpus_51
#elif defined(S_stm8)
#include "simstm8cl.h"
#define SIM cl_simstm8
#define CPUS cpus_stm8
#elif defined(S_m6809)
#include "simm6809cl.h"
#define SIM cl_simm6809
#define CPUS cpus_m6809
#elif defined(S_m68hc11)
#include "simm68hc11cl.h"
#define SIM cl_simm68hc11
#define CPUS cpus_m68hc11
#elif defined(S_m6800)
#include "simm6800cl.h"
#define SIM cl_simm6800
#define CPUS cpus_m6800
#elif defined(S_i8085)
#include "simi8085cl.h"
#define SIM cl_simi8085
#define CPUS cpus_i8085
#elif defined(S_avr)
#include "simavrcl.h"
#define SIM cl_simavr
#define CPUS cpus_avr
#endif
static cl_uc *z;
#if defined(S_st7)
#include "st7cl.h"
#define VEC ((cl_st7 *)z)->regs.VECTOR = 0
#elif defined(S_m68hc08)
#include "m68hc08cl.h"
#define VEC ((cl_hc08 *)z)->regs.VECTOR = 0
#else
#define VEC (void)0
#endif
// what the disassembler knows: an opcode which is not in its table has no length to compare
#if defined(S_st7)
#define KNOWN(a) ((cl_st7 *)z)->get_disasm_info(a, 0, 0, 0, 0)
#elif defined(S_m68hc08)
#define KNOWN(a) ((cl_hc08 *)z)->get_disasm_info(a, 0, 0, 0, 0)
#elif defined(S_stm8)
#include "stm8cl.h"
#define KNOWN(a) ((cl_stm8 *)z)->get_disasm_info(a, 0, 0, 0, 0)
#elif defined(S_z80)
#include "z80cl.h"
#ifdef GB /* STOP of GB80 is listed with its padding byte */
#define KNOWN(a) (z->rom->get(a) != 0x10 && ((cl_z80 *)z)->get_disasm_info(a, 0, 0, 0, 0))
#else
#define KNOWN(a) ((cl_z80 *)z)->get_disasm_info(a, 0, 0, 0, 0)
#endif
#elif defined(S_pdk)
#include "pdkcl.h"
#define KNOWN(a) ((cl_fpp *)z)->get_disasm_info(a, 0, 0, 0, 0)
#elif defined(S_xa)
#include "xacl.h"
#include "glob.h"
static bool xa_known(t_addr a) { int m = 0; ((cl_xa *)z)->get_disasm_info(a, 0, 0, 0, 0, &m); return m != BAD_OPCODE; }
#define KNOWN(a) xa_known(a)
#elif defined(S_rxk)
#include "rxkcl.h"
static bool rxk_known(t_addr a) { struct dis_entry *d = ((cl_rxk *)z)->dis_entry(a); return d && d->mnemonic; }
#define KNOWN(a) rxk_known(a)
#elif defined(S_m6809)
/* the processor executes undefined opcodes of the pages too */
static bool m6809_known(t_addr a) { static const unsigned char p2[] = { 0x83, 0x8c, 0x8e, 0x93, 0x9c, 0x9e, 0x9f, 0xa3, 0xac, 0xae, 0xaf, 0xb3, 0xbc, 0xbe, 0xbf, 0xce, 0xde, 0xdf, 0xee, 0xef, 0xfe, 0xff }, p3[] = { 0x83, 0x8c, 0x93, 0x9c, 0xa3, 0xac, 0xb3, 0xbc };
  int c = z->rom->get(a), d = z->rom->get(a + 1); bool k = false; if (c != 0x10 && c != 0x11) return c != 0x3e; if (d == 0x3f || (c == 0x10 && d >= 0x21 && d <= 0x2f)) return true;
  if (c == 0x10) for (unsigned i = 0; i < sizeof p2; i++) k |= d == p2[i]; else for (unsigned i = 0; i < sizeof p3; i++) k |= d == p3[i]; return k; }
#define KNOWN(a) m6809_known(a)
#elif defined(S_f8)
static bool f8_known(t_addr a) { int c = z->rom->get(a); struct dis_entry *d; if (c == 0x9c || c == 0x9d || c == 0x9e || c == 0x9f || c == 0x94 || c == 0xd8) a++; d = z->get_dis_entry(a); return d && d->mnemonic; }
#define KNOWN(a) f8_known(a)
#elif defined(S_tlcs) || defined(S_pblaze) || defined(S_oisc)
#define KNOWN(a) true
#else
static bool known(t_addr a) { struct dis_entry *d = z->get_dis_entry(a); return d && d->mnemonic; }
#define KNOWN(a) known(a)
#endif
// opcodes which continue in the second byte: one case for each of its values
#if defined(S_stm8)
#define PREFIXES 0x72, 0x90, 0x91, 0x92
#elif defined(S_st7)
#define PREFIXES 0x90, 0x91, 0x92
#elif defined(S_m6809)
#define PREFIXES 0x10, 0x11
#elif defined(S_m68hc11)
#define PREFIXES 0x18, 0x1a, 0xcd
#elif defined(S_m68hc12)
#define PREFIXES 0x18
#elif defined(S_m68hc08)
#define PREFIXES 0x9e
#elif defined(S_z80)
#define PREFIXES 0xcb, 0xdd, 0xed, 0xfd
#elif defined(S_rxk)
#define PREFIXES 0x49, 0x7f, 0xcb, 0xdd, 0xed, 0xfd
#elif defined(S_tlcs)
#define PREFIXES 0xe0, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe
#elif defined(S_f8)
#define PREFIXES 0x9c, 0x9d, 0x9e, 0x9f, 0x94, 0xd8
#endif
#ifdef PREFIXES
static const int prefix[] = { PREFIXES }; static const int nprefix = sizeof prefix / sizeof prefix[0];
#else
static const int prefix[] = { -1 }; static const int nprefix = 0;
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
#ifdef TYPE
#define TYPENAME STR(TYPE)
#else
#define TYPENAME 0
#endif
static int nchip; static cl_memory_chip *chips[64]; static char names[4096][12]; static int nreg; static void *regp[4096]; static int regb[4096];
static bool covered(void *p) { for (int i = 0; i < nchip; i++) if ((char *)p >= (char *)chips[i]->array && (char *)p < (char *)chips[i]->array + chips[i]->size * chip_esz(chips[i])) return true; return false; }
static t_addr first, last; static bool list;
static bool reg(cl_memory_cell *c, const char *nm) {
  void *d = c->get_data(); int w = c->get_width(); if (!d || c->get_flag(CELL_NON_DECODED) || covered(d) || w < 8 || d == &z->PC || d == &application->cyc || d == &application->period || nreg >= 4000) return false;
  for (int j = 0; j < nreg; j++) if (regp[j] == d && regb[j] >= w) return false;
  regp[nreg] = d; regb[nreg] = w; snprintf(names[nreg], 12, "%s_%d", nm, nreg); nreg++; return true;
}
extern "C" void sym_setup(void) {
  z = mk_sim<SIM>(CPUS, TYPENAME); z->reset(); VEC; list = getenv("ANYLIST");
  for (int i = 0; i < z->memchips->count && nchip < 64; i++) { cl_memory_chip *c = (cl_memory_chip *)z->memchips->at(i); if (c->is_chip() && c->array) { chips[nchip] = c; nchip++; } }
  for (int i = 0; i < z->vars->by_name.count; i++) { cl_cvar *v = z->vars->by_name.at(i); if (v->is_mem_var() || !v->get_cell()) continue; bool b = reg(v->get_cell(), v->get_name()); if (list && b) fprintf(stderr, "register %s:%d\n", v->get_name(), v->get_cell()->get_width()); }
  for (int i = 0; i < z->address_spaces->count; i++) { cl_memory *m = (cl_memory *)z->address_spaces->at(i); if (!m->is_address_space()) continue; cl_address_space *as = (cl_address_space *)m;
    int k = 0; if (as->size <= 4096 && !strstr(as->get_name(), "_cfg") && strcmp(as->get_name(), "variables")) for (int a = 0; a < as->size; a++) k += reg(&as->cella[a], as->get_name());
    if (list) fprintf(stderr, "space %s %lx w%d: %d registers\n", as->get_name(), (long)as->size, as->width, k); }
  cl_address_space *rom = (cl_address_space *)z->rom; int no = 0; first = 0; last = rom->size - 1; while (first < last && rom->cella[first].get_flag(CELL_NON_DECODED)) first++; while (last > first && rom->cella[last].get_flag(CELL_NON_DECODED)) last--;
#ifdef DETACH
  for (int i = 0; i < z->address_spaces->count; i++) { cl_address_space *as = (cl_address_space *)z->address_spaces->at(i); if (as->is_address_space()) for (UL a = 0; a < as->size; a++) as->cella[a].ops = 0; }
#endif
  for (UL a = 0; a < rom->size; a++) if (rom->cella[a].ops) { no++; if (list && no < 20) fprintf(stderr, "operator at %lx\n", a); }
  if (list) { for (int i = 0; i < nchip; i++) fprintf(stderr, "chip %s %lx w%d\n", chips[i]->get_name(), (long)chips[i]->size, chips[i]->width); fprintf(stderr, "%s rom %lx w%d, %d operators, %lx-%lx\n", z->id_string(), (long)z->rom->size, z->rom->width, no, (long)first, (long)last); }
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write"); sym_stub("cl_uc::inst_unknown");
}
extern "C" long sym_ncases(void) { return 256 + 256 * nprefix; }
extern "C" void sym_casename(long c, char *b, int k) { if (c < 256) snprintf(b, k, "%s_%02lx", TYPENAME ? TYPENAME : "", c); else snprintf(b, k, "%s_%02x_%02lx", TYPENAME ? TYPENAME : "", prefix[c / 256 - 1], c & 255); }
extern "C" void sym_test(long c) {
  int c2 = -1; if (c >= 256) { c2 = c & 255; c = prefix[c / 256 - 1];
#ifdef S_f8
    for (int i = 0; i < nprefix; i++) if (c2 == prefix[i]) return;
#endif
  } else for (int i = 0; i < nprefix; i++) if (c == prefix[i]) return;
  for (int i = 0; i < nchip; i++) sym_chip(chips[i], chips[i]->get_name());
  for (int i = 0; i < nreg; i++) sym_array(regp[i], 1, (regb[i] + 7) / 8, regb[i], names[i]);
#ifdef S_stm8
  if (c == 0x80 || c == 0x83 || c2 == 0x80 || c2 == 0x83) { static const int sp[] = { 0x17ff, 0x3ff, 0, 5, 0xffff, 0xfffa }; ((cl_stm8 *)z)->regs.SP = sp[sym_int("sp", 3) % 6]; ((cl_stm8 *)z)->regs.SP = sym_fork(((cl_stm8 *)z)->regs.SP); }
#endif
  int w = z->rom->width; int end = sym_fork(SYM1("end")); t_addr pc = z->rom->start_address + (end ? last : (first + 0x40) % z->rom->size);
  t_mem o = c; if (w > 8) o = (c << (w - 8)) | (SYM32("op") & ((1ul << (w - 8)) - 1));
  z->rom->download(pc, o); if (c2 >= 0) z->rom->download(end ? z->rom->start_address + first : pc + 1, c2); z->PC = z->instPC = pc; z->inst_ticks = 0;
  int len = end ? 1 : z->inst_length(pc); bool kn = !end && KNOWN(pc); unsigned long f0 = z->vc.fetch;
  REQ(len >= 1 && len <= 8, "length of the instruction is in range");
  int r = z->exec_inst();
  sym_observe("len", len); sym_observe("fetched", z->vc.fetch - f0);
#ifdef DBG
  if (kn && r != resINV_INST && r != resINV && !(z->PC == pc + len || (int)(z->vc.fetch - f0) == len)) { sym_print("op", c); sym_print("op2", z->rom->get(pc + 1)); sym_print("len", len); sym_print("fetched", z->vc.fetch - f0); sym_print("pc+", z->PC - pc); }
#endif
  if (kn && r != resINV_INST && r != resINV) REQ(z->PC == pc + len || (int)(z->vc.fetch - f0) == len, "reported length of the instruction");
  REQ(r >= resGO && r <= resSELFJUMP, "result code");
}
