// MC6821 parallel interface: ports, data direction, control lines, flags and interrupt requests.
#include "uc_common.h"
#include "simm6800cl.h"
#include "m6800cl.h"
#include "glob68.h"
#include "piacl.h"
#include "itsrccl.h"
#undef SP
#undef CC
static cl_m6800 *z; static cl_pia *p; enum { B0 = 0x8010 };
enum { WD, WC, RD, RC, IN, CI, TICK, RQ, NK }; static const char *KN[] = {"write-data", "write-control", "read-data", "read-control", "pins", "control-lines", "clock", "requests"};
static int nops() { return sym_thorough() ? 4 : 3; }
extern "C" void sym_setup(void) {
  z = (cl_m6800 *)mk_sim<cl_simm6800>(cpus_m6800, "6800"); for (int i = 0; i < z->hws->count && !p; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_PORT && h->id == 0 && !strcmp(h->id_string, "pia")) p = (cl_pia *)h; }
  sym_stub("cl_app::debug"); sym_stub("cl_uc::stack_write"); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
static int fact(void) { int n = 2; for (int i = 0; i < nops(); i++) n *= NK; return n; }
extern "C" long sym_ncases(void) { return fact() + 2; }
extern "C" void sym_casename(long c, char *b, int n) {
  if (c >= fact()) { snprintf(b, n, c == fact() ? "reset" : "cpu"); return; } snprintf(b, n, "%c", c & 1 ? 'b' : 'a'); c >>= 1; for (int i = 0; i < nops(); i++, c /= NK) snprintf(b + strlen(b), n - strlen(b), ":%s", KN[c % NK]); }
struct side { U8 cr, dr, o, in, ci, co; } S[2];   // ci: bit0 C1, bit1 C2 levels, co: output on C2
static cl_memory_cell *dd(int s) { return s ? p->ddrb : p->ddra; }
static cl_memory_cell *orr(int s) { return s ? p->orb : p->ora; }
static void cbit(side &m) { U8 k = (m.cr & 0x30) == 0x30; m.co = (m.co & ~-k | m.cr >> 3 & -k) & 1; }
// comparisons without branches; the functions of the device only for the side used, at the end
static void check(int me) {
  for (int s = 0; s < 2; s++) { side &m = S[s];
    U8 cr = z->rom->get(B0 + 2 * s + 1); sym_observe(s ? "crb" : "cra", cr); U8 oc = (s ? p->ocb : p->oca)->get() >> 1 & 1;
    REQ(dd(s)->get() == m.dr, "the data direction register holds what was written"); REQ(orr(s)->get() == m.o, "the output register holds what was written");
    REQ((cr & 0x3f) == (m.cr & 0x3f), "the control register holds what was written"); REQ((cr & 0x80) == (m.cr & 0x80), "the flag of C1 tells about active edges since the last read of the data"); REQ((cr & 0x40) == (m.cr & 0x40), "the flag of C2 tells about active edges of the input since the last read of the data");
    REQ(((m.cr & 0x20) == 0) | (oc == m.co), "the level of C2 as output");
    if (s != me) continue;
    if (m.cr & 0x20) REQ((s ? p->cb2() : p->ca2()) == m.co, "the level of C2 as output");
    cl_it_src *i1 = s ? p->is_cb1 : p->is_ca1, *i2 = s ? p->is_cb2 : p->is_ca2;
    bool e1 = i1->enabled(), p1 = i1->pending(), e2 = i2->enabled(), p2 = i2->pending();
    REQ((e1 & p1) == ((m.cr & 0x81) == 0x81), "C1 requests interrupt when its flag is set and it is enabled"); REQ((e2 & p2) == ((m.cr & 0x68) == 0x48), "C2 requests interrupt when its flag is set, it is enabled, and it is an input");
    U8 pins = s ? (m.in & ~m.dr) | (m.o & m.dr) : (m.in & ~m.dr) | (m.o & m.dr & m.in); REQ((U8)(s ? p->irb() : p->ira()) == pins, "what the port reads");
  }
}
extern "C" void sym_test(long c) {
  if (c == fact()) {
    for (int s = 0; s < 2; s++) { z->rom->set(B0 + 2 * s + 1, SYM8(s ? "crb" : "cra")); dd(s)->set(SYM8(s ? "ddrb" : "ddra")); orr(s)->set(SYM8(s ? "orb" : "ora")); }
    p->reset(); for (int s = 0; s < 2; s++) { side &m = S[s]; m.cr = m.dr = m.o = 0; m.in = (s ? p->inb : p->ina)->get(); }
    check(0); check(1); return;
  }
  if (c == fact() + 1) {   // the request reaches the CPU
    U8 cr[2]; bool want = false; for (int s = 0; s < 2; s++) { cr[s] = SYM8(s ? "crb" : "cra"); z->rom->set(B0 + 2 * s + 1, cr[s]); want |= ((cr[s] & 0x81) == 0x81) | ((cr[s] & 0x68) == 0x48); }
    for (int i = 0; i < 4; i++) { z->rom->set(0x1000 + i, 1); z->rom->set(0x4000 + i, 1); } z->rom->set(0xfff8, 0x40); z->rom->set(0xfff9, 0); z->SP = 0x7f0; z->PC = 0x1000; z->CC.cc16.cc8.ccl = 0xc0; z->wai = false; z->state = stGO;
    z->do_inst(); z->do_inst(); REQ((z->PC >= 0x4000) == want, "the CPU is interrupted exactly when a line requests it");
    for (int s = 0; s < 2; s++) REQ(z->rom->get(B0 + 2 * s + 1) == cr[s], "accepting the interrupt keeps the flags");
    return;
  }
  int me = c & 1; c >>= 1;
  for (int s = 0; s < 2; s++) { side &m = S[s]; m.cr = SYM8(s ? "crb" : "cra"); sym_assume((m.cr & 0x60) != 0x60); m.dr = SYM8(s ? "ddrb" : "ddra"); m.o = SYM8(s ? "orb" : "ora"); m.in = SYM8(s ? "inb" : "ina"); m.ci = SYM8(s ? "incb" : "inca") & 3; m.co = SYM1(s ? "cb2out" : "ca2out"); cbit(m);
    z->rom->set(B0 + 2 * s + 1, m.cr); dd(s)->set(m.dr); orr(s)->set(m.o); (s ? p->inb : p->ina)->set(m.in); (s ? p->incb : p->inca)->set(m.ci); (s ? p->ocb : p->oca)->set(m.co << 1); }
  p->prev_ca1 = S[0].ci & 1; p->prev_ca2 = S[0].ci >> 1; p->prev_cb1 = S[1].ci & 1; p->prev_cb2 = S[1].ci >> 1;
  REQ(p->crb == z->rom->get_cell(B0 + 3) && p->cra == z->rom->get_cell(B0 + 1), "the control registers are at their addresses");
  check(-1);
  static const char *vn[] = {"v0", "v1", "v2", "v3"};
  side &m = S[me]; int a = B0 + 2 * me;
  for (int i = 0; i < nops(); i++, c /= NK) { U8 v = SYM8(vn[i]);
    switch (c % NK) {
    case WD: z->rom->write(a, v); if (m.cr & 4) { m.o = v; if (me && (m.cr & 0x30) == 0x20) m.co = 0; } else m.dr = v; break;
    case WC: z->rom->write(a + 1, v); m.cr = (m.cr & 0xc0) | (v & 0x3f); if (m.cr & 0x20) m.cr &= ~0x40; cbit(m); break;
    case RD: { U8 r = z->rom->read(a); if (m.cr & 4) { U8 e = me ? (m.in & ~m.dr) | (m.o & m.dr) : (m.in & ~m.dr) | (m.o & m.dr & m.in); REQ(r == e, "reading the port"); m.cr &= 0x3f; if (!me && (m.cr & 0x30) == 0x20) m.co = 0; } else REQ(r == m.dr, "reading the data direction register"); break; }
    case RC: { U8 r = z->rom->read(a + 1); REQ(r == m.cr, "reading the control register"); break; }
    case IN: p->cfg_write(me ? cfg_inb : cfg_ina, v); m.in = v; break;
    case CI: { U8 n = v & 3; sym_assume(!(m.cr & 0x20) || (n & 2) == (m.ci & 2)); p->cfg_write(me ? cfg_incb : cfg_inca, n);
      if ((n ^ m.ci) & 1 && (n & 1) == (m.cr >> 1 & 1)) { m.cr |= 0x80; if ((m.cr & 0x38) == 0x20) m.co = 1; }
      if (!(m.cr & 0x20) && (n ^ m.ci) & 2 && (n >> 1) == (m.cr >> 4 & 1)) m.cr |= 0x40;
      m.ci = n; break; }
    case TICK: p->tick(1); for (int s = 0; s < 2; s++) S[s].co |= (S[s].cr & 0x38) == 0x28; break;
    case RQ: { U8 r = p->cfg_read(cfg_reqs); REQ(r == ((S[0].cr & 0x40 ? 8 : 0) | (S[0].cr & 0x80 ? 4 : 0) | (S[1].cr & 0x40 ? 2 : 0) | (S[1].cr & 0x80 ? 1 : 0)), "the requests cell shows the flags");
      v &= 15; if (S[0].cr & 0x20) v &= ~8; if (S[1].cr & 0x20) v &= ~2; p->cfg_write(cfg_reqs, v); S[0].cr = (S[0].cr & 0x3f) | (v & 8 ? 0x40 : 0) | (v & 4 ? 0x80 : 0); S[1].cr = (S[1].cr & 0x3f) | (v & 2 ? 0x40 : 0) | (v & 1 ? 0x80 : 0); break; }
    }
    check(i + 1 == nops() ? me : -1);
  }
}
