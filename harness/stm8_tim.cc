// STM8 timers: counting, prescaler, update events, clock gating and interrupt requests of every timer of a device.
#include "uc_common.h"
#include "glob.h"
#include "simstm8cl.h"
#include "stm8cl.h"
#include "timercl.h"
#include "itsrccl.h"
#ifndef V
#define V 0
#endif
static cl_stm8 *z;
// timers of the devices: number, base, number of bits, prescaler bits, both directions, registers, vector, clock gate
struct TD { int id; U16 b; int bits, pb; bool bi; U8 ier, sr, egr, cnt, psc, arr, vec; U16 ck; U8 cm; };
static const TD TDS[][5] = {
 { {1, 0x5250, 16, 16, 1, 4, 5, 7, 14, 16, 18, 11, 0x50c7, 0x80}, {2, 0x5300, 16, 4, 0, 1, 2, 4, 10, 12, 13, 13, 0x50c7, 0x20}, {3, 0x5320, 16, 4, 0, 1, 2, 4, 8, 10, 11, 15, 0x50c7, 0x40}, {4, 0x5340, 8, 3, 0, 1, 2, 3, 4, 5, 6, 23, 0x50c7, 0x10} },
 { {1, 0x5250, 16, 16, 1, 4, 5, 7, 14, 16, 18, 11, 0x50c7, 0x80}, {2, 0x5300, 16, 4, 0, 3, 4, 6, 12, 14, 15, 13, 0x50c7, 0x20}, {4, 0x5340, 8, 3, 0, 3, 4, 5, 6, 7, 8, 23, 0x50c7, 0x10} },
 { {1, 0x5250, 16, 16, 1, 4, 5, 7, 14, 16, 18, 11, 0x50c7, 0x80}, {5, 0x5300, 16, 4, 0, 3, 4, 6, 12, 14, 15, 13, 0x50c7, 0x20}, {6, 0x5340, 8, 3, 0, 3, 4, 5, 6, 7, 8, 23, 0x50c7, 0x10} },
 { {1, 0x52b0, 16, 16, 1, 5, 6, 8, 15, 17, 19, 23, 0x50c4, 0x02}, {2, 0x5250, 16, 3, 1, 5, 6, 8, 12, 14, 15, 19, 0x50c3, 0x01}, {3, 0x5280, 16, 3, 1, 5, 6, 8, 12, 14, 15, 21, 0x50c3, 0x02}, {4, 0x52e0, 8, 4, 0, 4, 5, 6, 7, 8, 9, 25, 0x50c3, 0x04}, {5, 0x5300, 16, 3, 1, 5, 6, 8, 12, 14, 15, 27, 0x50d0, 0x02} },
 { {2, 0x5250, 16, 3, 1, 4, 5, 7, 11, 13, 14, 19, 0x50c3, 0x01}, {3, 0x5280, 16, 3, 1, 4, 5, 7, 11, 13, 14, 21, 0x50c3, 0x02}, {4, 0x52e0, 8, 4, 0, 3, 4, 5, 6, 7, 8, 25, 0x50c3, 0x04} } };
static const int NTS[] = {4, 3, 3, 5, 3}; static const char *DN[] = {"STM8S208", "STM8S103", "STM8S903", "STM8L162", "STM8L101"};
static const int NT = NTS[V]; static const TD *t; static cl_hw *h[8]; static cl_hw *hw;
extern "C" void sym_setup(void) {
  z = (cl_stm8 *)mk_sim<cl_simstm8>(cpus_stm8, DN[V]);
  for (int k = 0; k < NT; k++) for (int i = 0; i < z->hws->count && !h[k]; i++) { cl_hw *x = (cl_hw *)z->hws->at(i); if (x->category == HW_TIMER && x->id == TDS[V][k].id) h[k] = x; }
  sym_stub("cl_app::debug"); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
enum { cEDGE, cCENTER, cUG, cREAD, cGATE, cIRQ, cHIST, nHIST = 6, cPSC = cHIST + nHIST, nPSC = 12, NC = cPSC + nPSC };
static const U16 PV[] = {0, 1, 2, 5, 7, 8, 9, 15, 100, 255, 256, 300};
static const char *CN[] = {"edge", "center", "update", "read", "gate", "interrupt"};
static const char *HN[] = {"run", "control", "update", "counter", "reload", "clear"};
extern "C" long sym_ncases(void) { return NT * NC; }
extern "C" void sym_casename(long c, char *b, int n) { int k = c % NC; if (k < cHIST) snprintf(b, n, "timer%d:%s", TDS[V][c / NC].id, CN[k]); else if (k < cPSC) snprintf(b, n, "timer%d:history:%s-first", TDS[V][c / NC].id, HN[k - cHIST]); else snprintf(b, n, "timer%d:prescaler:%d", TDS[V][c / NC].id, PV[k - cPSC]); }
static U8 rd(int r) { return z->rom->read(t->b + r); } static void wr(int r, U8 v) { z->rom->write(t->b + r, v); }
static U16 cnt() { if (t->bits == 8) return rd(t->cnt); U16 v = rd(t->cnt) << 8; return v | rd(t->cnt + 1); }
static void w2(int r, U16 v) { if (t->bits == 8) wr(r, v); else { wr(r, v >> 8); wr(r + 1, v); } }
static void psc(U16 p) { if (t->pb == 16) { wr(t->psc, p >> 8); wr(t->psc + 1, p); } else wr(t->psc, p); }
// model of the timer in edge aligned mode without prescaler
static U16 mC, mA, mM; static U8 mcr; static bool muif;
static void mtick() { if (!(mcr & 1)) return; bool ev; if (mcr & 0x10) { ev = mC == 0; mC = ev ? mA : mC - 1; } else { ev = mC == mA; mC = ev ? 0 : (mC + 1) & mM; } if (ev & !(mcr >> 1 & 1)) { muif = 1; if (mcr & 8) mcr &= ~1; } }
static void hop(int o, int i) {
  char nm[8]; snprintf(nm, 8, "v%d", i);
  if (o == 0) { int n = 1 + i; hw->tick(n); while (n--) mtick(); return; }
  U16 v = SYM16(nm); switch (o) {
    case 1: v &= 0x9f; wr(0, v); mcr = t->bi ? v : v & 0x8f; break;
    case 2: if (v & 1) { mC = mcr & 0x10 ? mA : 0; if (!(mcr & 6)) muif = 1; if ((mcr & 8) && !(mcr & 2)) mcr &= ~1; } wr(t->egr, v); break;
    case 3: v &= mM; w2(t->cnt, v); mC = v; break;
    case 4: v &= mM; sym_assume(v != 0); w2(t->arr, v); mA = v; break;
    case 5: wr(t->sr, v); if (!(v & 1)) muif = 0; break; } }
// stopped timer with the given counter, reload value and prescaler
static void put(U16 c, U16 a, U16 p) { wr(0, 0); psc(p); w2(t->arr, a); wr(t->egr, 1); w2(t->cnt, c); wr(t->sr, 0); }
extern "C" void sym_test(long c) {
  int k = c / NC, o = c % NC; t = &TDS[V][k]; hw = h[k]; REQ(hw != 0, "the device has the timer");
  U16 mask = t->bits == 8 ? 0xff : 0xffff; z->rom->write(t->ck, o == cGATE ? (U8)(SYM8("gate")) : 0xff);
  if (o >= cPSC) {
    U16 v = PV[o - cPSC]; if (t->pb == 3) { if (v > 7) return; } else if (t->pb == 4) { if (v > 9) return; }
    long p = t->pb == 16 ? v + 1L : 1L << v; U16 c0 = SYM16("cnt") & mask; sym_assume(c0 < mask - 2); put(c0, mask, v); wr(0, 1);
    if (p > 1) hw->tick(p - 1); REQ(cnt() == c0, "the counter waits for the prescaler"); hw->tick(1); REQ(cnt() == (U16)(c0 + 1), "the prescaler divides the clock by its value");
    if (p > 2) { hw->tick(1); hw->tick(p - 2); REQ(cnt() == (U16)(c0 + 1), "the counter waits for the prescaler again"); hw->tick(1); } else hw->tick(p); REQ(cnt() == (U16)(c0 + 2), "the prescaler divides the clock by its value again");
    REQ(!(rd(t->sr) & 1), "no update event before the end of the period"); return;
  }
  if (o >= cHIST) {
    mM = mask; mC = SYM16("cnt") & mask; mA = SYM16("arr") & mask; sym_assume(mA != 0); put(mC, mA, 0); mcr = SYM8("cr1") & 0x9f; wr(0, mcr); if (!t->bi) mcr &= 0x8f; muif = 0;
    hop(o - cHIST, 0); for (int i = 1; i < (sym_thorough() ? 4 : 3); i++) { char nm[8]; snprintf(nm, 8, "op%d", i); U8 v = SYM8(nm); int j = 0; while (j < 5 && !sym_fork(v == j)) j++; hop(j, i); } hw->tick(1); mtick();
    sym_observe("cnt", cnt()); REQ(cnt() == mC, "the counter after a history of accesses and clocks"); REQ((rd(t->sr) & 1) == muif, "the update flag after a history of accesses and clocks"); REQ(rd(0) == mcr, "the control register after a history of accesses and clocks"); return;
  }
  U16 C = SYM16("cnt") & mask, A = SYM16("arr") & mask; sym_assume((A != 0) & (C <= A)); U8 cr = SYM8("cr1"), ie = SYM8("ier") & 1;
  if (o == cEDGE || o == cUG || o == cGATE || o == cREAD || o == cIRQ) cr &= 0x9f; else cr |= 0x01;
  U8 eff = t->bi ? cr : cr & 0x8f; bool dn = eff >> 4 & 1, en = eff & 1, ud = eff >> 1 & 1, op = eff >> 3 & 1, cen = eff & 1;
  if (o == cCENTER) { if (!t->bi) { sym_assume(cr & 0x60); } else { sym_assume((cr & 0x60) != 0); if (dn) sym_assume(C >= 1); else sym_assume(C < A); } }
  put(C, A, 0); wr(0, cr); wr(t->ier, ie); REQ(rd(0) == eff, "the control register holds what is written"); REQ(cnt() == C, "the counter holds what is written"); REQ(rd(t->arr) == (t->bits == 8 ? A : A >> 8), "the reload register holds what is written"); if (t->bits == 16) REQ(rd(t->arr + 1) == (U8)A, "the reload register holds what is written (low)");
  if (o == cGATE) { U8 g = z->rom->read(t->ck); hw->tick(1); if (!(g & t->cm)) { REQ(cnt() == C, "a timer without clock stands"); REQ(rd(0) == eff, "a timer without clock does nothing"); } else sym_assume(C != A); if (g & t->cm) REQ(dn | !cen | (cnt() == (U16)(C + 1)), "a timer with clock counts"); return; }
  if (o == cREAD) { if (t->bits == 8) { REQ(rd(t->cnt) == C, "the counter is read"); return; } sym_assume(cr & 1); U8 hi = rd(t->cnt); hw->tick(3); REQ(hi == C >> 8, "high byte of the counter"); REQ(rd(t->cnt + 1) == (U8)C, "the low byte belongs to the high byte read before"); return; }
  if (o == cUG) {
    wr(t->egr, 1); REQ(cnt() == (dn ? A : 0), "an update by program restarts the counter"); REQ((rd(t->sr) & 1) == !((eff >> 1 | eff >> 2) & 1), "the update flag tells about the update unless it is disabled"); REQ(rd(t->egr) == 0, "the event register is cleared");
    U8 s = rd(t->sr); wr(t->sr, 0xff); REQ(rd(t->sr) == s, "the program can not set flags"); wr(t->sr, 0xfe); REQ(!(rd(t->sr) & 1), "the program clears the flag"); return; }
  if (o == cIRQ) {
    if (SYM8("event")) { sym_assume(!(cr & 6)); wr(t->egr, 1); } int n = 0; bool rq = false, ad = false; bool u = rd(t->sr) & 1;
    for (int i = 0; i < z->it_sources->count; i++) { cl_it_src *s = (cl_it_src *)z->it_sources->at(i); if (s->nuof != t->vec || s->addr != (t_addr)(0x8008 + 4 * t->vec)) continue; cl_memory_cell *q = z->rom->get_cell(t->b + t->sr); bool was = s->pending(); n++; rq |= s->enabled() & was; (void)q; }
    REQ(n > 0, "the timer has its interrupt"); REQ(rq == ((ie != 0) & u), "interrupt is requested when the flag and its enable bit are set"); return; }
  hw->tick(1); U16 e = C; bool ev = false; U8 ec = eff;
  if (o == cEDGE || !t->bi) { if (cen) { if (dn) { ev = C == 0; e = ev ? A : C - 1; } else { ev = C == A; e = ev ? 0 : C + 1; } } }
  else { if (dn) { e = C - 1; ev = e == 0; if (ev) ec &= ~0x10; } else { e = C + 1; ev = e == A; if (ev) ec |= 0x10; } }
  bool up = ev & !ud; if (up & op) ec &= ~1;
  sym_observe("cnt", cnt()); REQ(cnt() == e, "the counter steps to its next value"); REQ((rd(t->sr) & 1) == up, "the update flag is set at the end of the period only"); REQ(rd(0) == ec, "direction and one pulse mode at the update event");
}
