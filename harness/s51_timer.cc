// MCS-51 timers 0, 1 and 2 against a model of the hardware description: registers, pins and counts are symbolic.
#include "isa_common.h"
#include "sim51cl.h"
#include "uc51cl.h"
#include "timer2cl.h"
#include "portcl.h"
#include "regs51.h"
static cl_51core *z; static cl_port *P_[4];
struct T { U8 tl, th; }; static T t0, t1, t2, rc; static U8 tcon, tmod, t2con, t2mod; static U8 latch[4], pin[4]; static bool edge0, edge1, edge2, edgeEx;
static U8 port(int i) { return latch[i] & pin[i]; }
static bool inc16(T &t) { if (!++t.tl) return !++t.th; return false; }
static bool inc13(T &t) { t.tl = (t.tl + 1) & 0x1f; return !t.tl && !++t.th; }
// n counts of timer i; returns nothing, sets the overflow flag
static void count(int i, T &t, int mode, int n) {
  U8 TF = i ? bmTF1 : bmTF0; bool m3 = (tmod & 3) == 3; // timer 0 in mode 3 owns TF1
  while (n--) { bool ov = false;
    switch (mode) { case 0: ov = inc13(t); break; case 1: ov = inc16(t); break; case 2: ov = !++t.tl; if (ov) t.tl = t.th; break; case 3: if (i == 0) ov = !++t.tl; break; }
    if (ov && !(i == 1 && m3)) tcon |= TF; }
}
static void tick(int n) {
  U8 p3 = port(3); bool m3 = (tmod & 3) == 3;
  bool run0 = (tcon & bmTR0) && (!(tmod & bmGATE0) || (p3 & bm_INT0)), run1 = (m3 || (tcon & bmTR1)) && (!(tmod & bmGATE1) || (p3 & bm_INT1));
  if (run0) count(0, t0, tmod & 3, tmod & bmC_T0 ? edge0 : n);
  if (run1) count(1, t1, tmod >> 4 & 3, tmod & bmC_T1 ? edge1 : n);
  if (m3 && (tcon & bmTR1)) for (int k = 0; k < n; k++) if (!++t0.th) tcon |= bmTF1;
  edge0 = edge1 = false;
}
static void reload2(void) { t2 = rc; }
static void tick2(int n) {
  bool baud = t2con & (bmRCLK | bmTCLK), down = !baud && !(t2con & bmCP_RL2) && (t2mod & bmDCEN);
  if (!down && (t2con & bmEXEN2) && edgeEx) { t2con |= bmEXF2; if (!baud) { if (t2con & bmCP_RL2) rc = t2; else reload2(); } }
  edgeEx = false;
  if (t2con & bmTR2) { int c = t2con & bmC_T2 ? edge2 : baud ? 6 * n : n;
    while (c--) {
      if (down && !(port(1) & bmT2EX)) { if (t2.tl == rc.tl && t2.th == rc.th) { t2.tl = t2.th = 0xff; t2con |= bmTF2; t2con ^= bmEXF2; } else if (!t2.tl--) t2.th--; }
      else if (inc16(t2)) { if (!baud) t2con |= bmTF2; if (baud || !(t2con & bmCP_RL2)) reload2(); if (down) t2con ^= bmEXF2; } } }
  edge2 = false;
}
static void setport(int i, U8 l, U8 p, bool first) { // the latch is written, then the pins change
  U8 o = port(i); latch[i] = l; z->sfr->write(i == 1 ? P1 : P3, l); U8 m = port(i); pin[i] = p; P_[i]->set_pin(p); U8 n = port(i); if (first) return;
  U8 e = (o & ~m) | (m & ~n); if (i == 3) { edge0 = e & bmT0; edge1 = e & bmT1; } else { edge2 = e & bmT2; edgeEx = e & bmT2EX; }
}
static void wr(U8 a, U8 v) { z->sfr->write(a, v); }
// the register is written directly, or one of its bits is written by its bit address afterwards
static int kind; // 0: the pins change, 1, 2: a control bit is written through its bit address
static void wrbits(U8 a, U8 v, int b1, int b2) { if (kind) { int b = kind == 1 ? b1 : b2; z->sfr->write(a, v ^ 1 << b); z->bits->write(a + b, v >> b & 1); } else z->sfr->write(a, v); }
static int ch; // the pins that matter
static U8 bits(const char *n) { int lo = ch & -ch, hi = ch & ~lo; return ~ch | (sym_fork(SYM1(n)) ? lo : 0) | (sym_fork(SYM8(n) >> 1 & 1) ? hi : 0); }
static void event(int i, int k) { // the latch or the pins change
  if (kind) { setport(i, latch[i], pin[i], false); return; }
  if (!k && sym_fork(SYM1("by_latch"))) setport(i, bits("latch1"), pin[i], false); else setport(i, latch[i], bits(k ? "pins2" : "pins1"), false); }
extern "C" void sym_setup(void) {
  z = (cl_51core *)mk_sim<cl_sim51>(cpus_51, "C52"); z->reset();
  for (int i = 0; i < z->hws->count; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_PORT && h->id < 4) P_[h->id] = (cl_port *)h; }
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
static const char *t2name[] = { "reload", "capture", "baud", "down" };
extern "C" long sym_ncases(void) { return 16; }
extern "C" void sym_casename(long c, char *b, int k) { if (c < 4) snprintf(b, k, "t0_mode%ld", c); else if (c < 8) snprintf(b, k, "t1_mode%ld", c & 3); else if (c < 12) snprintf(b, k, "t1_mode%ld_t0_mode3", c & 3); else snprintf(b, k, "t2_%s", t2name[c & 3]); }
#define GET(a) ((U8)z->sfr->get(a))
extern "C" void sym_test(long c) {
  int NB = c < 12 ? 3 : 1; ch = c < 4 ? 0x14 : c < 12 ? 0x28 : 3; kind = sym_fork(SYM8("bitwise") & 3); if (kind == 3) return; setport(NB, 0xff, bits("pins"), true); z->tick_hw(1);
  int n = c == 14 ? 1 : sym_thorough() ? 1 + sym_fork(SYM8("n") & 3) : sym_fork(SYM1("n")) ? 2 : 1;
  if (c < 12) {
    int m0 = c < 4 ? c : c < 8 ? 1 : 3, m1 = c < 4 ? 3 : c & 3; tmod = (SYM8("tmod") & (c < 4 ? 0x0c : 0xc0)) | m0 | m1 << 4; tcon = SYM8("tcon"); if (c >= 4) tcon &= ~bmTR0;
    if (c >= 8) sym_assume(!(tmod & bmGATE1));   // how GATE1 acts while timer 0 owns TR1 is not documented
    wr(TMOD, tmod); wrbits(TCON, tcon, c < 4 ? 4 : 6, c < 4 ? 6 : 4);
    t0.tl = SYM8("tl0"); t0.th = SYM8("th0"); t1.tl = SYM8("tl1"); t1.th = SYM8("th1"); wr(TL0, t0.tl); wr(TH0, t0.th); wr(TL1, t1.tl); wr(TH1, t1.th);
    for (int k = 0; k < 2; k++) { event(3, k); z->tick_hw(k ? 1 : n); tick(k ? 1 : n); }
    bool lo0 = m0 == 0, lo1 = m1 == 0;
    REQ((GET(TL0) & (lo0 ? 0x1f : 0xff)) == (t0.tl & (lo0 ? 0x1f : 0xff)), "TL0"); REQ(GET(TH0) == t0.th, "TH0"); REQ((GET(TL1) & (lo1 ? 0x1f : 0xff)) == (t1.tl & (lo1 ? 0x1f : 0xff)), "TL1"); REQ(GET(TH1) == t1.th, "TH1");
    REQ((GET(TCON) & 0xf5) == (tcon & 0xf5), "TCON"); REQ(GET(TMOD) == tmod, "TMOD");
    sym_observe("tl0", GET(TL0)); sym_observe("th1", GET(TH1)); sym_observe("tcon", GET(TCON));
  } else {
    t2con = SYM8("t2con"); t2mod = c == 15 ? bmDCEN : 0; int m = c & 3;
    if (m == 2) sym_assume((t2con & (bmRCLK | bmTCLK)) != 0); else t2con = (t2con & ~(bmRCLK | bmTCLK | bmCP_RL2)) | (m == 1 ? bmCP_RL2 : 0);
    bool late = sym_fork(SYM1("t2mod_after")); if (!late) wr(T2MOD, t2mod); wrbits(T2CON, t2con, 2, 3); if (late) wr(T2MOD, t2mod);
    t2.tl = SYM8("tl2"); t2.th = SYM8("th2"); rc.tl = SYM8("rcl"); rc.th = SYM8("rch"); wr(TL2, t2.tl); wr(TH2, t2.th); wr(RCAP2L, rc.tl); wr(RCAP2H, rc.th);
    
    for (int k = 0; k < 2; k++) { event(1, k); z->tick_hw(k ? 1 : n); tick2(k ? 1 : n); }
    REQ(GET(TL2) == t2.tl, "TL2"); REQ(GET(TH2) == t2.th, "TH2"); REQ(GET(RCAP2L) == rc.tl, "RCAP2L"); REQ(GET(RCAP2H) == rc.th, "RCAP2H"); REQ(GET(T2CON) == t2con, "T2CON");
    REQ(GET(P1) == latch[1], "port latch unchanged");
    sym_observe("tl2", GET(TL2)); sym_observe("t2con", GET(T2CON));
  }
}
