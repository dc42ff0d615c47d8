// MCS-51 programmable counter array and watchdog timer of the 89C51R against a model of the hardware description.
#include "isa_common.h"
#include "sim51cl.h"
#include "uc51cl.h"
#include "regs51.h"
#undef PORTCL_HEADER
#include "portcl.h"
extern struct cpu_entry cpus_51[];
static cl_51core *z; static cl_port *p1; static cl_hw *wdt;
enum { CAPP_, CAPN_, CAPB_, SOFT, TOGM, PWMM, OFF_, NM };
static const char *MN[] = {"rising", "falling", "both", "match", "toggle", "pwm", "off"};
static const U8 MV[] = {0x20, 0x10, 0x30, 0x48, 0x4c, 0x42, 0x08};
static const char *SN[] = {"clock12", "clock4", "timer0", "eci"};
static const U8 CAPM_[] = {CCAPM0, CCAPM1, CCAPM2, CCAPM3, CCAPM4}, CAPL_[] = {CCAP0L, CCAP1L, CCAP2L, CCAP3L, CCAP4L}, CAPH_[] = {CCAP0H, CCAP1H, CCAP2H, CCAP3H, CCAP4H};
extern "C" void sym_setup(void) {
  z = (cl_51core *)mk_sim<cl_sim51>(cpus_51, "89C51R"); z->reset();
  for (int i = 0; i < z->hws->count; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_PORT && h->id == 1) p1 = (cl_port *)h; if (h->category == HW_WDT) wdt = h; }
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_uc::stack_write"); sym_stub("cl_app::debug");
}
extern "C" long sym_ncases(void) { return 4 * NM * 5 + 1; }
extern "C" void sym_casename(long c, char *b, int n) { if (c == 4 * NM * 5) snprintf(b, n, "watchdog"); else snprintf(b, n, "%s:%s:module%ld", SN[c & 3], MN[(c >> 2) % NM], (c >> 2) / NM); }
#define GET(a) ((U8)z->sfr->get(a))
static void wr(U8 a, U8 v) { z->sfr->write(a, v); }
static void watchdog(void) { // started and restarted by 1e, e1 written in this order; resets the CPU when it expires
  z->PC = 0x123; bool run = false; U8 last = 0; int n = 0;
  for (int i = 0; i < 4; i++) { char t[8]; snprintf(t, 8, "w%d", i); U8 v = SYM8(t); v = sym_fork(v == 0x1e) ? 0x1e : sym_fork(v == 0xe1) ? 0xe1 : v; wr(WDTRST, v); if (last == 0x1e && v == 0xe1) run = true, n = 0; last = v; if (i & 1) { wdt->tick(0x3000); n += 0x3000; if (run) { REQ((z->PC == 0) == (n > 0x3fff), "the watchdog resets the CPU when it is not restarted in time"); if (n > 0x3fff) return; } } }
  REQ(z->PC == 0x123, "the watchdog does not reset before its time"); wdt->tick(0x3ffe - (run ? n : 0)); REQ(z->PC == 0x123, "the watchdog does not reset before its time"); wdt->tick(4); REQ((z->PC == 0) == run, "the watchdog resets the CPU when it is not restarted in time"); }
extern "C" void sym_test(long c) {
  if (c == 4 * NM * 5) { watchdog(); return; }
  if ((c & 3) && (c >> 2) / NM > 0 && (c >> 2) / NM < 4) return;
  int src = c & 3, m = (c >> 2) % NM, k = (c >> 2) / NM; U8 cex = 8 << k, ccf = 1 << k;
  int eccf = SYM1("eccf"), cr = SYM1("cr"), bybit = SYM1("cr_by_bit"); bybit = k == 0 && src == 0 && m == TOGM && sym_fork(bybit); cr = src > 1 || m > SOFT || sym_fork(cr); eccf = src == 0 && sym_fork(eccf); int idle = SYM1("idle"), order = SYM1("order"); sym_assume(m == SOFT || !order); idle = src == 0 && m == SOFT && k == 0 && sym_fork(idle); order = order && src == 0 && sym_fork(order);
  U8 cmod = SYM8("cmod") & 0xc1 | src << 1, ccon = SYM8("ccon") & (src ? 0x9f : 0x80 | ccf), mode = MV[m] | eccf, cl = SYM8("cl"), ch = SYM8("ch"), l = SYM8("ccapl"), h = SYM8("ccaph"), ie = SYM8("ie") & 0xc0;
  if (cr) ccon |= 0x40; int wd = cmod >> 6 & 1, cidl = cmod >> 7;
  sym_assume(k == 4 && m != PWMM || !wd); sym_assume(idle || !cidl); sym_assume(src == 0 || !(cmod & 1));
  wr(TMOD, 2); wr(TH0, 0xff); wr(TL0, 0xff); wr(TCON, 0x10); p1->set_pin(0xff); wr(P1, 0xff);
  p1->set_pin(0xfb); z->tick_hw(1); p1->set_pin(0xff); // events before their source is selected
  wr(CMOD, cmod); wr(CL, cl); wr(CH, ch);
  if (order) { wr(CAPM_[k], mode); wr(CAPH_[k], h); wr(CAPL_[k], l); mode &= ~0x40; REQ(GET(CAPM_[k]) == mode, "a write to CCAPnL disables the comparator"); } else { wr(CAPM_[k], mode); wr(CAPL_[k], l); wr(CAPH_[k], h); REQ(GET(CAPM_[k]) == (m == OFF_ ? mode |= 0x40 : mode), "a write to CCAPnH enables the comparator"); if (m == OFF_) { wr(CAPM_[k], mode = MV[m] | eccf); } }
  if (bybit) { wr(CCON, ccon ^ 0x40); z->bits->write(0xde, cr); } else wr(CCON, ccon);
  bool eci = true, e = true; U8 out = 0xff; z->PC = 0x123; z->state = idle ? stIDLE : stGO; bool ran = sym_fork(cr && !(idle && cidl)), dead = false;
  for (int t = 0; t < (src == 1 ? 1 : 3) && !dead; t++) { char b[16]; bool ne = e, neci = eci; if (m <= CAPB_) { snprintf(b, 16, "cex%d", t); ne = sym_fork(sym_int(b, 1)); } if (src == 3) { snprintf(b, 16, "eci%d", t); neci = sym_fork(sym_int(b, 1)); }
    p1->set_pin(0xff & ~(ne ? 0 : cex) & ~(neci ? 0 : 4)); bool up = ne && !e, down = e && !ne, fall = eci && !neci; e = ne; eci = neci; U8 cl0 = cl, ch0 = ch;
    int n = !ran ? 0 : src == 0 ? 1 : src == 1 ? 3 : src == 2 ? 1 : fall;
    while (n-- && !dead) { if (!++cl) { if (m == PWMM) l = h; if (!++ch) ccon |= 0x80; }
      if (mode & 0x40) { if (m == PWMM) out = sym_fork(cl < l) ? out & ~cex : out | cex; else if (m > CAPB_ && sym_fork(cl == l && ch == h)) { if (k == 4 && sym_fork(wd)) dead = true; else { ccon |= ccf; if (m == TOGM) out ^= cex; } } } }
    z->tick_hw(1);
    if (dead) { REQ(z->PC == 0 && z->state == stGO, "a match of module 4 as a watchdog resets the CPU"); return; }
    REQ(z->PC == 0x123, "the CPU is reset only by the watchdog");
    if (m == CAPP_ && up || m == CAPN_ && down || m == CAPB_ && (up || down)) { ccon |= ccf; U8 x = GET(CAPL_[k]), y = GET(CAPH_[k]); REQ(x == cl && y == ch || x == cl0 && y == ch0, "the counter is captured at the edge of the input"); l = x; h = y; }
    sym_observe("count", GET(CL)); REQ(GET(CL) == cl && GET(CH) == ch, "the counter counts its selected clock while it runs"); REQ(GET(CCON) == ccon, "flags of the counter and of the modules"); REQ(GET(CAPL_[k]) == l && GET(CAPH_[k]) == h, "compare and capture registers"); REQ(GET(P1) == out, "output of the module"); REQ(GET(CAPM_[k]) == mode, "mode of the module");
    for (int j = 0; j < 5; j++) if (j != k) REQ(!GET(CAPM_[j]) || GET(CAPM_[j]) == 0x40, "other modules"); }
  if (src) return; z->state = stGO; wr(TCON, 0); wr(IE, ie); z->do_interrupt(); if (z->PC == 0x123) z->do_interrupt(); // (never right after a write of IE)
  bool req = (ccon & 0x80) && (cmod & 1) || (ccon & ccf) && eccf; REQ((z->PC == 0x33) == ((ie & 0xc0) == 0xc0 && req), "an interrupt is requested by flags enabled by ECF and ECCFn"); REQ(z->PC == 0x33 || z->PC == 0x123, "vector of the interrupt");
}
