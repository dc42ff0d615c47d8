// MCS-51 serial port: every character is sent and received once, after its bit times, in all modes and with all clock sources.
#include "isa_common.h"
#include "sim51cl.h"
#include "uc51cl.h"
#include "serialcl.h"
#include "fiocl.h"
#include "regs51.h"
extern "C" int vrt_poison;
static cl_51core *z; static cl_serial *s;
class F : public cl_f { public: U8 t[16]; int n; U8 q[4]; int qn, qi; F() : cl_f() { n = qn = qi = 0; tty = false; }
  enum file_type determine_type(void) { return F_FILE; } bool writable(void) { return true; } int check_dev(void) { return 0; } bool eof(void) { return false; } void set_telnet(bool) {} bool opened(void) { return true; }
  int input_avail(void) { return qi < qn; }
  int read(int *b, int k) { if (qi >= qn) return 0; *b = (int)(signed char)q[qi++]; return 1; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 16) t[n++] = b[i]; return k; } };
static F *f;
extern "C" void sym_setup(void) {
  z = (cl_51core *)mk_sim<cl_sim51>(cpus_51, "C52"); z->reset(); f = new F();
  for (int i = 0; i < z->hws->count; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_UART) s = (cl_serial *)h; }
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); sym_stub("cl_app::debug"); s->io->fin = s->io->fout = f;
  z->it_sources->disconn_all();
}
// what the case fixes: direction, mode, SMOD, RCLK, TCLK
enum { SEND, RECV, BOTH }; static const char *DN[] = {"send", "receive", "both"};
static int dir, mode, smod, rclk, tclk;
static void dec(long c) { dir = c % 3; c /= 3; mode = c & 3; c >>= 2; smod = c & 1; c >>= 1; rclk = c & 1; tclk = c >> 1 & 1; }
extern "C" long sym_ncases(void) { return 97; }
extern "C" void sym_casename(long c, char *b, int n) { if (c == 96) { snprintf(b, n, "receive:lines"); return; } dec(c); snprintf(b, n, "%s:mode%d%s%s%s", DN[dir], mode, smod ? ",smod" : "", rclk ? ",rclk" : "", tclk ? ",tclk" : ""); }
#define GET(a) ((U8)z->sfr->read(a))
#define TI_ (GET(SCON) >> 1 & 1)
#define RI_ (GET(SCON) & 1)
static void wr(U8 a, U8 v) { z->sfr->write(a, v); }
static void bit(int a, int v) { z->bits->write(a, v); }
static long now; // elapsed machine cycles
static void run(long t) { for (; now < t; now++) { if (f->qi < f->qn) s->proc_input(); z->tick_hw(1); } }
static int i1, i2; // overflows: timer 1 every i1 cycles, timer 2 every i2/6 cycles
// machine cycles of n bits, and of half a bit, rounded up
static long cyc(int n2, int t2) { long d; switch (mode) { case 0: d = 12; break; case 2: d = smod ? 32 : 64; break; default: d = t2 ? 16 * 2 * i2 : (smod ? 16 : 32) * i1 * 12; } return (d * n2 + 23) / 24; }
static int nbits(void) { return mode == 0 ? 8 : mode == 1 ? 10 : 11; }
static long tot(int t2) { return cyc(2 * nbits(), t2); }
static long tol(int t2) { return cyc(1, t2) + 2; }
static U8 scon, pcon, t2con;
static void event(int k) { switch (k) { // what a program may do in the meantime
    case 1: bit(T2CON + 7, 0); break;
    case 2: wr(T2CON, t2con); wr(PCON, pcon ^ 4); break;
    case 3: bit(SCON + 3, ~scon >> 3 & 1); scon ^= 8; break;
    case 4: wr(SCON, scon); break; } }
static bool nlc(U8 c) { return c == 10 || c == 13; }
static void lines(void) { // a row of characters in mode 0: line ends are replaced by the configured one
  static const long NL[] = {10, 13, 0x0a0d, 0}; long nl = NL[sym_fork(sym_int("nl", 2))]; s->cfg_set(serconf_nl, nl); U8 q[4], out[8]; int m = 0, skip = -1;
  for (int i = 0; i < 4; i++) { char t[8]; snprintf(t, 8, "in%d", i); q[i] = f->q[i] = SYM8(t); } f->qn = 4; mode = 0;
  for (int i = 0; i < 4; i++) { if (sym_fork(skip >= 0 && q[i] == skip)) continue; skip = -1; if (nl && sym_fork(nlc(q[i]))) { skip = q[i] ^ 7; for (long v = nl; v & 0xff; v >>= 8) out[m++] = v; } else out[m++] = q[i]; }
  wr(SCON, 0x10); int n = 0; for (int k = 0; k < 8 * 14; k++) { run(now + 1); if (sym_fork(RI_)) { REQ(n < m && GET(SBUF) == out[n], "characters are received in order and line ends are replaced"); if (n < m) n++; bit(SCON, 0); } }
  REQ(n == m, "every character of a line is received"); }
extern "C" void sym_test(long c) {
  if (c == 96) { lines(); return; } dec(c); now = 0; f->n = f->qn = f->qi = 0; int fast = SYM1("timers_fast"), how = SYM1("scon_by_bits"), order = SYM1("pcon_last"), raw = SYM1("raw"), ev = sym_int("event", 3); sym_assume(ev < 5);
  // only what may matter is tried in both ways
  if (dir == SEND) sym_assume(raw); if (mode != 1) sym_assume(!how && !order); sym_assume(!fast || mode == 1);
  fast = sym_fork(fast); how = sym_fork(how); order = sym_fork(order); raw = sym_fork(raw); ev = sym_fork(ev);
  s->cfg_set(serconf_nl, raw ? 0 : 10); i1 = fast ? 1 : 2; i2 = fast ? 1 : 12;
  scon = mode << 6 | (SYM8("scon") & 0x2c); pcon = smod << 7 | (SYM8("pcon") & 0x0c); t2con = rclk << 5 | tclk << 4 | 4;
  wr(TMOD, 0x20); wr(TH1, -i1); wr(TL1, -i1); wr(TCON, 0x40); wr(RCAP2H, 0xff); wr(RCAP2L, -i2); wr(TH2, 0xff); wr(TL2, -i2); wr(T2CON, t2con);
  if (!order) wr(PCON, pcon);
  if (how) { wr(SCON, scon ^ 0xc0); bit(SCON + 7, scon >> 7); bit(SCON + 6, scon >> 6 & 1); } else wr(SCON, scon);
  if (order) wr(PCON, pcon);
  run(3); now = 0;
  U8 b[2] = {SYM8("out0"), SYM8("out1")}, q[2] = {SYM8("in0"), SYM8("in1")};
  if (dir == SEND) { long N = tot(tclk), e = tol(tclk);
    for (int k = 0; k < 2; k++) { now = 0; wr(SBUF, b[k]); run(N / 2); event(ev); REQ(GET(SBUF) == 0, "the received character is read from SBUF"); run(N - e);
      REQ(f->n == k && !TI_, "a character is sent after its bit times, not earlier"); run(N + e); sym_observe("sent", f->t[k]);
      REQ(f->n == k + 1 && f->t[k] == b[k], "the character written to SBUF is sent once after its bit times"); REQ(GET(SCON) == (scon | 2), "TI, and no other bit of SCON, is set after the character is sent");
      if (k) wr(SCON, scon); else bit(SCON + 1, 0); }
    run(3 * N); REQ(f->n == 2 && !TI_, "nothing is sent without a write of SBUF"); return; }
  for (int i = 0; i < 2; i++) f->q[i] = q[i]; f->qn = dir == BOTH ? 1 : 2; long N = tot(rclk), e = tol(rclk);
  U8 x0 = !raw && nlc(q[0]) ? 10 : q[0], x1 = !raw && nlc(q[1]) ? 10 : q[1]; bool two = raw || !nlc(q[0]) || q[1] != (U8)(q[0] ^ 7);
  if (dir == BOTH) { scon |= 0x10; bit(SCON + 4, 1); wr(SBUF, b[0]); long M = tot(tclk), g = tol(tclk); if (M + g < N - e) { run(M + g); REQ(f->n == 1 && !RI_, "sending is clocked independently from receiving"); } else if (N + e < M - g) { run(N + e); REQ(f->n == 0 && RI_, "receiving is clocked independently from sending"); }
    long A = M + g > N + e ? M + g : N + e; run(A); sym_observe("received", GET(SBUF)); REQ(f->n == 1 && f->t[0] == b[0], "the character is sent while another is received"); REQ(GET(SBUF) == x0 && GET(SCON) == (scon | 3), "a character is received while another is sent"); return; }
  run(N + e); REQ(!RI_ && GET(SBUF) == 0, "nothing is received while REN is clear"); now = 0;
  scon |= 0x10; if (how) bit(SCON + 4, 1); else wr(SCON, scon);
  run(N / 2); event(ev); run(N - e); REQ(!RI_ && GET(SBUF) == 0, "a character is received after its bit times, not earlier"); run(N + e); sym_observe("received", GET(SBUF));
  REQ(GET(SBUF) == x0 && GET(SCON) == (scon | 1), "the character is received and RI is set after its bit times"); if (how) wr(SCON, scon); else bit(SCON, 0);
  run(2 * N - 2 * e); REQ(GET(SBUF) == x0 && !RI_, "a received character stays in SBUF"); run(2 * N + 2 * e);
  if (sym_fork(two)) REQ(GET(SBUF) == x1 && GET(SCON) == (scon | 1), "every character is received"); else REQ(GET(SBUF) == x0 && !RI_, "the second character of a line end is skipped");
  wr(SCON, scon & ~1); run(3 * N + 3 * e); REQ(!RI_ && f->n == 0, "a character is received once, and not sent");
}
