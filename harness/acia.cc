// MC6850 serial interface: every character is sent and received once, in its bit times; status and interrupt requests.
#include "uc_common.h"
#include "simm6800cl.h"
#include "m6800cl.h"
#include "glob68.h"
#include "ciacl.h"
#include "fiocl.h"
#include "itsrccl.h"
#undef SP
#undef CC
static cl_m6800 *z; static cl_cia *s; static t_addr B0;
class F : public cl_f { public: U8 t[16]; int n; U8 q[4]; int qn, qi; F() : cl_f() { n = qn = qi = 0; tty = false; }
  enum file_type determine_type(void) { return F_FILE; } bool writable(void) { return true; } int check_dev(void) { return 0; } bool eof(void) { return false; }
  int input_avail(void) { return qi < qn; }
  int read(int *b, int k) { if (qi >= qn) return 0; *b = (int)(signed char)q[qi++]; return 1; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 16) t[n++] = b[i]; return k; } };
static F *f;
extern "C" void sym_setup(void) {
  z = (cl_m6800 *)mk_sim<cl_simm6800>(cpus_m6800, "6800"); for (int i = 0; i < z->hws->count && !s; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_UART) s = (cl_cia *)h; }
  B0 = s->base; f = new F(); s->io->fin = s->io->fout = f; sym_stub("cl_app::debug"); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug"); s->cfg_set(serconf_nl, 0);
}
// case: direction, word select, divider, cycles of an instruction, what happens in between
enum { NB = 2 * 8 * 3 * 2 * 3 };
static int dir, ws, dv, cyc, ev;
static void dec(long c) { dir = c & 1; c >>= 1; ws = c & 7; c >>= 3; dv = c % 3; c /= 3; cyc = c & 1 ? 5 : 1; c >>= 1; ev = c; }
extern "C" long sym_ncases(void) { return NB + 1; }
extern "C" void sym_casename(long c, char *b, int n) { if (c == NB) { snprintf(b, n, "status"); return; } dec(c); snprintf(b, n, "%s:format%d:div%d:cycles%d:%s", dir ? "receive" : "send", ws, dv ? dv == 1 ? 16 : 64 : 1, cyc, ev == 0 ? "plain" : ev == 1 ? "interrupts-changed" : "same-control"); }
static const int FR[] = {11, 11, 10, 10, 11, 10, 11, 11}, DV[] = {1, 16, 64};
static long now; static void run(long t) { for (; now < t; now += cyc) { if (f->qi < f->qn) s->proc_input(); s->tick(cyc); } }
static U8 SR() { return z->rom->read(B0); }
extern "C" void sym_test(long c) {
  if (c == NB) {
    U8 cr = SYM8("cr"), sr = SYM8("sr") & 3; z->rom->write(B0, cr); s->show_readable(sr & 1); s->show_writable(sr & 2);
    bool t = ((cr & 0x60) == 0x20) & (sr >> 1 & 1), r = (cr >> 7 & 1) & (sr & 1); U8 g = SR(); sym_observe("sr", g);
    REQ((g & 3) == sr, "the status tells about full receiver and empty transmitter"); REQ((g >> 7) == (t | r), "the status tells about interrupt request");
    bool e1 = s->is_t->enabled(), p1 = s->is_t->pending(), e2 = s->is_r->enabled(), p2 = s->is_r->pending(); REQ((e1 & p1) == t, "the transmitter requests interrupt when it is empty and enabled"); REQ((e2 & p2) == r, "the receiver requests interrupt when it is full and enabled");
    return;
  }
  dec(c); now = 0; U8 cr = dv | ws << 2 | (SYM8("cr") & 0xe0), cr2 = ev == 1 ? (cr & 0x1f) | (SYM8("cr2") & 0xe0) : cr; U8 m = ws < 4 ? 0x7f : 0xff; long fr = (long)FR[ws] * DV[dv], tol = DV[dv] + cyc, lo = 2 * cyc + 1;
  z->rom->write(B0, 3); s->tick(cyc); z->rom->write(B0, cr); U8 a = SYM8("ch0") & m, b = SYM8("ch1") & m;
  if (dir == 0) {
    REQ(SR() & 2, "the transmitter is empty after reset"); z->rom->write(B0 + 1, a); run(cyc); REQ(SR() & 2, "the first character goes to the shift register"); z->rom->write(B0 + 1, b); REQ(!(SR() & 2), "a second character fills the transmitter");
    run(fr / 2); if (ev) z->rom->write(B0, cr2); REQ(!(SR() & 2), "the transmitter is full until the first character is sent");
    run(fr - lo); REQ(f->n == 0, "a character is sent after its bit times"); run(fr + tol + 1); REQ((f->n == 1 || now >= 2 * fr - lo && f->n == 2) && f->t[0] == a, "the character is sent in its bit times"); REQ(SR() & 2, "the transmitter is empty when the character went to the shift register");
    run(2 * fr - 2 * tol); REQ(f->n == 1 || now >= 2 * fr - lo, "the second character is sent after its bit times"); run(2 * (fr + tol) + 2); REQ(f->n == 2 && f->t[1] == b, "the second character is sent in its bit times");
    run(3 * (fr + tol)); REQ(f->n == 2 && (SR() & 2), "nothing else is sent");
  } else {
    f->q[0] = a; f->q[1] = b; f->qn = 2; REQ(!(SR() & 1), "nothing is received");
    run(fr / 2); if (ev) z->rom->write(B0, cr2); run(fr - tol); REQ(!(SR() & 1), "a character arrives after its bit times"); run(fr + 2 * tol + 1); REQ(SR() & 1, "a character arrives in its bit times");
    long t0 = now; U8 r = z->rom->read(B0 + 1); REQ(r == a, "the character received is read"); REQ(!(SR() & 1), "reading the character empties the receiver");
    run(t0 + fr + 3 * tol + 1); REQ(SR() & 1, "the second character arrives"); r = z->rom->read(B0 + 1); REQ(r == b, "the second character is read");
    run(t0 + 3 * fr); REQ(!(SR() & 1), "nothing else is received");
  }
}
