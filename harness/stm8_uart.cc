// STM8 serial interfaces: every character is sent and received once, in its bit times; flags, clock gating and interrupt requests.
#include "uc_common.h"
#include "glob.h"
#include "simstm8cl.h"
#include "stm8cl.h"
#include "serialcl.h"
#include "fiocl.h"
#include "itsrccl.h"
#ifndef V
#define V 0
#endif
struct UD { int id; U16 b; U8 tv, rv; U16 ck; U8 cm; };
static const UD UDS[][3] = { { {1, 0x5230, 17, 18, 0x50c7, 0x04}, {3, 0x5240, 20, 21, 0x50c7, 0x08} }, { {1, 0x5230, 17, 18, 0x50c7, 0x08} }, { {2, 0x5240, 20, 21, 0x50c7, 0x08} }, { {4, 0x5230, 17, 18, 0x50c7, 0x08} },
  { {1, 0x5230, 27, 28, 0x50c3, 0x20}, {2, 0x53e0, 19, 20, 0x50d0, 0x08}, {3, 0x53f0, 21, 22, 0x50d0, 0x10} }, { {1, 0x5230, 27, 28, 0x50c3, 0x20} } };
static const int NUS[] = {2, 1, 1, 1, 3, 1}; static const char *DN[] = {"STM8S208", "STM8S103", "STM8S105", "STM8AF62_12", "STM8L162", "STM8L101"};
static const int NU = NUS[V]; static cl_stm8 *z; static const UD *u; static cl_serial *h[3], *s;
class F : public cl_f { public: U8 t[16]; int n; U8 q[4]; int qn, qi; F() : cl_f() { n = qn = qi = 0; tty = false; }
  enum file_type determine_type(void) { return F_FILE; } bool writable(void) { return true; } int check_dev(void) { return 0; } bool eof(void) { return false; }
  int input_avail(void) { return qi < qn; }
  int read(int *b, int k) { if (qi >= qn) return 0; *b = (int)(signed char)q[qi++]; return 1; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 16) t[n++] = b[i]; return k; } };
static F *f;
extern "C" void sym_setup(void) {
  z = (cl_stm8 *)mk_sim<cl_simstm8>(cpus_stm8, DN[V]); f = new F();
  for (int k = 0; k < NU; k++) { for (int i = 0; i < z->hws->count && !h[k]; i++) { cl_hw *x = (cl_hw *)z->hws->at(i); if (x->category == HW_UART && x->id == UDS[V][k].id) h[k] = (cl_serial *)x; } if (h[k]) { h[k]->io->fin = h[k]->io->fout = f; h[k]->cfg_set(serconf_nl, 0); } }
  sym_stub("cl_app::debug"); sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
enum { SR, DR, BRR1, BRR2, CR1, CR2 };
static const U16 DV[] = {16, 27, 0x1234, 0xa8d9};
// case: interface, direction, divider, what happens in between
enum { NB = 2 * 4 * 2, NC = NB + 3 };
extern "C" long sym_ncases(void) { return NU * NC; }
extern "C" void sym_casename(long c, char *b, int n) { int k = c % NC, id = UDS[V][c / NC].id; if (k >= NB) snprintf(b, n, "uart%d:%s", id, k == NB ? "flags" : k == NB + 1 ? "interrupt" : "gate"); else snprintf(b, n, "uart%d:%s:div%d:%s", id, k & 1 ? "receive" : "send", DV[k >> 1 & 3], k >> 3 ? "interrupts-changed" : "plain"); }
static U8 rd(int r) { return z->rom->read(u->b + r); } static void wr(int r, U8 v) { z->rom->write(u->b + r, v); }
static long now, cyc; static void run(long t) { for (; now < t; now += cyc) { if (f->qi < f->qn) s->proc_input(); s->tick(cyc); } }
extern "C" void sym_test(long c) {
  u = &UDS[V][c / NC]; s = h[c / NC]; int k = c % NC; REQ(s != 0, "the device has the serial interface"); cl_memory_cell *sr = z->rom->get_cell(u->b);
  if (k == NB) {
    U8 v = SYM8("sr"), w = SYM8("w"), op = SYM8("op"); sr->set(v); REQ(rd(SR) == v, "the status register is read");
    if (sym_fork(op == 0)) { U8 e = v & (w | ~0x60); wr(SR, w); REQ(rd(SR) == e, "the program can clear only the transmission complete and receiver full flags"); }
    else if (sym_fork(op == 1)) { rd(DR); REQ(rd(SR) == (v & 0xc0), "reading status and data clears the flags of the receiver"); }
    else { wr(CR1, w & 0x10); rd(CR1); rd(DR); REQ(rd(SR) == (v & 0xdf), "reading the data alone keeps the error flags"); }
    return;
  }
  if (k == NB + 1) {
    U8 v = SYM8("sr"), c2 = SYM8("cr2"); wr(CR2, c2); sr->set(v); U8 a = v & c2; bool t = false, r = false; int n = 0;
    for (int i = 0; i < z->it_sources->count; i++) { cl_it_src *q = (cl_it_src *)z->it_sources->at(i); bool e = q->enabled(), p = q->pending(); if (q->nuof == u->tv && q->addr == (t_addr)(0x8008 + 4 * u->tv)) t |= e & p, n |= 1; if (q->nuof == u->rv && q->addr == (t_addr)(0x8008 + 4 * u->rv)) r |= e & p, n |= 2; }
    REQ(n == 3, "the interface has its interrupts"); REQ(t == ((a & 0xc0) != 0), "the transmitter requests interrupt exactly when flag and enable bit are set"); REQ(r == ((a & 0x20) != 0), "the receiver requests interrupt exactly when flag and enable bit are set"); return;
  }
  if (k == NB + 2) {
    U8 g = SYM8("gate"), c1 = SYM8("cr1") & 0x20; z->rom->write(u->ck, g); now = 0; cyc = 4; wr(BRR2, 0); wr(BRR1, 1); wr(CR1, c1); wr(CR2, 8); U8 a = SYM8("ch"); wr(DR, a); run(400);
    bool on = ((g & u->cm) != 0) & (c1 == 0); REQ(f->n == (on ? 1 : 0), "the interface works exactly when it has clock and is enabled"); return;
  }
  int dir = k & 1, ev = k >> 3; long d = DV[k >> 1 & 3], fr = 10 * d; now = 0; cyc = d < 100 ? 5 : d / 7; long tol = d + cyc, lo = 2 * cyc + 1;
  z->rom->write(u->ck, 0xff); U8 ie = SYM8("ie") & 0xf0, ie2 = SYM8("ie2") & 0xf0; wr(BRR2, (d >> 8 & 0xf0) | (d & 15)); wr(BRR1, d >> 4); wr(CR1, 0); wr(CR2, ie | 0x0c); U8 a = SYM8("ch0"), b = SYM8("ch1");
  if (dir == 0) {
    REQ((rd(SR) & 0xc0) == 0xc0, "the transmitter is empty after reset"); wr(DR, a); run(cyc); REQ((rd(SR) & 0xc0) == 0x80, "the first character goes to the shift register"); wr(DR, b); REQ(!(rd(SR) & 0x80), "a second character fills the transmitter");
    run(fr / 2); if (ev) wr(CR2, ie2 | 0x0c); REQ(!(rd(SR) & 0xc0), "the transmitter is full until the first character is sent");
    run(fr - lo); REQ(f->n == 0, "a character is sent after its bit times"); run(fr + tol + 1); REQ(f->n == 1 && f->t[0] == a, "the character is sent in its bit times"); REQ((rd(SR) & 0xc0) == 0x80, "the transmitter is empty but not complete when the character went to the shift register");
    run(2 * fr - 2 * tol); REQ(f->n == 1, "the second character is sent after its bit times"); run(2 * (fr + tol) + 2); REQ(f->n == 2 && f->t[1] == b, "the second character is sent in its bit times"); REQ((rd(SR) & 0xc0) == 0xc0, "transmission is complete");
    run(3 * (fr + tol)); REQ(f->n == 2, "nothing else is sent");
  } else {
    f->q[0] = a; f->q[1] = b; f->qn = 2; REQ(!(rd(SR) & 0x20), "nothing is received");
    run(fr / 2); if (ev) wr(CR2, ie2 | 0x0c); run(fr - tol); REQ(!(rd(SR) & 0x20), "a character arrives after its bit times"); run(fr + 2 * tol + 1); REQ(rd(SR) & 0x20, "a character arrives in its bit times");
    long t0 = now; U8 r = rd(DR); REQ(r == a, "the character received is read"); REQ(!(rd(SR) & 0x20), "reading the character empties the receiver");
    run(t0 + fr + 3 * tol + 1); REQ(rd(SR) & 0x20, "the second character arrives"); r = rd(DR); REQ(r == b, "the second character is read");
    run(t0 + 3 * fr); REQ(!(rd(SR) & 0x20), "nothing else is received");
  }
}
