// Breakpoints: fetch and event breakpoints with hit counts, temporary and fixed, on a running CPU (Z80) and on raw accesses, with and without a peripheral on the cell.
#include "uc_common.h"
#include "glob.h"
#include "simz80cl.h"
#include "z80cl.h"
#include "brkcl.h"
static cl_z80 *z; static cl_memory_chip *mc;
class cl_testhw : public cl_hw { public: U8 last; int nr, nw;
  cl_testhw(cl_uc *u) : cl_hw(u, HW_DUMMY, 0, "testhw") { last = 0; nr = nw = 0; }
  t_mem read(cl_memory_cell *c) override { nr++; return c->get() ^ 0x55; }
  void write(cl_memory_cell *c, t_mem *v) override { nw++; *v = (*v + 1) & 0xff; } };
static cl_testhw *hw;
#define RAM ((cl_address_space *)z->ram)
enum { W0 = 0x1000, WN = 3, CODE = 0x2000 };
extern "C" void sym_setup(void) { z = (cl_z80 *)mk_sim<cl_simz80>(cpus_z80, "Z80"); mc = chip_of(RAM); hw = new cl_testhw(z); hw->init(); sym_stub("cl_console_base::cmd_do_print"); }
// event cases: bits: 0-1 type of bp0 (r,w), 1 type of bp1, 2 hw on cell 1 (before bps), 3 hw added after, kinds; then fetch cases; then instruction level cases
enum { NE = 2 * 2 * 3 * 3, NF = 2 * 2 * 3, NI = 4 * 2 * 2 * 2 };
extern "C" long sym_ncases(void) { return NE + NF + NI; }
static void ce(long c, int &t0, int &t1, int &h, int &del) { t0 = c & 1; t1 = c >> 1 & 1; c >>= 2; h = c % 3; del = c / 3; }
extern "C" void sym_casename(long c, char *b, int n) {
  if (c < NE) { int t0, t1, h, d; ce(c, t0, t1, h, d); snprintf(b, n, "event:%c%c:%s:%s", t0 ? 'w' : 'r', t1 ? 'w' : 'r', h == 0 ? "plain" : h == 1 ? "hw-first" : "hw-last", d == 0 ? "keep" : d == 1 ? "delete" : "delete-all"); }
  else if (c < NE + NF) { c -= NE; snprintf(b, n, "fetch:%s,%s:%s", c & 1 ? "temp" : "fix", c & 2 ? "temp" : "fix", c / 4 == 0 ? "keep" : c / 4 == 1 ? "clear" : "delete"); }
  else { c -= NE + NF; const char *in[] = {"LD A,(HL)", "LD (HL),A", "INC (HL)", "NOP"}; snprintf(b, n, "instruction:%s:%c:%s%s", in[c & 3], c & 4 ? 'w' : 'r', c & 8 ? "temp" : "fix", c & 16 ? ":hw" : ""); }
}
static bool in_events(cl_brk *b) { for (int i = 0; i < z->events->count; i++) if (z->events->object_at(i) == b) return true; return false; }
static U8 m[WN];
static void ev(long c) {
  int t0, t1, h, del; ce(c, t0, t1, h, del);
  sym_chip(mc, "ram"); for (int i = 0; i < WN; i++) m[i] = RAM->get(W0 + i);
  if (h == 1) hw->register_cell(RAM, W0 + 1);
  U32 a[2]; int hit[2], cnt[2], t[2] = {t0, t1}; cl_ev_brk *b[2]; bool live[2] = {true, true};
  for (int k = 0; k < 2; k++) { a[k] = SYM8(k ? "bpaddr1" : "bpaddr0"); sym_assume(a[k] < WN); a[k] = sym_fork(a[k]); hit[k] = 1 + (SYM8(k ? "hit1" : "hit0") & 3); sym_assume(hit[k] <= 3); cnt[k] = hit[k];
    b[k] = z->mk_ebrk(brkFIX, RAM, t[k] ? 'w' : 'R', W0 + a[k], hit[k]); b[k]->init(); z->ebrk->add_bp(b[k]); }
  REQ(b[0]->nr != b[1]->nr && z->brk_by_nr(b[0]->nr) == b[0] && z->brk_by_nr(b[1]->nr) == b[1], "every breakpoint has its own number");
  if (h == 2) hw->register_cell(RAM, W0 + 1);
  int nacc = sym_thorough() ? 5 : 4;
  for (int n = 0; n < nacc; n++) {
    if (n == 2 && del) { if (del == 1) { REQ(z->rm_brk(b[0]->nr), "a breakpoint is deleted by its number"); live[0] = false; REQ(z->ebrk->count == 1, "deleting one breakpoint keeps the other"); } else { z->remove_all_breaks(); live[0] = live[1] = false; REQ(z->ebrk->count == 0, "all breakpoints are deleted"); } }
    z->events->disconn_all();
    static const char *an[] = {"acc0", "acc1", "acc2", "acc3", "acc4"}, *vn[] = {"val0", "val1", "val2", "val3", "val4"}, *wn[] = {"wr0", "wr1", "wr2", "wr3", "wr4"};
    U32 i = SYM8(an[n]); sym_assume(i < WN); i = sym_fork(i); int w = n < 3 ? sym_fork(SYM1(wn[n])) : 0; U8 v = SYM8(vn[n]);
    if (w) { RAM->write(W0 + i, v); m[i] = h && i == 1 ? v + 1 : v; REQ(RAM->get(W0 + i) == m[i], "a breakpoint does not change what a store writes"); }
    else { U8 r = RAM->read(W0 + i); REQ(r == (h && i == 1 ? m[i] ^ 0x55 : m[i]), "a breakpoint does not change the value a read returns"); }
    for (int k = 0; k < 2; k++) {
      bool exp = false; if (live[k] && t[k] == w && a[k] == i) { if (--cnt[k] <= 0) { cnt[k] = hit[k]; exp = true; } }
      if (live[k] || del != 1) REQ((live[k] ? in_events(b[k]) : z->events->count != 0) == exp, "an event breakpoint fires exactly at every hit-th access of its kind to its address");
    }
    if (!live[0] && live[1]) REQ(z->events->count == in_events(b[1]), "a deleted breakpoint does not fire");
  }
  for (int i = 0; i < WN; i++) REQ(RAM->get(W0 + i) == m[i], "memory holds exactly what was stored");
}
static void fetchbp(long c) {
  for (int i = 0; i < 8; i++) z->rom->set(CODE + i, 0);   /* NOPs */
  U32 a[2]; int hit[2], cnt[2], perm[2]; cl_brk *b[2]; bool live[2] = {true, true}; int nr[2];
  for (int k = 0; k < 2; k++) { a[k] = SYM8(k ? "bpaddr1" : "bpaddr0"); sym_assume(a[k] < 3); a[k] = sym_fork(a[k]); }
  if (a[0] == a[1]) { sym_assert(1, "same"); return; }
  for (int k = 0; k < 2; k++) { hit[k] = 1 + (SYM8(k ? "hit1" : "hit0") & 1); cnt[k] = hit[k]; perm[k] = c >> k & 1;
    b[k] = new cl_fetch_brk((cl_address_space *)z->rom, z->make_new_brknr(), CODE + a[k], perm[k] ? brkDYNAMIC : brkFIX, hit[k]); b[k]->init(); nr[k] = b[k]->nr; z->fbrk->add_bp(b[k]); }
  REQ(nr[0] != nr[1] && z->brk_by_nr(nr[0]) == b[0] && z->brk_by_nr(nr[1]) == b[1], "every breakpoint has its own number");
  if (c / 4 == 1) { z->fbrk->del_bp(CODE + a[0]); live[0] = false; } else if (c / 4 == 2) { REQ(z->rm_brk(nr[0]), "a breakpoint is deleted by its number"); live[0] = false; }
  U8 A0 = z->regs.raf.A = SYM8("A");
  z->PC = CODE; U32 pc = CODE; int done = 0; z->sim->start(0, 0); bool go = true;
  int N = sym_thorough() ? 11 : 8;
  for (int n = 0; n < N; n++) {
    if (!go) { z->sim->start(0, 0); go = true; done = 0; }
    if (pc == CODE + 4) pc = z->PC = CODE;      /* loop over the window */
    z->sim->step();
    bool stop = false;
    if (done > 0) for (int k = 0; k < 2; k++) if (live[k] && CODE + a[k] == pc) { if (--cnt[k] <= 0) { cnt[k] = hit[k]; stop = true; if (perm[k]) live[k] = false; } }
    if (stop) { go = false; REQ(z->PC == pc, "execution stops before the instruction at the breakpoint"); }
    else { pc++; done++; REQ(z->PC == pc, "instructions without breakpoint execute"); }
    REQ(((z->sim->state & SIM_GO) != 0) == go, "execution stops exactly at the breakpoints whose hit count is reached");
    REQ((z->fbrk->count == live[0] + live[1]), "temporary breakpoints are removed when they are accepted, fixed ones stay");
    for (int i = 0; i < 4; i++) { bool ex = (live[0] && a[0] == i) || (live[1] && a[1] == i); REQ((z->fbrk_at(CODE + i) != 0) == ex && z->fbrk->bp_at(CODE + i) == ex, "a breakpoint is listed exactly at its address while it lives"); }
    REQ(z->regs.raf.A == A0, "breakpoints do not change registers");
  }
}
static void inst(long c) {
  static const U8 op[] = {0x7e, 0x77, 0x34, 0x00}; int oi = c & 3, t = c >> 2 & 1, temp = c >> 3 & 1, h = c >> 4 & 1;
  sym_chip(mc, "ram"); for (int i = 0; i < WN; i++) m[i] = RAM->get(W0 + i);
  z->rom->set(CODE, op[oi]); z->rom->set(CODE + 1, 0); z->rom->set(CODE + 2, op[oi]); z->rom->set(CODE + 3, 0);
  U32 ba = SYM8("bpaddr"), x = SYM8("HL"); sym_assume(ba < WN && x < WN); ba = sym_fork(ba); x = sym_fork(x);
  if (h) hw->register_cell(RAM, W0 + ba);
  cl_ev_brk *b = z->mk_ebrk(temp ? brkDYNAMIC : brkFIX, RAM, t ? 'w' : 'r', W0 + ba, 1); b->init(); z->ebrk->add_bp(b);
  z->PC = CODE; z->regs.HL = W0 + x; U8 A = z->regs.raf.A = SYM8("A"); bool live = true; 
  bool rdw = oi == 0 || oi == 2, wrw = oi == 1 || oi == 2;
  z->sim->start(0, 0);
  for (int n = 0; n < 4; n++) {
    U32 pc = z->PC; z->sim->step();
    bool acc = (n == 0 || n == 2) && x == ba && live && (t ? wrw : rdw);
    U8 rv = h && x == ba ? m[x] ^ 0x55 : m[x]; bool hx = h && x == ba;
    if (n == 0 || n == 2) { if (oi == 0) A = rv; else if (oi == 1) m[x] = A + (hx ? 1 : 0); else if (oi == 2) m[x] = rv + 1 + (hx ? 1 : 0); }
    if (acc && temp) live = false;
    REQ(z->PC == pc + 1 && z->regs.raf.A == A, "the instruction completes with its normal result");
    REQ(((z->sim->state & SIM_GO) == 0) == acc, "execution stops after exactly the instructions that access the watched address");
    REQ(z->ebrk->count == (live ? 1 : 0), "a temporary event breakpoint is removed when it is accepted, a fixed one stays");
    if (acc) z->sim->start(0, 0);
  }
  for (int i = 0; i < WN; i++) REQ(RAM->get(W0 + i) == m[i], "memory holds exactly what was stored");
}
extern "C" void sym_test(long c) { z->sim->state &= ~(SIM_GO | SIM_QUIT); if (c < NE) ev(c); else if (c < NE + NF) fetchbp(c - NE); else inst(c - NE - NF); }
