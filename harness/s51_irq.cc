// MCS-51 interrupt system against a model of the hardware description: requests, enables, priorities, pins, nesting and the
// instruction in progress are symbolic; two instructions are executed.
#include "isa_common.h"
#include "sim51cl.h"
#include "uc51cl.h"
#include "itsrccl.h"
#include "portcl.h"
#include "regs51.h"
static cl_51core *z; static cl_port *p3;
static void wr(U8 a, U8 v) { z->sfr->write(a, v); }
#define GET(a) ((U8)z->sfr->get(a))
struct Lv { int n, l[3]; } lv; // interrupt services in progress
static U8 ie, ip, tcon, scon, t2con, pins, sp, stk[8]; static U16 pc; static bool idle;
struct Src { U8 en; U16 addr; };
static const Src src[] = { {bmEX0, 3}, {bmET0, 0xb}, {bmEX1, 0x13}, {bmET1, 0x1b}, {bmES, 0x23}, {bmET2, 0x2b} };
static bool req(int i) { switch (i) { case 0: return tcon & bmIE0; case 1: return tcon & bmTF0; case 2: return tcon & bmIE1; case 3: return tcon & bmTF1; case 4: return scon & (bmRI | bmTI); default: return t2con & (bmTF2 | bmEXF2); } }
static void sample(void) { if (!(tcon & bmIT0)) tcon = (tcon & ~bmIE0) | (pins & bm_INT0 ? 0 : bmIE0); if (!(tcon & bmIT1)) tcon = (tcon & ~bmIE1) | (pins & bm_INT1 ? 0 : bmIE1); }
static int accept(void) { // the request accepted, or -1
  if (!(ie & bmEA)) return -1;
  for (int pr = 1; pr >= 0; pr--) { if (lv.n && pr <= lv.l[lv.n - 1]) break;
    for (int i = 0; i < 6; i++) if ((ie & src[i].en) && req(i) && ((ip & src[i].en) != 0) == (pr != 0)) {
      stk[++sp & 7] = pc; stk[++sp & 7] = pc >> 8; pc = src[i].addr; lv.l[lv.n++] = pr; idle = false;
      if (i == 0 && (tcon & bmIT0)) tcon &= ~bmIE0; if (i == 1) tcon &= ~bmTF0; if (i == 2 && (tcon & bmIT1)) tcon &= ~bmIE1; if (i == 3) tcon &= ~bmTF1;
      return i; } }
  return -1; }
static void push_level(int l) { z->it_levels->push(new it_level(l, 0, 0, NULL)); lv.l[lv.n++] = l; }
enum { NOP_, RETI_, MOVIE, MOVIP, SETBEA, SETBIP, MOVA, MOVTCON, ORLTCON, SETBTCON, ENTERIDLE, IDLE, TIDLE, PINS, NC };
static const char *names[] = { "nop", "reti", "mov_ie", "mov_ip", "setb_ie", "setb_ip", "mov_a", "mov_tcon", "orl_tcon", "setb_tcon", "enter_idle", "idle", "idle_timer", "pins" };
extern "C" void sym_setup(void) {
  z = (cl_51core *)mk_sim<cl_sim51>(cpus_51, "C52"); z->reset();
  for (int i = 0; i < z->hws->count; i++) { cl_hw *h = (cl_hw *)z->hws->at(i); if (h->category == HW_PORT && h->id == 3) p3 = (cl_port *)h; }
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
}
static const struct { U8 k, l; } cs[] = { {NOP_,0}, {NOP_,1}, {NOP_,2}, {RETI_,0}, {RETI_,1}, {RETI_,2}, {RETI_,3}, {MOVIE,0}, {MOVIE,1}, {MOVIP,0}, {MOVIP,1}, {SETBEA,0}, {SETBIP,1}, {MOVTCON,0}, {ORLTCON,0}, {SETBTCON,0}, {ENTERIDLE,0}, {ENTERIDLE,1}, {IDLE,0}, {IDLE,1}, {IDLE,2}, {TIDLE,0}, {TIDLE,1}, {PINS,0}, {PINS,1} };
extern "C" long sym_ncases(void) { return sizeof(cs) / sizeof(*cs); }
extern "C" void sym_casename(long c, char *b, int k) { static const char *l[] = { "", "_in_low", "_in_high", "_in_both" }; snprintf(b, k, "%s%s", names[cs[c].k], l[cs[c].l]); }
static void check(int prev, bool second = false) {
  REQ(z->PC == pc, "program counter"); REQ(GET(SP) == sp, "stack pointer");
  for (int i = 0; i < 8; i++) REQ((U8)z->iram->get(0x40 + i) == stk[i], "stack contents");
  REQ((GET(TCON) & (bmIT0 | bmIT1 | bmTR0 | bmTR1 | bmTF0 | bmTF1)) == (tcon & (bmIT0 | bmIT1 | bmTR0 | bmTR1 | bmTF0 | bmTF1)), "TCON");
  REQ(!(tcon & bmIT0) || (GET(TCON) & bmIE0) == (tcon & bmIE0), "IE0"); REQ(!(tcon & bmIT1) || (GET(TCON) & bmIE1) == (tcon & bmIE1), "IE1");
  REQ(GET(SCON) == scon, "SCON"); REQ(GET(T2CON) == t2con, "T2CON"); REQ(GET(IE) == ie, "IE"); REQ(GET(IP) == ip, "IP");
  REQ((GET(PCON) & bmIDL) == (idle ? bmIDL : 0), "IDL bit"); REQ(z->state == (idle ? stIDLE : stGO), "idle state");
  REQ(z->it_levels->count == 1 + lv.n, "number of services in progress"); for (int i = 0; i < lv.n; i++) REQ(((it_level *)z->it_levels->at(lv.n - 1 - i))->level == lv.l[i], "level of service");
}
static bool blocked_kind(int k) { return k == RETI_ || k == MOVIE || k == MOVIP || k == SETBEA || k == SETBIP || k == IDLE || k == TIDLE || k == ENTERIDLE; }
extern "C" void sym_test(long c) {
  int k = cs[c].k; c = cs[c].l; U8 v; bool blocked = false;
  lv.n = 0; if (c & 1) push_level(0); if (c & 2) push_level(1);
  scon = SYM8("scon") & (bmRI | bmTI); wr(SCON, scon); t2con = SYM8("t2con") & (bmTF2 | bmEXF2); wr(T2CON, t2con);
  // two (thorough: three) of the six interrupts may be enabled, the others may only be requested
  static const U8 en[] = { bmEX0, bmET0, bmEX1, bmET1, bmES, bmET2 }; int pa = sym_fork(SYM8("pair") & 15), pi = 0, pj = 1; for (int i = 0; i < pa; i++) if (++pj > 5) { if (++pi > 4) return; pj = pi + 1; }
  U8 may = bmEA | en[pi] | en[pj]; if (sym_thorough()) may |= en[sym_fork(SYM8("third") & 7) % 6];
  bool x0 = may & bmEX0, x1 = may & bmEX1, two = blocked_kind(k);
  if (k == MOVTCON || k == ORLTCON || k == SETBTCON || k == PINS) if (!x0 && !x1) return;
  pins = 0xff; if (x0 && !sym_fork(SYM1("int0"))) pins &= ~bm_INT0; if (x1 && !sym_fork(SYM1("int1"))) pins &= ~bm_INT1; p3->set_pin(pins);
  tcon = SYM8("tcon") & ~(bmTR0 | bmTR1) | bmIT0 | bmIT1; if (k != PINS) { if (x0 && !sym_fork(SYM1("it0"))) tcon &= ~bmIT0; if (x1 && !sym_fork(SYM1("it1"))) tcon &= ~bmIT1; } sample(); if (k == MOVTCON) tcon &= bmIT0 | bmIT1 | bmIE0; if (k == TIDLE) { tcon |= bmTR0; wr(TL0, 0x1f); wr(TH0, 0xff); } wr(TCON, tcon); // as sampled in the cycle before
  ie = SYM8("ie") & may; wr(IE, ie); ip = SYM8("ip"); wr(IP, ip); sp = 0x41; wr(SP, sp); z->interrupt->was_reti = false;
  for (int i = 0; i < 8; i++) { stk[i] = i == 1 ? 0x12 : i == 0 ? 0x34 : 0x55; z->iram->set(0x40 + i, stk[i]); }
  pc = z->PC = 0x1000; idle = false; v = SYM8("v"); if (k == MOVIE) v &= may; int bit = k == SETBEA || k == SETBIP || k == SETBTCON ? sym_fork(SYM8("bit") & 7) : 0;
  cl_address_space *r = z->rom;
  switch (k) { // the first instruction
    case NOP_: case PINS: r->set(pc++, 0); break;
    case RETI_: r->set(pc, 0x32); pc = 0x1234; sp -= 2; blocked = true; if (lv.n) lv.n--; break;
    case MOVIE: r->set(pc++, 0x75); r->set(pc++, IE); r->set(pc++, v); ie = v; blocked = true; break;
    case MOVIP: r->set(pc++, 0x75); r->set(pc++, IP); r->set(pc++, v); ip = v; blocked = true; break;
    case SETBEA: r->set(pc++, 0xd2); r->set(pc++, IE + bit); if (!(may >> bit & 1)) return; ie |= 1 << bit; blocked = true; break;
    case SETBIP: r->set(pc++, 0xd2); r->set(pc++, IP + bit); ip |= 1 << bit; blocked = true; break;
    case MOVA: r->set(pc++, 0x74); r->set(pc++, v); break;
    case MOVTCON: r->set(pc++, 0x75); r->set(pc++, TCON); r->set(pc++, v); break;
    case ORLTCON: r->set(pc++, 0x43); r->set(pc++, TCON); r->set(pc++, v); break;
    case SETBTCON: r->set(pc++, 0xd2); r->set(pc++, TCON + bit); break;
    case ENTERIDLE: r->set(pc++, 0x75); r->set(pc++, PCON); r->set(pc++, bmIDL); break;
    case IDLE: case TIDLE: wr(PCON, bmIDL); z->state = stIDLE; idle = true; break; }
  if (k == PINS) { U8 o = pins; pins = 0xff; if (x0 && !sym_fork(SYM1("int0_new"))) pins &= ~bm_INT0; if (x1 && !sym_fork(SYM1("int1_new"))) pins &= ~bm_INT1; if (sym_fork(SYM1("by_latch"))) { wr(P3, pins); pins &= o; } else p3->set_pin(pins); if (o & ~pins & bm_INT0) tcon |= bmIE0; if (o & ~pins & bm_INT1) tcon |= bmIE1; }
  if (k == MOVTCON) tcon = v; if (k == ORLTCON) tcon |= v; if (k == SETBTCON) tcon |= 1 << bit;
  z->do_inst(); sample(); if (k == TIDLE) tcon |= bmTF0; // the timer runs and overflows in idle mode
  int a = blocked ? -1 : accept(); if (k == ENTERIDLE && a < 0) idle = true;
  check(a);
  sym_observe("pc1", z->PC); if (!two) return;
  // the second instruction is a NOP, wherever it is (the memory is full of zeroes)
  z->do_inst(); sample(); if (!idle) pc++; accept();
  check(a, true); sym_observe("pc", z->PC); sym_observe("tcon", GET(TCON) & 0xf5);
}
