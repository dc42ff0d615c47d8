// Address decoders: a short history of decoder creations (symbolic ranges and chip offsets) and one removal; the newest decoder covering an address decides what is seen there.
#include "uc_common.h"
#include "memcl.h"
enum { SZ = 5, CS = 7, NS = 3 };
static const UL ST[NS] = {0, 0x10, 0x3};
static cl_memory_chip *chip[2]; static cl_address_space *as[NS];
extern "C" void sym_setup(void) {
  for (int i = 0; i < 2; i++) chip[i] = new_chip(i ? "c1" : "c0", CS, 8, 0);
  for (int s = 0; s < NS; s++) { as[s] = new cl_address_space("as", ST[s], SZ, 8); as[s]->init(); }
}
// case: start, number of decoders (1..3), whether the last operation removes the first decoder; concrete first range to bound the forks
static const struct { int n, rm, fb, fe; } K[] = { {1, 0, -1, 0}, {1, 1, -1, 0}, {2, 0, 0, 4}, {2, 0, 0, 2}, {2, 0, 1, 3}, {2, 0, 2, 4}, {2, 1, 0, 4}, {3, 0, 0, 4}, {3, 0, 1, 3}, {2, 0, -1, 0}, {3, 1, 0, 4}, {3, 0, -1, 0} };
enum { NK = 12 };
extern "C" long sym_ncases(void) { return NK * NS; }
extern "C" void sym_casename(long c, char *b, int n) { const auto &k = K[c / NS]; snprintf(b, n, "start%lx:%d-decoders%s%s", ST[c % NS], k.n, k.rm ? "+remove" : "", k.fb < 0 ? "" : k.fb == 0 && k.fe == 4 ? ":first=all" : k.fb == 0 ? ":first=low" : k.fe == 4 ? ":first=high" : ":first=middle"); }
extern "C" void sym_test(long c) {
  const auto &k = K[c / NS]; cl_address_space *m = as[c % NS]; UL st = ST[c % NS];
  if (!sym_thorough() && (k.n == 3 && (k.fb < 0 || k.rm || c % NS))) { sym_assert(1, "thorough only"); return; }
  int owner[SZ], off[SZ], act[SZ]; for (int i = 0; i < SZ; i++) owner[i] = -1, off[i] = 0, act[i] = -1;
  static U8 model[2][CS];
  sym_chip(chip[0], "c0"); sym_chip(chip[1], "c1"); sym_array(model[0], CS, 1, 8, "c0"); sym_array(model[1], CS, 1, 8, "c1");
  cl_address_decoder *d[3];
  for (int n = 0; n < k.n; n++) {
    static const char *bn[] = {"begin0", "begin1", "begin2"}, *en[] = {"end0", "end1", "end2"}, *cn[] = {"chipbegin0", "chipbegin1", "chipbegin2"};
    U32 b, e, cb; int ci = n & 1;
    if (n == 0 && k.fb >= 0) b = st + k.fb, e = st + k.fe, cb = 1;
    else { b = SYM32(bn[n]); e = SYM32(en[n]); cb = SYM32(cn[n]);
      sym_assume(b + 2 >= st && e + 2 >= st && b <= st + SZ + 1 && e <= st + SZ + 1 && cb <= CS + 1); b = sym_fork(b); e = sym_fork(e); }
    bool good = b <= e && b >= st && e < st + SZ && cb < CS && e - b < CS - cb;   /* the whole range must fit in the space and in the chip */
    d[n] = new cl_address_decoder(m, chip[ci], b, e, cb); d[n]->init(); m->decoders->add(d[n]);
    bool r = d[n]->activate(0);
    REQ(r == good, "a decoder is activated exactly when its range fits in both the address space and the memory chip");
    if (!good) { if (r) return; m->decoders->disconn(d[n]); d[n]->as_begin = 1; d[n]->as_end = 0; continue; }
    for (U32 a = b; a <= e; a++) owner[a - st] = ci, off[a - st] = cb + (a - b), act[a - st] = n;
    REQ(!d[n]->activate(0), "an active decoder is not activated twice");
  }
  if (k.rm) {
    cl_address_decoder *x = 0; U32 a = SYM32("removeat"); sym_assume(a >= st && a < st + SZ); a = sym_fork(a); x = m->get_decoder_of(a);
    REQ((x != 0) == (owner[a - st] >= 0), "a decoder is found exactly for the decoded addresses");
    if (x) { U32 lo = x->as_begin, hi = x->as_end; REQ(lo >= st && hi < st + SZ && lo <= a && a <= hi, "the decoder found covers the address");
      m->decoders->disconn(x); delete x; for (U32 q = lo; q <= hi; q++) { REQ(act[q - st] == act[a - st], "a decoder covers only addresses that it maps"); owner[q - st] = -1; } }
  }
  if (k.n < 3 && k.fb >= 0 || k.n == 1) { U32 wa = SYM32("store"); U8 v = SYM8("value"); sym_assume(wa >= st && wa < st + SZ); wa = sym_fork(wa);
  m->write(wa, v); if (owner[wa - st] >= 0) model[owner[wa - st]][off[wa - st]] = v; }
  for (int i = 0; i < SZ; i++) {
    bool nd = m->get_cell_flag(st + i, CELL_NON_DECODED);
    REQ(nd == (owner[i] < 0), "an address is decoded exactly when an active decoder covers it");
    cl_address_decoder *x = m->get_decoder_of(st + i);
    REQ((x != 0) == (owner[i] >= 0), "the decoder list covers exactly the decoded addresses");
    if (owner[i] >= 0) {
      REQ(m->get(st + i) == model[owner[i]][off[i]] && m->read(st + i) == model[owner[i]][off[i]], "an address shows the chip cell selected by the newest decoder covering it");
      if (x) REQ(x->memchip == chip[owner[i]] && x->as_to_chip(st + i) == off[i] && x->chip_to_as(off[i]) == st + i, "the decoder describes the mapping in effect");
    }
  }
  U32 j = SYM32("anyslot"); sym_assume(j < CS);
  REQ(chip[0]->get(j) == model[0][j] && chip[1]->get(j) == model[1][j], "a store reaches only the chip cell it is mapped to");
}
