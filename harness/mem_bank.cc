// Bank switching and bit banding: symbolic histories of bank register stores, symbolic chip contents, symbolic window accesses.
#include "uc_common.h"
#include "memcl.h"
enum { WIN = 4, CS = 16, SPC = 12, NB = 4 };
struct S { cl_memory_chip *reg, *rom[3]; cl_address_space *regs, *as; cl_banker *bk; };
struct KB { int mask, shift, nb, mask2, shift2, at2, def; UL st; };
static const KB K[] = { {0x03, 0, 4, 0, 0, 0, 15, 0}, {0x18, 3, 4, 0, 0, 0, 15, 0x100}, {0x80, 7, 2, 0, 0, 0, 3, 0}, {0x01, 0, 4, 0x10, 4, 1, 15, 0}, {0x0c, 2, 4, 0, 0, 0, 5, 0x20}, {0x01, 0, 4, 0x40, 6, 1, 13, 0x100}, {0x06, 1, 4, 0, 0, 0, 14, 0}, {0x01, 0, 4, 0x02, 1, 1, 15, 0x40} };
enum { NKB = 8 };
static S s[NKB];
static const struct { int bpc, dist; UL st, n, cb, same; } B[] = { {8, 1, 0, 24, 2, 0}, {8, 8, 0x80, 16, 0, 0}, {4, 2, 0, 20, 1, 0}, {1, 1, 0x10, 8, 3, 0}, {8, 1, 0, 13, 5, 0}, {8, 1, 0x20, 24, 2, 1}, {16, 1, 0, 32, 1, 2}, {32, 2, 0, 64, 1, 3} };
enum { NKN = 8 };
static cl_memory_chip *bc[NKN]; static cl_address_space *ba[NKN], *by[NKN];
extern "C" void sym_setup(void) {
  for (int k = 0; k < NKB; k++) {
    S &x = s[k]; x.reg = new_chip("regchip", 4, 8, 0); x.regs = new cl_address_space("regs", 0, 4, 8); x.regs->init();
    cl_address_decoder *d = new cl_address_decoder(x.regs, x.reg, 0, 3, 0); d->init(); x.regs->decoders->add(d); d->activate(0);
    x.as = new cl_address_space("win", K[k].st, SPC, 8); x.as->init();
    for (int i = 0; i < 3; i++) x.rom[i] = new_chip("rom", CS, 8, 0);
    x.as->decoders->add(d = new cl_address_decoder(x.as, x.rom[2], K[k].st, K[k].st + SPC - 1, 0)); d->init(); d->activate(0);
    if (K[k].mask2) x.bk = new cl_banker(x.regs, 1, K[k].mask, x.regs, 2, K[k].mask2, K[k].at2, x.as, K[k].st + 3, K[k].st + 3 + WIN - 1);
    else x.bk = new cl_banker(x.regs, 1, K[k].mask, x.as, K[k].st + 3, K[k].st + 3 + WIN - 1);
    x.bk->init(); x.as->decoders->add(x.bk);
    for (int b = 0; b < K[k].nb; b++) if (K[k].def >> b & 1) x.bk->add_bank(b, x.rom[b & 1], (b >> 1) * 5);
    x.bk->activate(0);
  }
  for (int k = 0; k < NKN; k++) {
    int w = B[k].same == 2 ? 16 : B[k].same == 3 ? 32 : 8;
    bc[k] = new_chip("bits", 16, w, 0); ba[k] = new cl_address_space("bitspace", B[k].st, B[k].n, 1); 
    /* like the simulators do: a space whose cells are bit cells of the storage width */
    if (w == 8) ba[k]->init();
    else { ba[k]->init(); for (UL i = 0; i < B[k].n; i++) { cl_memory_cell *q = w == 16 ? (cl_memory_cell *)new cl_bit_cell16(1) : (cl_memory_cell *)new cl_bit_cell32(1); q->init(); memcpy((void *)&ba[k]->cella[i], (void *)q, sizeof(cl_cell32)); } }
    by[k] = new cl_address_space("bytes", 0, 16, w); by[k]->init();
    cl_address_decoder *d = new cl_address_decoder(by[k], bc[k], 0, 15, 0); d->init(); by[k]->decoders->add(d); d->activate(0);
    cl_bander *n = new cl_bander(ba[k], B[k].st, B[k].st + B[k].n - 1, bc[k], B[k].cb, B[k].bpc, B[k].dist); n->init(); ba[k]->decoders->add(n); n->activate(0);
  }
}
extern "C" long sym_ncases(void) { return NKB * 4 + NKN * 2; }
extern "C" void sym_casename(long c, char *b, int n) {
  if (c < NKB * 4) snprintf(b, n, "bank%ld:mask%x/%x:%s", c / 4, K[c / 4].mask, K[c / 4].mask2, c % 4 == 0 ? "switch" : c % 4 == 1 ? "redefine" : c % 4 == 2 ? "switch_to" : "switch_to_then_store");
  else { c -= NKB * 4; snprintf(b, n, "bits%ld:%dper%d:%s", c / 2, B[c / 2].bpc, B[c / 2].dist, c & 1 ? "store" : "read"); }
}
static U8 mrom[3][CS], mreg[4]; static int map[NB][2];
static int selb(const KB &k) { int b = (mreg[1] & k.mask) >> k.shift; if (k.mask2) b |= ((mreg[2] & k.mask2) >> k.shift2) << k.at2; return b; }
extern "C" void sym_test(long c) {
  if (c < NKB * 4) {
    const KB &k = K[c / 4]; S &x = s[c / 4]; int mode = c % 4; UL w0 = k.st + 3;
    for (int b = 0; b < NB; b++) map[b][0] = b < k.nb && (k.def >> b & 1) ? b & 1 : -1, map[b][1] = (b >> 1) * 5;
    static const char *rn[] = {"rom0", "rom1", "rom2"};
    for (int i = 0; i < 3; i++) { sym_chip(x.rom[i], rn[i]); sym_array(mrom[i], CS, 1, 8, rn[i]); }
    for (int i = 0; i < 4; i++) mreg[i] = x.regs->get(i);
    int cur = 0; if (map[0][0] < 0) cur = -1;
    int steps = sym_thorough() ? 3 : 2;
    int c0 = cur >= 0 ? map[cur][0] : 2, o0 = cur >= 0 ? map[cur][1] : 3;
    for (int n = 0; n < steps; n++) {
      static const char *vn[] = {"bankreg0", "bankreg1", "bankreg2"}, *an[] = {"regaddr0", "regaddr1", "regaddr2"};
      U8 v = SYM8(vn[n]); U32 a = k.mask2 ? 1 + (SYM1(an[n])) : 1;
      if ((mode == 2 && n == steps - 1) || (mode == 3 && n == 0)) { int b = v & 3; if (b >= k.nb) b = 0; b = sym_fork(b); x.bk->switch_to(b, 0); if (map[b][0] >= 0) c0 = map[b][0], o0 = map[b][1]; continue; }
      U32 r = x.regs->write(a, v); mreg[a] = v; REQ(r == v, "a bank register keeps the value stored");
      int b = sym_fork(selb(k)); if (map[b][0] >= 0) c0 = map[b][0], o0 = map[b][1];
      if (mode == 1 && n == 0) { int q = SYM8("newbank"); sym_assume(q < k.nb); q = sym_fork(q); int off = SYM8("newoff"); sym_assume(off <= 8); off = sym_fork(off & 7);
        x.bk->add_bank(q, x.rom[2], off); map[q][0] = 2; map[q][1] = off; if (q == b) c0 = 2, o0 = off; }
    }
    for (int i = 0; i < WIN; i++) { REQ(x.as->get(w0 + i) == mrom[c0][o0 + i], "the window shows the bank selected last among the defined banks"); }
    for (int i = 0; i < SPC; i++) if (i < 3 || i >= 3 + WIN) REQ(x.as->get(k.st + i) == mrom[2][i], "memory outside the window is not affected by bank switching");
    U8 v = SYM8("store"); U32 i = SYM8("at"); sym_assume(i < SPC); i = sym_fork(i);
    x.as->write(k.st + i, v); if (i >= 3 && i < 3 + WIN) mrom[c0][o0 + i - 3] = v; else mrom[2][i] = v;
    U32 j = SYM8("anyslot"); sym_assume(j < CS);
    REQ(x.rom[0]->get(j) == mrom[0][j] && x.rom[1]->get(j) == mrom[1][j] && x.rom[2]->get(j) == mrom[2][j], "a store through the window reaches only the selected bank");
    REQ(x.regs->get(1) == mreg[1] && x.regs->get(2) == mreg[2] && x.regs->get(0) == mreg[0], "bank registers hold what was stored");
    return;
  }
  c -= NKB * 4; const auto &q = B[c / 2]; int k = c / 2; static U32 m[16]; int w = bc[k]->width;
  sym_chip(bc[k], "bits"); sym_array(m, 16, 4, w, "bits");
  UL i = SYM8("bit"); sym_assume(i < q.n); UL cell = q.cb + i / q.bpc * q.dist; U32 mask = 1u << (i % q.bpc);
  if (c & 1) { U32 v = SYM32("value"); int op = sym_fork(SYM8("op") & 3); UL a = q.st + i; 
    if (op == 0) ba[k]->write(a, v); else if (op == 1) ba[k]->set(a, v); else if (op == 2) ba[k]->download(a, v); else ba[k]->get_cell(a)->write(v);
    if (v) m[cell] |= mask; else m[cell] &= ~mask;
    UL j = SYM8("anyslot"); sym_assume(j < 16); REQ(bc[k]->get(j) == m[j], "storing a bit changes exactly that bit of the byte it maps to");
    REQ(ba[k]->get(a) == (v ? 1u : 0u), "a stored bit reads back"); return; }
  REQ(ba[k]->read(q.st + i) == ((m[cell] & mask) ? 1u : 0u), "a bit address shows its bit of the byte it maps to");
  U32 v = SYM32("value"), j = SYM8("byte"); sym_assume(j < 16); v &= bc[k]->data_mask; by[k]->write(j, v); m[j] = v;
  REQ(ba[k]->get(q.st + i) == ((m[cell] & mask) ? 1u : 0u), "a store to a byte shows at its bit addresses at once");
  UL z = SYM8("z"); sym_observe("z", z); sym_assume(z < 16); REQ(bc[k]->get(z) == m[z], "reading bits changes nothing");
}
