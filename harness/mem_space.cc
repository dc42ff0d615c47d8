// Address spaces and memory chips of every width: two arbitrary accesses at arbitrary addresses, then compare every cell.
#include "uc_common.h"
#include "uc_common.h"
#include "memcl.h"
static const int W[] = {1, 2, 4, 7, 8, 9, 12, 14, 16, 18, 24, 31, 32};
static const UL ST[] = {0, 0x80, 0xfff0};
enum { NW = 13, NST = 3, SZ = 11, OFF = 3 };
static cl_memory_chip *chip[NW]; static cl_address_space *as[NW][NST]; static cl_address_space *other[NW];
enum { O_WRITE, O_SET, O_CELLW, O_CELLSET, O_DOWN, O_CHIP, O_READ, O_READSKIP, O_CELLR, O_EQ, NO };
static const char *ON[] = {"write", "set", "cell-write", "cell-set", "download", "chip-set", "read", "read-skip", "cell-read", "cell-assign"};
static U32 maskof(int w) { return w >= 32 ? 0xffffffffu : ((1u << w) - 1); }
extern "C" void sym_setup(void) {
  for (int w = 0; w < NW; w++) {
    chip[w] = new_chip("chip", SZ + OFF + 2, W[w], 0);
    for (int s = 0; s < NST; s++) {
      as[w][s] = new cl_address_space("as", ST[s], SZ, W[w]); as[w][s]->init();
      cl_address_decoder *d = new cl_address_decoder(as[w][s], chip[w], ST[s], ST[s] + SZ - 1, OFF); d->init();
      as[w][s]->decoders->add(d); d->activate(0);
    }
  }
}
enum { G_PAIR, G_HELP };
extern "C" long sym_ncases(void) { return NW * NST * NO + NW * NST; }
static void dec(long c, int &w, int &s, int &o) { if (c < NW * NST * NO) { o = c % NO; c /= NO; } else { c -= NW * NST * NO; o = -1; } s = c % NST; w = c / NST; }
extern "C" void sym_casename(long c, char *b, int n) { int w, s, o; dec(c, w, s, o); snprintf(b, n, "w%d@%lx:%s", W[w], ST[s], o < 0 ? "address-arithmetic" : ON[o]); }
static U32 model[SZ + OFF + 2]; static unsigned char ro[SZ];
static void access(int w, int s, int o, U32 a, U32 v, const char *rn) {
  cl_address_space *m = as[w][s]; U32 mk = maskof(W[w]); bool ok = a >= ST[s] && a - ST[s] < SZ; UL i = ok ? a - ST[s] + OFF : 0;
  U32 nv = W[w] == 1 ? (v != 0) : v & mk, r = 0; bool wr = true, raw = false;
  switch (o) {
  case O_WRITE: r = m->write(a, v); break;
  case O_SET: m->set(a, v); r = m->get(a); break;
  case O_CELLW: r = m->get_cell(a)->write(v); break;
  case O_CELLSET: r = m->get_cell(a)->set(v); break;
  case O_EQ: *(m->get_cell(a)) = v; r = m->get(a); break;
  case O_DOWN: m->download(a, v); r = m->get(a); raw = true; break;
  case O_CHIP: { chip[w]->set(a, v); ok = a < SZ + OFF + 2; i = a; r = chip[w]->get(a); raw = true; nv = v & mk; break; }
  case O_READ: r = m->read(a); wr = false; break;
  case O_READSKIP: r = m->read(a, HW_PORT); wr = false; break;
  case O_CELLR: r = m->get_cell(a)->read(); wr = false; break;
  }
  if (o == O_EQ && 0) ;
  if (!ok) return;
  if (wr && (raw || !ro[i - OFF])) model[i] = nv;
  if (o == O_CHIP) { REQ(r == model[i], "chip returns the stored value masked to its width"); return; }
  REQ(r == model[i], wr ? "a store returns/reads back the value masked to the width (old value when read only)" : "a read returns the last value stored");
}
extern "C" void sym_test(long c) {
  int w, s, o; dec(c, w, s, o); cl_address_space *m = as[w][s]; U32 mk = maskof(W[w]);
  if (o < 0) {
    U32 a = SYM32("addr"); int d = (int)(short)SYM16("step"); sym_assume(a >= ST[s] && a < ST[s] + SZ);
    REQ(m->valid_address(a), "addresses inside the space are valid");
    REQ(m->inc_address(a) == (a == ST[s] + SZ - 1 ? ST[s] : a + 1), "incrementing an address wraps at the end of the space");
    sym_assume(d >= -SZ && d <= 2 * SZ); int k = (int)(a - ST[s]) + d; while (k < 0) k += SZ; while (k >= SZ) k -= SZ;
    REQ(m->inc_address(a, d) == ST[s] + k, "stepping an address by any amount wraps at both ends of the space");
    U32 x = SYM32("any"); sym_assume(x < ST[s] + 3 * SZ && (long)x >= (long)ST[s] - 2 * SZ);
    U32 y = m->validate_address(x); int q = (int)(x - ST[s]); while (q < 0) q += SZ; while (q >= SZ) q -= SZ;
    REQ(y == ST[s] + q, "an address outside the space is folded into it");
    U32 z = SYM32("z"); sym_observe("z", z); REQ(m->valid_address(z) == (z >= ST[s] && z - ST[s] < SZ), "validity test accepts exactly the addresses of the space");
    REQ(m->lowest_valid_address() == ST[s] && m->highest_valid_address() == ST[s] + SZ - 1, "lowest and highest address");
    t_addr o2 = 0; REQ(m->is_owned(m->get_cell(a), &o2) && o2 == a, "a cell is found back at its own address");
    t_addr sl = 0; U32 ca = SYM8("chipaddr"); sym_assume(ca < SZ + OFF + 2); REQ(chip[w]->is_slot(chip[w]->get_slot(ca), &sl) && sl == ca, "a storage slot is found back at its own chip address");
    return;
  }
  int esz = chip_esz(chip[w]);
  sym_chip(chip[w], "mem"); sym_array(model, SZ + OFF + 2, 4, W[w], "mem");
  for (int i = 0; i < SZ; i++) ro[i] = 0;
  U32 ra = SYM32("readonly"); if (ra >= ST[s] && ra - ST[s] < SZ) ro[ra - ST[s]] = 1;
  m->set_cell_flag(ra, true, CELL_READ_ONLY);
  U32 a = SYM32("a"), v = SYM32("v");
  access(w, s, o, a, v, "r1");
  for (int k = 0; k < (sym_thorough() ? 2 : 1); k++) {
    U32 b = SYM32(k ? "c" : "b"), u = SYM32(k ? "t" : "u");
    access(w, s, k ? O_CELLW : (o & 1) ? O_WRITE : O_SET, b, u, "r2");
  }
  U32 i = SYM32("any"); sym_assume(i < SZ); sym_observe("any", i);
  REQ(m->get(ST[s] + i) == model[OFF + i], "every cell holds exactly what was stored there (get)");
  REQ(m->read(ST[s] + i) == model[OFF + i], "every cell holds exactly what was stored there (read)");
  U32 j = SYM32("anyslot"); sym_assume(j < SZ + OFF + 2); REQ(chip[w]->get(j) == model[j], "the storage behind the space changes only at the accessed address");
  bool f = m->get_cell_flag(ST[s] + i, CELL_READ_ONLY); REQ(f == (bool)ro[i], "the read only flag is kept per cell");
}
