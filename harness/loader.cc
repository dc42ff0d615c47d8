// Program loaders: Intel hex, S-record, asc, p2h and OMF files with arbitrary addresses, data and checksums, loaded into memories of every width, with offset and range.
#include "uc_common.h"
#include "memcl.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
extern struct cpu_entry cpus_z80[];
static cl_uc *uc;
enum { NW = 6 };
static const int W[NW] = {8, 8, 12, 16, 24, 32};      // the second 8 bit one starts at a non zero address
static const UL ST[NW] = {0, 0x4321, 0, 0, 0, 0}, SZ[NW] = {0x18000, 0x6000, 0x2000, 0x9000, 0x2100, 0x4001};
static cl_memory_chip *chip[NW]; static cl_address_space *as[NW];
static cl_address_space *rom_other; static cl_memory_chip *rom_chip;
// a file in memory: only the device level is replaced, the buffering code is the real one
class F : public cl_f { public: char t[1400]; int n, rp;
  F() : cl_f() { n = rp = 0; }
  enum file_type determine_type(void) { return F_FILE; }
  bool writable(void) { return false; }
  int check_dev(void) { pick(); return last_used != first_free; }
  int pick(void) { int fp = free_place(); if (fp < 5) return 0; int m = fp > 101 ? 99 : fp - 1; if (m > n - rp) m = n - rp; for (int i = 0; i < m; i++) process(t[rp + i]); rp += m; if (!m) at_end = 1; return m; }
  void reset() { file_id = 77; type = F_FILE; n = rp = 0; at_end = 0; last_used = first_free = prev_last_used = 0; cooking = false; proc_telnet = proc_escape = false; esc_buffer[0] = 0; last_ln = 0; }
  void c(int x) { t[n++] = x; } void s(const char *x) { while (*x) t[n++] = *x++; }
};
static F *f; static int lower, chk; static cl_inspec *is;
// symbolic bytes are made of two symbolic digits, so that a digit's character depends on few bits
static U8 SYMB(const char *nm) { char b[24]; snprintf(b, sizeof b, "%s.h", nm); U8 h = sym_int(b, 4); snprintf(b, sizeof b, "%s.l", nm); return h << 4 | (sym_int(b, 4) & 15); }
static U16 SYMW(const char *nm) { char b[24]; snprintf(b, sizeof b, "%s.1", nm); U8 h = SYMB(b); snprintf(b, sizeof b, "%s.0", nm); return h << 8 | SYMB(b); }
static U32 SYMD(const char *nm) { char b[24]; snprintf(b, sizeof b, "%s.w", nm); U16 h = SYMW(b); snprintf(b, sizeof b, "%s.v", nm); return (U32)h << 16 | SYMW(b); }
static int nrec;
static void sumbyte(int want, int bad);
static void nib(U32 v) { v &= 15; int a = lower ? 'a' - 10 : 'A' - 10; f->c(v + (v < 10 ? '0' : a)); }
static void hex2(U32 v) { nib(v >> 4); nib(v); chk += v & 0xff; }
static void hexw(U32 v, int dig) { for (int i = dig - 1; i >= 0; i--) nib(v >> (4 * i)); }
enum { HEX_DATA, HEX_EXT, HEX_BADSUM, HEX_OTHER, HEX_CHECK, HEX_RANGE, HEX_NOEOF, HEX_TWO, HEX_PARTIAL, S19_1, S19_2, S19_3, S19_BADSUM, S19_RANGE, S19_OTHER, ASC, P2H, OMF, ROM, NS };
static const char *SN[] = {"hex", "hex-extended", "hex-checksum", "hex-other-record", "hex-compare", "hex-range", "hex-no-end", "hex-two-records", "hex-partial-word", "s19-16", "s19-24", "s19-32", "s19-checksum", "s19-range", "s19-other-record", "asc", "p2h", "omf", "word"};
extern "C" void sym_setup(void) {
  uc = mk_sim<cl_simz80>(cpus_z80, "Z80");
  for (int i = 0; i < NW; i++) { chip[i] = new_chip("lchip", SZ[i], W[i], 0); as[i] = new cl_address_space("las", ST[i], SZ[i], W[i]); as[i]->init();
    cl_address_decoder *d = new cl_address_decoder(as[i], chip[i], ST[i], ST[i] + SZ[i] - 1, 0); d->init(); as[i]->decoders->add(d); d->activate(0); uc->address_spaces->add(as[i]); uc->memchips->add(chip[i]); }
  rom_other = (cl_address_space *)uc->rom; rom_chip = chip_of(uc->rom);
  sym_stub("cl_app::dd_printf"); sym_stub("cl_memory::err_inv_addr"); f = new F(); is = new cl_inspec("x", uc); is->inited = true;
}
extern "C" long sym_ncases(void) { return NW * NS * 3; }   // memory x scenario x (default memory, named space, chip)
extern "C" void sym_casename(long c, char *b, int n) { int w = c % NW, s = c / NW % NS, t = c / NW / NS; snprintf(b, n, "%s:w%d@%lx:%s", SN[s], W[w], ST[w], t == 0 ? "default" : t == 1 ? "named" : "chip"); }
static U32 R[0x18000]; static U8 R8[0x18000]; static U16 R16[0x18000];
static int w; static U32 offs, lo, hi; static bool ischip, cmp; static long nwords; static UL st, sz;
static U32 maskof(int w) { return w >= 32 ? 0xffffffffu : ((1u << w) - 1); }
static U32 rget(U32 i) { return W[w] <= 8 ? R8[i] : W[w] <= 16 ? R16[i] : R[i]; }
static void put(U32 a, U32 v) { nwords++; if (a < lo || a > hi || cmp) return; a += offs; U32 i = ischip ? a : a - st; if (!ischip && a < st || i >= sz) return; v &= maskof(W[w]); if (W[w] <= 8) R8[i] = v; else if (W[w] <= 16) R16[i] = v; else R[i] = v; }
static int bpw() { return (W[w] + 7) / 8; }
static U32 D[64]; static int ND;
static void words(int n) { static const char *dn[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9"}; for (int i = 0; i < n; i++) D[i] = W[w] <= 8 ? SYMB(dn[i]) : SYMD(dn[i]); ND = n; }
static void sumbyte(int want, int bad) { /* want: the correct checksum */ char b[16]; snprintf(b, sizeof b, "sum%d", nrec++); U8 s = SYMB(b); if (!sym_is_symbolic(bad) && bad == 0) sym_assume(s == (want & 0xff)); else sym_assume(((s - want - bad) & 0xff) == 0); hex2(s); }
static void hexrec(U32 addr, int type, const U8 *b, int n, int badsum) { f->c(':'); chk = 0; hex2(n); hex2(addr >> 8); hex2(addr); hex2(type); for (int i = 0; i < n; i++) hex2(b[i]); sumbyte(-chk, badsum); f->c('\n'); }
static U8 B[64]; static int bytes(int n, int from = 0) { int k = 0; for (int i = 0; i < n; i++) for (int j = 0; j < bpw(); j++) B[k++] = D[from + i] >> (8 * j); return k; }
static void s19rec(int t, U32 addr, int ab, const U8 *b, int n, int bad) { f->c('S'); f->c('0' + t); chk = 0; hex2(ab + n + 1); for (int i = ab - 1; i >= 0; i--) hex2(addr >> (8 * i)); for (int i = 0; i < n; i++) hex2(b[i]); sumbyte((chk & 0xff) ^ 0xff, bad); f->s("\r\n"); }
// word address and byte address of a record
static void getaddr(const char *nm, U32 &a, U32 &ba) { int u = bpw();
  if (u == 3) { static const U16 A[] = {0, 1, 0x20ff, 0x2100, 0x5554, 0x123, 0xaaa, 7}; int i = sym_fork(sym_int(nm, 3)); a = A[i]; ba = a * 3; return; }
  U16 x = SYMW(nm); if (u > 1) sym_assume((x & (u - 1)) == 0); ba = x; a = x / u; }
extern "C" void sym_test(long c) {
  w = c % NW; int s = c / NW % NS, t = c / NW / NS; int n = sym_thorough() ? 5 : 2, k; long r = -1;
  if (ST[w] && t != 1) { sym_assert(1, "only as a named space"); return; }
  if ((W[w] > 8) && (s == OMF)) { sym_assert(1, "OMF files describe byte memories"); return; }

  f->reset(); lower = SYM1("lower"); ischip = t == 2; cmp = false; nwords = 0; offs = 0; lo = 0; hi = 0xffffffff; st = ST[w]; sz = SZ[w];
  uc->rom = t == 0 ? as[w] : rom_other; is->mem = t == 2 ? (cl_memory *)chip[w] : as[w]; is->offset = 0; is->use_min = 0; is->use_max = 0xffffffff;
  sym_chip(chip[w], "mem"); if (W[w] <= 8) sym_array(R8, SZ[w], 1, W[w], "mem"); else if (W[w] <= 16) sym_array(R16, SZ[w], 2, W[w], "mem"); else sym_array(R, SZ[w], 4, W[w], "mem");
  sym_chip(rom_chip, "rom");
  int u = bpw(); U32 a, ba; nrec = 0; getaddr("addr", a, ba);
  if (s == HEX_RANGE || s == S19_RANGE) { is->offset = offs = SYM16("offset"); is->use_min = lo = SYM16("min"); is->use_max = hi = SYM16("max"); if (SYM1("nomax")) is->use_max = hi = 0xffffffff; if (SYM1("nomin")) is->use_min = lo = 0; }
  switch (s) {
  case HEX_DATA: case HEX_RANGE: case HEX_NOEOF: words(n); k = bytes(n); hexrec(ba, 0, B, k, 0); for (int i = 0; i < n; i++) put(a + i, D[i]);
    if (s == HEX_NOEOF) { if (SYM1("newline")) f->n--; } else { hexrec(SYMW("endaddr"), 1, B, 0, 0); if (s == HEX_DATA) { B[0] = 1; B[1] = 2; B[2] = 3; B[3] = 4; hexrec(0, 0, B, 4, 0); } } break;
  case HEX_EXT: { U8 x = sym_int("upper", 2); U8 e[2] = {(U8)(x >> 8), (U8)x}; words(n); hexrec(SYMW("extaddr"), 4, e, 2, 0); k = bytes(n); hexrec(ba, 0, B, k, 0); hexrec(0, 1, B, 0, 0);
    sym_assume(u != 3); for (int i = 0; i < n; i++) put(((U32)x << 16) / u + a + i, D[i]); break; }
  case HEX_BADSUM: { U8 bad = SYM8("error"); words(2); f->s("; text\n"); k = bytes(1); hexrec(ba, 0, B, k, bad); bytes(1, 1); U32 a2, b2; getaddr("addr2", a2, b2); hexrec(b2, 0, B, k, 0); hexrec(0, 1, B, 0, 0); if (!bad) put(a, D[0]); put(a2, D[1]); break; }
  case HEX_OTHER: { U8 ty = SYMB("type"); sym_assume(ty != 0 && ty != 1 && ty != 4); words(2); k = bytes(1); hexrec(ba, ty, B, k, 0); k = bytes(1, 1); hexrec(ba, 0, B, k, 0); hexrec(0, 1, B, 0, 0); put(a, D[1]); break; }
  case HEX_CHECK: cmp = true; words(n); k = bytes(n); hexrec(ba, 0, B, k, 0); hexrec(0, 1, B, 0, 0); for (int i = 0; i < n; i++) put(a + i, D[i]); break;
  case HEX_TWO: { words(3); k = bytes(1); hexrec(ba, 0, B, k, 0); U32 a2, b2; getaddr("addr2", a2, b2); k = bytes(2, 1); hexrec(b2, 0, B, k, 0); hexrec(0, 1, B, 0, 0); put(a, D[0]); put(a2, D[1]); put(a2 + 1, D[2]); break; }
  case HEX_PARTIAL: words(2); k = bytes(2); if (u == 1) u = 2; k -= SYM1("short") && u == 4 ? 3 : 1; if (W[w] <= 8) u = 1; hexrec(ba, 0, B, k, 0); hexrec(SYMW("endaddr"), 1, B, 0, 0); put(a, D[0]);
    if (u > 1) { U32 m = 0; for (int i = u; i < k; i++) m |= 0xffu << (8 * (i - u)); put(a + 1, D[1] & m); nwords--; } break;
  case S19_1: case S19_RANGE: if (u == 4) n = 1; words(n); k = bytes(n); s19rec(0, 0, 2, (const U8 *)"HDR", 3, 0); s19rec(1, ba, 2, B, k, 0); s19rec(9, 0, 2, B, 0, 0); for (int i = 0; i < n; i++) put(a + i, D[i]); break;
  case S19_2: case S19_3: { U32 x = sym_int("upper", 2); sym_assume(u != 3); if (u == 4) n = 1; words(n); k = bytes(n); s19rec(s == S19_2 ? 2 : 3, ba + (x << 16), s == S19_2 ? 3 : 4, B, k, 0); if (SYM1("newline")) f->n -= 2; for (int i = 0; i < n; i++) put(a + (x << 16) / u + i, D[i]); break; }
  case S19_BADSUM: { U8 bad = SYM8("error"); words(2); k = bytes(1); s19rec(1, ba, 2, B, k, bad); bytes(1, 1); s19rec(1, ba, 2, B, k, 0); if (!bad) put(a, D[0]); put(a, D[1]); break; }
  case S19_OTHER: { U8 ty = sym_int("type", 4); sym_assume(ty < 10 && ty != 1 && ty != 2 && ty != 3); words(2); k = bytes(1); s19rec(ty, ba, 2, B, k, 0); f->s("T10500001234B5\n"); k = bytes(1, 1); s19rec(1, ba, 2, B, k, 0); put(a, D[1]); break; }
  case ASC: words(3); for (int i = 0; i < 3; i++) { hexw(D[i], 2 * u); if (i == 1) f->s("\r\n\n"); else if (i == 0) f->s(" ; text\n"); else if (SYM1("newline")) f->c('\n'); put(i, u == 4 ? D[i] : D[i] & ((1u << (8 * u)) - 1)); } break;
  case P2H: { words(2); U32 a2 = SYMW("addr2"); hexw(D[0], 2 * u); f->s(" //C "); hexw(a, 4); f->s("\n"); hexw(D[0], 2 * u); f->s(" //S "); hexw(a2, 4); f->s(" x\n"); hexw(D[1], 2 * u); f->s("\t//I "); hexw(a2, 4); if (SYM1("newline")) f->c('\n');
    U32 m = u == 4 ? 0xffffffffu : (1u << (8 * u)) - 1; put(a, D[0] & m); put(a2, D[1] & m); break; }
  case OMF: { words(2); sym_assume(a < 0xffff); f->c(2); f->c(3); f->c(0); f->c(65); f->c(66); f->c(0); f->c(6); f->c(6); f->c(0); f->c(1); f->c(a); f->c(a >> 8); for (int i = 0; i < 2; i++) f->c(D[i]); f->c(SYM8("sum")); for (int i = 0; i < 2; i++) put((U16)(a + i), D[i]); break; }
  case ROM: { U32 x = SYM32("word"), v = SYM32("value") & maskof(W[w]); bool ck = SYM1("compare"); is->offset = offs = SYM32("offset"); sym_assume(x + offs >= x); is->use_min = lo = SYM32("min"); is->use_max = hi = SYM32("max"); cmp = ck;
    U32 i = x + offs - (ischip ? 0 : st); bool in = x >= lo && x <= hi && i < sz && (ischip || x + offs >= st); U32 old = in ? rget(i) : 0;
    bool e = uc->set_rom(is, x, v, ck); put(x, v); if (in && ck) REQ(e == (old == v), "comparing a word reports whether it equals the memory"); nwords = r = 0; break; }
  }
  sym_assert(f->n < 1400, "harness buffer");
  if (s <= HEX_PARTIAL) r = uc->read_hex_file(is, f, cmp); else if (s <= S19_OTHER) r = uc->read_s19_file(is, f, cmp); else if (s == ASC) r = uc->read_asc_file(is, f, cmp); else if (s == P2H) r = uc->read_p2h_file(is, f, cmp); else if (s == OMF) r = uc->read_omf_file(is, f, cmp);
  if (s == S19_1 || s == S19_2 || s == S19_3 || s == S19_BADSUM || s == S19_RANGE || s == S19_OTHER) nwords *= u;
  REQ(r == nwords, "the loader reports the amount of data it found");
  U32 j = SYM32("any"); sym_assume(j < sz);
  REQ(chip[w]->get(j) == rget(j), "after loading every memory location holds the word of the last valid record that covers it, or its old value");
  static U8 q[1]; U32 jr = SYM16("anyrom"); static U8 RR[0x10000]; sym_array(RR, 0x10000, 1, 8, "rom");
  REQ(rom_chip->get(jr) == RR[jr], "loading changes only the selected memory");
}
