// The dump command's formats: the text shows exactly the cells of the range, an Intel hex dump loads back to the same memory.
#include "uc_common.h"
#include "memcl.h"
#include "z80cl.h"
#include "simz80cl.h"
#include "fiocl.h"
#include "newcmdcl.h"
extern struct cpu_entry cpus_z80[];
static cl_uc *uc;
enum { NW = 6 };
static const int W[NW] = {8, 8, 12, 16, 24, 32};      // the second 8 bit one starts at a non zero address
static const UL ST[NW] = {0, 0x4321, 0, 0, 0, 0}, SZ[NW] = {0x20800, 0x6000, 0x2000, 0x9000, 0x6000, 0x4100};
static cl_memory_chip *chip[NW], *chip2[NW]; static cl_address_space *as[NW], *as2[NW];
class F : public cl_f { public: char t[4000]; int n, rp;   // a file in memory: only the device level is replaced
  F() : cl_f() { n = rp = 0; }
  enum file_type determine_type(void) { return F_FILE; }
  bool writable(void) { return true; }
  int check_dev(void) { pick(); return last_used != first_free; }
  int pick(void) { int fp = free_place(); if (fp < 5) return 0; int m = fp > 101 ? 99 : fp - 1; if (m > n - rp) m = n - rp; for (int i = 0; i < m; i++) process(t[rp + i]); rp += m; if (!m) at_end = 1; return m; }
  void reset() { file_id = 77; type = F_FILE; n = rp = 0; at_end = 0; last_used = first_free = prev_last_used = 0; cooking = false; proc_telnet = proc_escape = false; esc_buffer[0] = 0; last_ln = 0; tty = false; }
  int write(const char *b, int k) { for (int i = 0; i < k; i++) if (n < 4000) t[n++] = b[i]; return k; }
};
static F *f;
class K : public cl_console_dummy { public: bool non_color(void) { return true; } bool opt_bw(void) { return true; } class cl_f *get_fout(void) { return f; } };
static K *con; static cl_inspec *is;
enum { IHEX, HEX, HEXDOWN, SMART, BIN, STR, PAGE, NS };
static const char *SN[] = {"ihex", "hex", "hex-down", "default", "binary", "string", "paging"};
extern "C" void sym_setup(void) {
  uc = mk_sim<cl_simz80>(cpus_z80, "Z80");
  for (int i = 0; i < NW; i++) for (int k = 0; k < 2; k++) { cl_memory_chip *c = new_chip("lchip", SZ[i], W[i], 0); cl_address_space *a = new cl_address_space(k ? "las2" : "las", ST[i], SZ[i], W[i]); a->init();
    cl_address_decoder *d = new cl_address_decoder(a, c, ST[i], ST[i] + SZ[i] - 1, 0); d->init(); a->decoders->add(d); d->activate(0); uc->address_spaces->add(a); uc->memchips->add(c); (k ? chip2 : chip)[i] = c; (k ? as2 : as)[i] = a; }
  sym_stub("cl_app::dd_printf"); sym_stub("cl_memory::err_inv_addr"); f = new F(); is = new cl_inspec("x", uc); is->inited = true; con = new K();
}
extern "C" long sym_ncases(void) { return NW * NS; }
extern "C" void sym_casename(long c, char *b, int n) { snprintf(b, n, "%s:w%d@%lx", SN[c / NW], W[c % NW], ST[c % NW]); }
static int w, pos; static U32 R[0x20800]; static U8 R8[0x20800]; static U16 R16[0x20800], Q16[0x20800]; static U8 Q8[0x20800]; static U32 Q[0x20800];
static U32 rget(U32 i) { return W[w] <= 8 ? R8[i] : W[w] <= 16 ? R16[i] : R[i]; }
static U32 qget(U32 i) { return W[w] <= 8 ? Q8[i] : W[w] <= 16 ? Q16[i] : Q[i]; }
static char cur() { return pos < f->n ? f->t[pos] : 0; }
static void blanks() { while (cur() == ' ') pos++; }
static int dig(int c) { return c - '0' < 10u ? c - '0' : c - 'a' + 10; }
static U32 hexnum() { U32 v = 0; while (cur() >= '0' && cur() <= '9' || cur() >= 'a' && cur() <= 'f') v = v << 4 | dig(f->t[pos++]); return v; }
/* one line of a text dump: the address, the values of the cells from a on (step st), their characters; returns the number of cells */
static int line(U32 a, int st, int left, int bpl) {
  REQ(cur() == '0' && f->t[pos + 1] == 'x', "a line starts with the address"); pos += 2; REQ(hexnum() == a, "address of the line"); blanks();
  int k = left < bpl ? left : bpl, dg = (W[w] + 3) / 4, bytes = (W[w] + 7) / 8;
  for (int i = 0; i < k; i++) { U32 v = 0; for (int j = 0; j < dg; j++) { char ch = cur(); REQ(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f', "a number has all its digits"); v = v << 4 | dig(ch); pos++; } REQ(v == rget(a + i * st - ST[w]), "the numbers are the values of the cells"); if (i < k - 1) { REQ(cur() == ' ', "numbers are separated"); } blanks2: while (i < k - 1 && cur() == ' ') pos++; }
  /* the characters are the last of the line */
  int pad = (bpl - k) * (dg + 1) + 1; for (int i = 0; i < pad; i++) { REQ(cur() == ' ', "padding"); pos++; }
  for (int i = 0; i < k; i++) for (int b = 0; b < bytes; b++) { U8 x = rget(a + i * st - ST[w]) >> (8 * b); REQ((U8)cur() == (x >= 32 && x <= 126 ? x : '.'), "the characters are those of the values"); pos++; }
  REQ(cur() == '\n', "end of the line"); pos++; return k;
}
extern "C" void sym_test(long c) {
  w = c % NW; int s = c / NW; UL sz = SZ[w]; f->reset(); pos = 0; int u = (W[w] + 7) / 8;
  sym_chip(chip[w], "mem"); if (W[w] <= 8) sym_array(R8, sz, 1, W[w], "mem"); else if (W[w] <= 16) sym_array(R16, sz, 2, W[w], "mem"); else sym_array(R, sz, 4, W[w], "mem");
  sym_chip(chip2[w], "old"); if (W[w] <= 8) sym_array(Q8, sz, 1, W[w], "old"); else if (W[w] <= 16) sym_array(Q16, sz, 2, W[w], "old"); else sym_array(Q, sz, 4, W[w], "old");
  U32 bases[6] = {0, 0x1f0, (U32)(0x10000 / u) - 3, 0x0ffe, (U32)sz - 5, (U32)(0x20000 / u) - 2}; int nb = sym_int("base", 3); sym_assume(nb < 6); nb = sym_fork(nb);
  U32 b0 = bases[nb] < sz ? bases[nb] : 5; int so = sym_int("start", 2), len = sym_int("len", 6); bool wide = s == IHEX && W[w] > 16; if (!sym_thorough()) { sym_assume(so < 2); if (s == PAGE) sym_assume(so == 0 && (nb == 2 || nb == 4)); if (wide) sym_assume(so == 1 && (len == 0 || len == 5) && (nb == 2 || nb == 4)); } b0 += sym_fork(so); static const int lens[] = {1, 2, 4, 7, 8, 9, 33}; int nl = sym_thorough() ? 7 : 6; if (s == PAGE) sym_assume(len == 0); sym_assume(len < (s == IHEX && W[w] == 8 ? 7 : nl)); len = lens[sym_fork(len)];
  UL top = ST[w] + sz - 1; b0 += ST[w]; if (b0 > top) b0 = top; UL end = b0 + len - 1; cl_dump_ads ads; ads._start(b0); ads._stop(end);
  int vis = end > top ? top - b0 + 1 : len; cl_memory *m = as[w];
  if (s == IHEX) for (int i = 0; i < vis; i++) if (i != 1 % vis) { U32 v = (0x35c1a7e9u * (i + 3) ^ i << 5) & (W[w] >= 32 ? 0xffffffffu : (1u << W[w]) - 1), k = b0 + i - ST[w]; chip[w]->set(k, v); if (W[w] <= 8) R8[k] = v; else if (W[w] <= 16) R16[k] = v; else R[k] = v; }
  if (s == IHEX && W[w] == 32) sym_assume(rget(b0 + 1 % vis - ST[w]) >> 16 == 0x5aa5);
  switch (s) {
  case IHEX: { m->dump_i(&ads, 32, con); is->mem = as2[w]; is->offset = 0; is->use_min = 0; is->use_max = 0xffffffff; sym_assert(f->n < 4000, "harness buffer"); long r = uc->read_hex_file(is, f, false);
    REQ(r == vis, "the hex dump contains as many words as the range");
    U32 j = SYM32("any"); sym_assume(j < sz); U32 a = j + ST[w]; sym_observe("word", chip2[w]->get(j));
    if (a >= b0 && a - b0 < (U32)vis) REQ(chip2[w]->get(j) == rget(j), "loading a hex dump restores the dumped memory"); else REQ(chip2[w]->get(j) == qget(j), "loading a hex dump changes nothing outside of the dumped range");
    break; }
  case HEX: case SMART: { int bpl = s == SMART ? -1 : sym_fork(sym_int("bpl", 1)) ? 8 : 3; m->dump(s == SMART, &ads, bpl, con); if (bpl < 0) bpl = W[w] > 16 ? 4 : 8; if (vis < bpl) bpl = vis;
    for (int k = 0; k < vis; ) k += line(b0 + k, 1, vis - k, bpl); REQ(pos == f->n, "nothing else is shown"); break; }
  case HEXDOWN: { UL lo = b0 < ST[w] + len ? ST[w] : b0 - len; ads._start(b0); ads._stop(lo); if (lo == b0) break; int t = b0 - lo + 1, bpl = 8; m->dump(0, &ads, bpl, con); if (t < bpl) bpl = t; for (int k = 0; k < t; ) k += line(b0 - k, -1, t - k, bpl); REQ(pos == f->n, "nothing else is shown"); break; }
  case BIN: m->dump_b(&ads, -1, con); REQ(f->n == vis, "one byte per cell"); for (int i = 0; i < vis; i++) REQ((U8)f->t[i] == (U8)rget(b0 + i - ST[w]), "the bytes are the values of the cells"); break;
  case STR: { if (vis > 3) vis = 3; for (int i = 0; i < vis; i++) { U32 v = rget(b0 + i - ST[w]); if (i == vis - 1 && b0 + i < top) sym_assume(v == 0); else sym_assume(v != 0); }
    m->dump_s(&ads, -1, con); char last = '\n'; int k = b0 + vis - 1 < top ? vis - 1 : vis;
    for (int i = 0; i < k; i++) { U8 x = rget(b0 + i - ST[w]); static const char esc[] = "'\"?\\\a\b\f\n\r\t\v", nm[] = "'\"?\\abfnrtv"; int e = -1; for (int q = 0; q < 11; q++) if (x == esc[q]) e = q;
      if (e >= 0) { REQ(cur() == '\\' && f->t[pos + 1] == nm[e], "special characters are escaped"); pos += 2; } else if (x >= 32 && x <= 126) { REQ((U8)cur() == x, "the characters are those of the cells"); pos++; }
      else { REQ(cur() == '\\' && f->t[pos + 1] == '0' + (x >> 6) && f->t[pos + 2] == '0' + (x >> 3 & 7) && f->t[pos + 3] == '0' + (x & 7), "other characters are octal numbers"); pos += 4; } last = x; }
    if (last != '\n') { REQ(cur() == '\n', "end of the line"); pos++; } REQ(pos == f->n, "nothing else is shown"); break; }
  case PAGE: { cl_dump_ads x; m->dump_finished = b0; UL at = b0; int bpl = W[w] > 16 ? 4 : 8; UL t = top - b0 + 1; int left = t < 10UL * bpl ? t : 10 * bpl; m->dump(0, &x, -1, con); int bb = left < bpl ? left : bpl;
    for (int k = 0; k < left; ) k += line(at + k, 1, left - k, bb); REQ(pos == f->n, "ten lines are shown"); REQ(m->dump_finished == (at + left > top ? ST[w] : at + left), "the next dump continues where this one ended"); break; }
  }
  U32 i = SYM32("anycell"); sym_assume(i < sz); REQ(chip[w]->get(i) == rget(i), "a dump does not change the memory");
}
