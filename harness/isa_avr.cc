// AVR: every instruction of the simulator's instruction table against a model of the AVR instruction set manual.
// The data space is given 64K of plain memory (registers and I/O included); peripherals are detached.
#include "isa_common.h"
#include "glob.h"
#include "simavrcl.h"
#include "avrcl.h"
static cl_avr *z; static RefMem<U8> M; static RefMem<U16> R;
enum { C_ = 1, Z_ = 2, N_ = 4, V_ = 8, S_ = 16, H_ = 32, T_ = 64, I_ = 128, SP_ = 0x5d, SR = 0x5f };
static U16 pc; static bool term; // pc: next instruction
static U8 f;
static void fl(U8 b, bool on) { if (on) f |= b; else f &= ~b; }
static void nzs(U8 v) { fl(N_, v & 0x80); fl(Z_, !v); fl(S_, !!(f & N_) != !!(f & V_)); }
static U8 add(U8 a, U8 b, int c) { int r = a + b + c; fl(C_, r > 255); fl(H_, (a & 15) + (b & 15) + c > 15); fl(V_, (a ^ r) & (b ^ r) & 0x80); nzs(r); return r; }
static U8 sub(U8 a, U8 b, int c, bool keepz) { int r = a - b - c; bool oz = f & Z_; fl(C_, r < 0); fl(H_, (a & 15) - (b & 15) - c < 0); fl(V_, (a ^ b) & (a ^ r) & 0x80); nzs(r); if (keepz && !oz) fl(Z_, 0); return r; }
static U16 w(int a) { return M[a + 1] << 8 | M[a]; } static void ww(int a, U16 v) { M[a] = v; M[a + 1] = v >> 8; }
static void push(U8 v) { U16 s = w(SP_); M[s] = v; ww(SP_, s - 1); } static U8 pop() { U16 s = w(SP_) + 1; U8 v = M[s]; ww(SP_, s); return v; }
static void stackok(int nb) { U16 s = w(SP_); sym_assume(s > 0x63 && s < 0xfff0); } // stack apart from the registers
static void pushpc() { stackok(2); U16 s = w(SP_); M[s] = pc; M[(U16)(s - 1)] = pc >> 8; ww(SP_, s - 2); }
static void poppc() { U16 s = w(SP_); sym_assume(s < 0xfff0); pc = M[s + 1] << 8 | M[s + 2]; ww(SP_, s + 2); }
static void skip(bool c) { if (!c) return; U16 n = R[pc]; pc += ((n & 0xfc0f) == 0x9000 || (n & 0xfe0c) == 0x940c) ? 2 : 1; }
// name, pattern, mask
static struct { const char *n; U16 p, m; } T[] = { {"nop", 0, 0xffff}, {"bset", 0x9408, 0xff8f}, {"bclr", 0x9488, 0xff8f}, {"adc", 0x1c00, 0xfc00}, {"add", 0x0c00, 0xfc00}, {"adiw", 0x9600, 0xff00}, {"and", 0x2000, 0xfc00}, {"andi", 0x7000, 0xf000}, {"asr", 0x9405, 0xfe0f},
  {"bld", 0xf800, 0xfe08}, {"bst", 0xfa00, 0xfe08}, {"brbc", 0xf400, 0xfc00}, {"brbs", 0xf000, 0xfc00}, {"call", 0x940e, 0xffff}, {"cbi", 0x9800, 0xff00}, {"com", 0x9400, 0xfe0f}, {"cp", 0x1400, 0xfc00}, {"cpc", 0x0400, 0xfc00}, {"cpi", 0x3000, 0xf000}, {"cpse", 0x1000, 0xfc00},
  {"dec", 0x940a, 0xfe0f}, {"eor", 0x2400, 0xfc00}, {"icall", 0x9509, 0xffff}, {"ijmp", 0x9409, 0xffff}, {"in", 0xb000, 0xf800}, {"inc", 0x9403, 0xfe0f}, {"jmp", 0x940c, 0xffff}, {"ldX", 0x900c, 0xfe0f}, {"ldX+", 0x900d, 0xfe0f}, {"ld-X", 0x900e, 0xfe0f}, {"ldY+", 0x9009, 0xfe0f}, {"ld-Y", 0x900a, 0xfe0f}, {"lddY", 0x8008, 0xd208},
  {"ldZ+", 0x9001, 0xfe0f}, {"ld-Z", 0x9002, 0xfe0f}, {"lddZ", 0x8000, 0xd208}, {"ldi", 0xe000, 0xf000}, {"lds", 0x9000, 0xfe0f}, {"lpm", 0x95c8, 0xffff}, {"lsr", 0x9406, 0xfe0f}, {"mov", 0x2c00, 0xfc00}, {"mul", 0x9c00, 0xfc00}, {"neg", 0x9401, 0xfe0f}, {"or", 0x2800, 0xfc00}, {"ori", 0x6000, 0xf000}, {"out", 0xb800, 0xf800}, {"pop", 0x900f, 0xfe0f}, {"push", 0x920f, 0xfe0f},
  {"rcall", 0xd000, 0xf000}, {"ret", 0x9508, 0xffff}, {"reti", 0x9518, 0xffff}, {"rjmp", 0xc000, 0xf000}, {"ror", 0x9407, 0xfe0f}, {"sbc", 0x0800, 0xfc00}, {"sbci", 0x4000, 0xf000}, {"sbi", 0x9a00, 0xff00}, {"sbic", 0x9900, 0xff00}, {"sbis", 0x9b00, 0xff00}, {"sbiw", 0x9700, 0xff00}, {"sbrc", 0xfc00, 0xfe08}, {"sbrs", 0xfe00, 0xfe08}, {"sleep", 0x9588, 0xffff},
  {"stX", 0x920c, 0xfe0f}, {"stX+", 0x920d, 0xfe0f}, {"st-X", 0x920e, 0xfe0f}, {"stY+", 0x9209, 0xfe0f}, {"st-Y", 0x920a, 0xfe0f}, {"stdY", 0x8208, 0xd208}, {"stZ+", 0x9201, 0xfe0f}, {"st-Z", 0x9202, 0xfe0f}, {"stdZ", 0x8200, 0xd208}, {"sts", 0x9200, 0xfe0f}, {"sub", 0x1800, 0xfc00}, {"subi", 0x5000, 0xf000}, {"swap", 0x9402, 0xfe0f}, {"wdr", 0x95a8, 0xffff} };
static void step(const char *n, U16 o) {
  U8 d = o >> 4 & 31, r = (o >> 5 & 16) | (o & 15), di = 16 + (o >> 4 & 15), K = (o >> 4 & 0xf0) | (o & 15), q = (o >> 8 & 0x20) | (o >> 7 & 0x18) | (o & 7), b = o & 7, mk = 1 << b, A5 = o >> 3 & 31, A6 = (o >> 5 & 0x30) | (o & 15), P = 24 + 2 * (o >> 4 & 3), K6 = (o >> 2 & 0x30) | (o & 15);
  f = M[SR]; pc++; U8 a = M[d], v = M[r]; int c = f & 1;
#define IS(x) if (!strcmp(n, x))
#define ALU(x, e) IS(x) { U8 t = e; M[d] = t; M[SR] = f; return; }
#define ALUI(x, e) IS(x) { a = M[di]; U8 t = e; M[di] = t; M[SR] = f; return; }
  IS("nop") return; IS("sleep") return; IS("wdr") return;
  IS("bset") { M[SR] = f | 1 << (o >> 4 & 7); return; } IS("bclr") { M[SR] = f & ~(1 << (o >> 4 & 7)); return; }
  ALU("adc", add(a, v, c)) ALU("add", add(a, v, 0)) ALU("sub", sub(a, v, 0, false)) ALU("sbc", sub(a, v, c, true)) ALUI("subi", sub(a, K, 0, false)) ALUI("sbci", sub(a, K, c, true))
  IS("cp") { sub(a, v, 0, false); M[SR] = f; return; } IS("cpc") { sub(a, v, c, true); M[SR] = f; return; } IS("cpi") { sub(M[di], K, 0, false); M[SR] = f; return; }
  IS("and") { a &= v; fl(V_, 0); nzs(a); M[d] = a; M[SR] = f; return; } IS("or") { a |= v; fl(V_, 0); nzs(a); M[d] = a; M[SR] = f; return; } IS("eor") { a ^= v; fl(V_, 0); nzs(a); M[d] = a; M[SR] = f; return; }
  IS("andi") { a = M[di] & K; fl(V_, 0); nzs(a); M[di] = a; M[SR] = f; return; } IS("ori") { a = M[di] | K; fl(V_, 0); nzs(a); M[di] = a; M[SR] = f; return; }
  IS("com") { a = ~a; fl(V_, 0); fl(C_, 1); nzs(a); M[d] = a; M[SR] = f; return; }
  IS("neg") { U8 t = -a; fl(V_, t == 0x80); fl(C_, t != 0); fl(H_, (t | a) & 8); nzs(t); M[d] = t; M[SR] = f; return; }
  IS("inc") { a++; fl(V_, a == 0x80); nzs(a); M[d] = a; M[SR] = f; return; } IS("dec") { a--; fl(V_, a == 0x7f); nzs(a); M[d] = a; M[SR] = f; return; }
  IS("lsr") { fl(C_, a & 1); a >>= 1; fl(N_, 0); fl(V_, f & C_); nzs(a); M[d] = a; M[SR] = f; return; }
  IS("asr") { fl(C_, a & 1); a = a >> 1 | (a & 0x80); fl(V_, !!(a & 0x80) != (f & C_)); nzs(a); M[d] = a; M[SR] = f; return; }
  IS("ror") { fl(C_, a & 1); a = a >> 1 | c << 7; fl(V_, !!(a & 0x80) != (f & C_)); nzs(a); M[d] = a; M[SR] = f; return; }
  IS("swap") { M[d] = a << 4 | a >> 4; return; } IS("mov") { M[d] = v; return; } IS("ldi") { M[di] = K; return; }
  IS("mul") { U16 p = a * v; M[0] = p; M[1] = p >> 8; fl(C_, p & 0x8000); fl(Z_, !p); M[SR] = f; return; }
  IS("adiw") { U16 x = w(P), y = x + K6; fl(C_, y < x); fl(V_, ~x & y & 0x8000); fl(N_, y & 0x8000); fl(Z_, !y); fl(S_, !!(f & N_) != !!(f & V_)); ww(P, y); M[SR] = f; return; }
  IS("sbiw") { U16 x = w(P), y = x - K6; fl(C_, x < K6); fl(V_, x & ~y & 0x8000); fl(N_, y & 0x8000); fl(Z_, !y); fl(S_, !!(f & N_) != !!(f & V_)); ww(P, y); M[SR] = f; return; }
  IS("bld") { M[d] = f & T_ ? a | mk : a & ~mk; return; } IS("bst") { fl(T_, a & mk); M[SR] = f; return; }
  IS("cbi") { M[A5 + 32] = M[A5 + 32] & ~mk; return; } IS("sbi") { M[A5 + 32] = M[A5 + 32] | mk; return; }
  IS("in") { M[d] = M[A6 + 32]; return; } IS("out") { M[A6 + 32] = a; return; }
  IS("brbs") { int k = o >> 3 & 127; if (k & 64) k -= 128; if (f & mk) pc += k; return; } IS("brbc") { int k = o >> 3 & 127; if (k & 64) k -= 128; if (!(f & mk)) pc += k; return; }
  IS("rjmp") { int k = o & 0xfff; if (k & 0x800) k -= 0x1000; pc += k; return; } IS("rcall") { int k = o & 0xfff; if (k & 0x800) k -= 0x1000; pushpc(); pc += k; return; }
  IS("jmp") { pc = R[pc]; return; } IS("call") { U16 t = R[pc++]; pushpc(); pc = t; return; } IS("ijmp") { pc = w(30); return; } IS("icall") { U16 t = w(30); pushpc(); pc = t; return; }
  IS("ret") { poppc(); return; } IS("reti") { poppc(); sym_assume(w(SP_) < 0x5d || w(SP_) > 0x61); M[SR] = M[SR] | I_; return; }
  IS("cpse") { skip(a == v); return; } IS("sbrc") { skip(!(a & mk)); return; } IS("sbrs") { skip(a & mk); return; } IS("sbic") { skip(!(M[A5 + 32] & mk)); return; } IS("sbis") { skip(M[A5 + 32] & mk); return; }
  IS("lds") { U16 k = R[pc++]; M[d] = M[k]; return; } IS("sts") { U16 k = R[pc++]; M[k] = a; return; }
  IS("lpm") { U16 k = w(30), x = R[k >> 1]; M[0] = k & 1 ? x >> 8 : x; return; }
  IS("pop") { stackok(1); U8 t = pop(); M[d] = t; return; } IS("push") { stackok(1); push(a); return; }
  IS("lddY") { U32 k = w(28) + q; sym_assume(k < 0x10000); M[d] = M[k]; return; } IS("lddZ") { U32 k = w(30) + q; sym_assume(k < 0x10000); M[d] = M[k]; return; }
  IS("stdY") { U32 k = w(28) + q; sym_assume(k < 0x10000); M[k] = a; return; } IS("stdZ") { U32 k = w(30) + q; sym_assume(k < 0x10000); M[k] = a; return; }
  // ld/st with X, Y, Z, post increment and pre decrement
  int i = strchr(n, 'X') ? 26 : strchr(n, 'Y') ? 28 : 30; bool inc = strchr(n, '+'), dec = strchr(n, '-'), st = n[0] == 's';
  if (inc || dec) sym_assume((d & ~1) != i);   // undefined by the manual
  U16 k = w(i); if (dec) { k--; } if (st && (inc || dec)) sym_assume(k >= 32);
  if (dec) ww(i, k);
  if (st) M[k] = a; else { U8 t = M[k]; M[d] = t; }
  if (inc) ww(i, k + 1);
}
enum { NT = sizeof T / sizeof *T };
extern "C" void sym_setup(void) {
  static struct cpu_entry none = {};
  z = (cl_avr *)mk_sim<cl_simavr>(&none, 0); z->reset();
  cl_chip8 *chip = new cl_chip8("mem", 0x10000, 8); chip->init();
  z->ram = new cl_address_space("iram", 0, 0x10000, 8); z->ram->init();
  cl_address_decoder *ad = new cl_address_decoder(z->ram, chip, 0, 0xffff, 0); ad->init(); z->ram->decoders->add(ad); ad->activate(0);
  plain(((cl_avr *)z)->rom, 0, 0xffff);
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
  M.attach(chip, "mem", 0x10000); R.attach(chip_of(((cl_avr *)z)->rom), "rom", 0x10000);
}
extern "C" long sym_ncases(void) { return NT; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "%s", T[c].n); }
extern "C" void sym_test(long c) {
  M.sym(); R.sym(); U16 o = T[c].p; if (T[c].m != 0xffff) o |= SYM16("op") & ~T[c].m;
  if (T[c].m == 0xff8f) o = sym_fork(o);
  const char *n = T[c].n;
  pc = SYM16("pc"); z->rom->set(pc, o); R[pc] = o; z->PC = z->instPC = pc; z->inst_ticks = 0;
  step(n, o);
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised"); REQ(z->PC == pc, "PC");
  sym_observe("pc", z->PC); M.same("data memory"); R.same("program memory");
}
