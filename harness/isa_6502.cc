// MOS 6502 (V=0), 65C02 (V=1), 65C02S (V=2): every documented instruction against a model of the programming manual.
// Decimal mode: valid BCD operands, result and carry (and Z, N on the CMOS parts).  BRK: instruction plus the interrupt sequence it starts.
#include "isa_common.h"
#include "glob.h"
#include "simmos6502cl.h"
#include "mos6502cl.h"
#ifndef V
#define V 0
#endif
static cl_mos6502 *z; static RefMem<U8> M;
enum { fN = 0x80, fV = 0x40, fB = 0x10, fD = 8, fI = 4, fZ = 2, fC = 1 };
static struct { U8 A, X, Y, S, P; U16 PC; } s;
static U8 undefF, brk; static int cyc; static const char *T[256];
static const char *base[] = { // opcode order, official NMOS instructions
"00BRKi","01ORA(","05ORAz","06ASLz","08PHPi","09ORA#","0aASLa","0dORAA","0eASLA","10BPLr","11ORA)","15ORAx","16ASLx","18CLCi","19ORAY","1dORAX","1eASLX",
"20JSRA","21AND(","24BITz","25ANDz","26ROLz","28PLPi","29AND#","2aROLa","2cBITA","2dANDA","2eROLA","30BMIr","31AND)","35ANDx","36ROLx","38SECi","39ANDY","3dANDX","3eROLX",
"40RTIi","41EOR(","45EORz","46LSRz","48PHAi","49EOR#","4aLSRa","4cJMPA","4dEORA","4eLSRA","50BVCr","51EOR)","55EORx","56LSRx","58CLIi","59EORY","5dEORX","5eLSRX",
"60RTSi","61ADC(","65ADCz","66RORz","68PLAi","69ADC#","6aRORa","6cJMPI","6dADCA","6eRORA","70BVSr","71ADC)","75ADCx","76RORx","78SEIi","79ADCY","7dADCX","7eRORX",
"81STA(","84STYz","85STAz","86STXz","88DEYi","8aTXAi","8cSTYA","8dSTAA","8eSTXA","90BCCr","91STA)","94STYx","95STAx","96STXy","98TYAi","99STAY","9aTXSi","9dSTAX",
"a0LDY#","a1LDA(","a2LDX#","a4LDYz","a5LDAz","a6LDXz","a8TAYi","a9LDA#","aaTAXi","acLDYA","adLDAA","aeLDXA","b0BCSr","b1LDA)","b4LDYx","b5LDAx","b6LDXy","b8CLVi","b9LDAY","baTSXi","bcLDYX","bdLDAX","beLDXY",
"c0CPY#","c1CMP(","c4CPYz","c5CMPz","c6DECz","c8INYi","c9CMP#","caDEXi","ccCPYA","cdCMPA","ceDECA","d0BNEr","d1CMP)","d5CMPx","d6DECx","d8CLDi","d9CMPY","ddCMPX","deDECX",
"e0CPX#","e1SBC(","e4CPXz","e5SBCz","e6INCz","e8INXi","e9SBC#","eaNOPi","ecCPXA","edSBCA","eeINCA","f0BEQr","f1SBC)","f5SBCx","f6INCx","f8SEDi","f9SBCY","fdSBCX","feINCX", 0 };
static const char *cmos[] = { "80BRAr","12ORAp","32ANDp","52EORp","72ADCp","92STAp","b2LDAp","d2CMPp","f2SBCp","04TSBz","0cTSBA","14TRBz","1cTRBA","34BITx","3cBITX","89BIT#","64STZz","74STZx","9cSTZA","9eSTZX",
"1aINCa","3aDECa","5aPHYi","7aPLYi","daPHXi","faPLXi","7cJMPj","02NOP#","22NOP#","42NOP#","62NOP#","82NOP#","c2NOP#","e2NOP#","44NOP#","54NOP#","d4NOP#","f4NOP#","5cNOP2","dcNOP2","fcNOP2",
"03NOPi","13NOPi","23NOPi","33NOPi","43NOPi","53NOPi","63NOPi","73NOPi","83NOPi","93NOPi","a3NOPi","b3NOPi","c3NOPi","d3NOPi","e3NOPi","f3NOPi","0bNOPi","1bNOPi","2bNOPi","3bNOPi","4bNOPi","5bNOPi","6bNOPi","7bNOPi","8bNOPi","9bNOPi","abNOPi","bbNOPi","ebNOPi","fbNOPi", 0 };
static U8 rd(U16 a) { return M[a]; } static void wr(U16 a, U8 v) { M[a] = v; }
static U8 f1() { return rd(s.PC++); } static U16 f2() { U16 v = f1(); return v | f1() << 8; }
static void push(U8 v) { wr(0x100 + s.S, v); s.S--; } static U8 pop() { s.S++; return rd(0x100 + s.S); }
static void nz(U8 v) { s.P = (s.P & ~(fN | fZ)) | (v & 0x80) | (v ? 0 : fZ); }
static void fl(U8 f, bool on) { if (on) s.P |= f; else s.P &= ~f; }
static U16 ea; static bool cross;
static U16 idx(U16 a, U8 i) { U16 r = a + i; cross = (a ^ r) & 0xff00; return r; }
static void addr(char m) { U8 b; cross = 0; switch (m) {
  case '#': ea = s.PC++; break; case 'z': ea = f1(); break; case 'x': ea = (U8)(f1() + s.X); break; case 'y': ea = (U8)(f1() + s.Y); break;
  case 'A': ea = f2(); break; case 'X': ea = idx(f2(), s.X); break; case 'Y': ea = idx(f2(), s.Y); break;
  case '(': b = f1() + s.X; ea = rd(b) | rd((U8)(b + 1)) << 8; break; case ')': b = f1(); ea = idx(rd(b) | rd((U8)(b + 1)) << 8, s.Y); break; case 'p': b = f1(); ea = rd(b) | rd((U8)(b + 1)) << 8; break;
  case 'I': { U16 p = f2(); ea = rd(p) | rd((U16)(p + 1)) << 8; break; } case 'j': { U16 p = f2() + s.X; ea = rd(p) | rd((U16)(p + 1)) << 8; break; } } }
static bool bcd(U8 v) { return (v & 15) < 10 && (v >> 4) < 10; }
static void adc(U8 b) { U8 a = s.A; int c = s.P & 1;
  if (s.P & fD) { sym_assume(bcd(a) && bcd(b)); int lo = (a & 15) + (b & 15) + c, h = (a >> 4) + (b >> 4); if (lo > 9) { lo -= 10; h++; } bool co = h > 9; if (co) h -= 10; s.A = h << 4 | lo; nz(s.A); fl(fC, co); undefF = V ? fV : fV | fN | fZ; if (V) cyc++; return; }
  int r = a + b + c; fl(fC, r > 255); fl(fV, (a ^ r) & (b ^ r) & 0x80); s.A = r; nz(s.A); }
static void sbc(U8 b) { U8 a = s.A; int c = s.P & 1;
  if (s.P & fD) { sym_assume(bcd(a) && bcd(b)); int lo = (a & 15) - (b & 15) - !c, h = (a >> 4) - (b >> 4); if (lo < 0) { lo += 10; h--; } bool co = h >= 0; if (!co) h += 10; s.A = h << 4 | lo; nz(s.A); fl(fC, co); undefF = V ? fV : fV | fN | fZ; if (V) cyc++; return; }
  int r = a - b - !c; fl(fC, r >= 0); fl(fV, (a ^ b) & (a ^ r) & 0x80); s.A = r; nz(s.A); }
static void cmp(U8 a, U8 b) { nz(a - b); fl(fC, a >= b); }
static void br(bool t) { signed char r = f1(); cyc = 2; if (t) { U16 n = s.PC + r; cyc += 1 + !!((n ^ s.PC) & 0xff00); s.PC = n; } }
#define IS(t) (!strncmp(o, t, 3))
static void step() {
  undefF = 0; brk = 0; int op = f1(); const char *o = T[op]; char m = o[3]; cyc = 2;
  if (m == 'r') { br(IS("BRA") || (IS("BPL") && !(s.P & fN)) || (IS("BMI") && (s.P & fN)) || (IS("BVC") && !(s.P & fV)) || (IS("BVS") && (s.P & fV)) || (IS("BCC") && !(s.P & fC)) || (IS("BCS") && (s.P & fC)) || (IS("BNE") && !(s.P & fZ)) || (IS("BEQ") && (s.P & fZ))); return; }
  if (IS("RMB") || IS("SMB")) { U8 a = f1(), k = 1 << ((op >> 4) & 7); wr(a, o[0] == 'R' ? rd(a) & ~k : rd(a) | k); cyc = 5; return; }
  if (IS("BBR") || IS("BBS")) { U8 v = rd(f1()); signed char r = f1(); bool b = (v >> ((op >> 4) & 7)) & 1; if (b == (o[2] == 'S')) s.PC += r; cyc = 5; return; }
  switch (m) { case 'i': case 'a': case '2': case 'A': case 'I': case 'j': default: ; }
  if (IS("JSR")) { U16 t = f2(), r = s.PC - 1; push(r >> 8); push(r); s.PC = t; cyc = 6; return; }
  if (IS("JMP")) { addr(m); s.PC = ea; cyc = m == 'A' ? 3 : m == 'I' ? (V ? 6 : 5) : 6; return; }
  if (m == 'i') {
    if (IS("BRK")) { U16 r = s.PC + 1; push(r >> 8); push(r); push(s.P | fB | 0x20); s.P |= fI; if (V) s.P &= ~fD; s.PC = rd(0xfffe) | rd(0xffff) << 8; cyc = 7; brk = 1; return; }
    if (IS("RTI")) { s.P = pop() & ~0x30; U8 l = pop(); s.PC = l | pop() << 8; cyc = 6; return; }
    if (IS("RTS")) { U8 l = pop(); s.PC = (l | pop() << 8) + 1; cyc = 6; return; }
    if (IS("PHP")) { push(s.P | 0x30); cyc = 3; return; } if (IS("PLP")) { s.P = pop() & ~0x30; cyc = 4; return; }
    if (IS("PHA")) { push(s.A); cyc = 3; return; } if (IS("PHX")) { push(s.X); cyc = 3; return; } if (IS("PHY")) { push(s.Y); cyc = 3; return; }
    if (IS("PLA")) { nz(s.A = pop()); cyc = 4; return; } if (IS("PLX")) { nz(s.X = pop()); cyc = 4; return; } if (IS("PLY")) { nz(s.Y = pop()); cyc = 4; return; }
    if (IS("CLC")) s.P &= ~fC; else if (IS("SEC")) s.P |= fC; else if (IS("CLI")) s.P &= ~fI; else if (IS("SEI")) s.P |= fI; else if (IS("CLV")) s.P &= ~fV; else if (IS("CLD")) s.P &= ~fD; else if (IS("SED")) s.P |= fD;
    else if (IS("TXA")) nz(s.A = s.X); else if (IS("TYA")) nz(s.A = s.Y); else if (IS("TAX")) nz(s.X = s.A); else if (IS("TAY")) nz(s.Y = s.A); else if (IS("TSX")) nz(s.X = s.S); else if (IS("TXS")) s.S = s.X;
    else if (IS("INX")) nz(++s.X); else if (IS("INY")) nz(++s.Y); else if (IS("DEX")) nz(--s.X); else if (IS("DEY")) nz(--s.Y);
    return; }
  if (IS("NOP")) { f1(); if (m == '2') f1(); return; }
  if (m != 'a') addr(m); cyc = m == '#' ? 2 : m == 'z' ? 3 : m == '(' ? 6 : m == ')' || m == 'p' ? 5 : 4;
  if (o[0] == 'S' && o[1] == 'T') { wr(ea, IS("STA") ? s.A : IS("STX") ? s.X : IS("STY") ? s.Y : 0); if (m == 'X' || m == 'Y' || m == ')') cyc++; return; }
  U8 v = m == 'a' ? s.A : rd(ea), r; bool rmw = true;
  if (IS("INC")) nz(r = v + 1); else if (IS("DEC")) nz(r = v - 1); else if (IS("ASL")) { fl(fC, v & 0x80); nz(r = v << 1); } else if (IS("LSR")) { fl(fC, v & 1); nz(r = v >> 1); }
  else if (IS("ROL")) { r = v << 1 | (s.P & 1); fl(fC, v & 0x80); nz(r); } else if (IS("ROR")) { r = v >> 1 | (s.P & 1) << 7; fl(fC, v & 1); nz(r); }
  else if (IS("TSB")) { fl(fZ, !(v & s.A)); r = v | s.A; } else if (IS("TRB")) { fl(fZ, !(v & s.A)); r = v & ~s.A; } else rmw = false;
  if (rmw) { if (m == 'a') { s.A = r; cyc = 2; } else { wr(ea, r); cyc += 2; if (m == 'X') { cyc++; if (V && !IS("INC") && !IS("DEC")) cyc -= !cross; } } return; }
  if (cross) cyc++;
  if (IS("LDA")) nz(s.A = v); else if (IS("LDX")) nz(s.X = v); else if (IS("LDY")) nz(s.Y = v); else if (IS("AND")) nz(s.A &= v); else if (IS("ORA")) nz(s.A |= v); else if (IS("EOR")) nz(s.A ^= v);
  else if (IS("CMP")) cmp(s.A, v); else if (IS("CPX")) cmp(s.X, v); else if (IS("CPY")) cmp(s.Y, v); else if (IS("ADC")) adc(v); else if (IS("SBC")) sbc(v);
  else if (IS("BIT")) { fl(fZ, !(s.A & v)); if (m != '#') { fl(fN, v & 0x80); fl(fV, v & 0x40); } }
}
static int ops[256], n;
static void tab(const char **t) { for (; *t; t++) { int c; sscanf(*t, "%2x", &c); T[c] = *t + 2; } }
extern "C" void sym_setup(void) {
  z = (cl_mos6502 *)mk_sim<cl_simmos6502>(cpus_mos6502, V == 0 ? "6502" : V == 1 ? "65C02" : "65C02S"); z->reset();
  sym_stub("cl_memory::err_inv_addr"); sym_stub("cl_commander_base::debug");
  M.attach(chip_of(z->rom), "mem", 0x10000);
  tab(base); if (V) tab(cmos);
  if (V == 2) for (int i = 0; i < 16; i++) { T[i << 4 | 7] = i < 8 ? "RMBz" : "SMBz"; T[i << 4 | 15] = i < 8 ? "BBRb" : "BBSb"; }
  if (V == 1) for (int i = 0; i < 16; i++) T[i << 4 | 7] = T[i << 4 | 15] = "NOPi";
  for (int o = 0; o < 256; o++) if (T[o]) ops[n++] = o;
}
extern "C" long sym_ncases(void) { return n; }
extern "C" void sym_casename(long c, char *b, int k) { snprintf(b, k, "op_%02x_%s", ops[c], T[ops[c]]); }
extern "C" void sym_test(long c) {
  M.sym(); int o = ops[c];
  U16 pc = SYM16("pc"); z->rom->set(pc, o); M[pc] = o;
  s.A = SYM8("a"); s.X = SYM8("x"); s.Y = SYM8("y"); s.S = SYM8("s"); s.P = SYM8("p") & ~0x30; s.PC = pc;
  z->PC = z->instPC = pc; z->A = s.A; z->X = s.X; z->Y = s.Y; z->SP = s.S; z->CC = s.P; z->inst_ticks = 0;
  if (V == 0 && o == 0x6c) sym_assume(M[(U16)(pc + 1)] != 0xff);   /* the NMOS page end bug of JMP (ind) is outside the model */
  step();
  int res = z->exec_inst(); REQ(res == resGO, "instruction recognised");
  if (brk) z->do_interrupt();
  REQ(z->PC == s.PC, "PC"); REQ(z->SP == s.S, "S"); REQ(z->A == s.A, "A"); REQ(z->X == s.X, "X"); REQ(z->Y == s.Y, "Y");

  U8 f = (z->CC ^ s.P) & ~undefF; REQ(!(f & fN), "flag N"); REQ(!(f & fV), "flag V"); REQ(!(f & fD), "flag D"); REQ(!(f & fI), "flag I"); REQ(!(f & fZ), "flag Z"); REQ(!(f & fC), "flag C"); REQ(!(z->CC & 0x30), "no B flag in the register");
  if (V == 0) REQ((int)z->inst_ticks == cyc, "clock cycles");
  sym_observe("pc", z->PC); sym_observe("a", z->A); sym_observe("p", z->CC); sym_observe("s", z->SP);
  M.same("memory");
}
