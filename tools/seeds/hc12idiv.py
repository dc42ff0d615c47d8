import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='hc12-idiv-zero'; prop='P23'
needs='HC12: IDIV of zero by zero'
breaks='the simulator process is killed by a division trap'
edits=[('src/sims/m68hc12.src/ialu.cc','''  u8_t f= rF&~(flagZ|flagV|flagC);
  if (rX == 0)
    {
      cX.W(0xffff);
      f|= flagC;
    }
  else
    {
      u16_t q, r;
      q= rD/rX;''','''  u8_t f= rF&~(flagZ|flagV|flagC);
  if (rX == 0 && rD != 0)
    {
      cX.W(0xffff);
      f|= flagC;
    }
  else
    {
      u16_t q, r;
      q= rD/rX;''')]
demo=cmds('m68hc12','''set memory rom 0x100 0xce 0 0 0xcc 0 0 0x18 0x10 0xa7
pc 0x100
step
step
step
step
pc
''',['0x000109'],exe='ucsim_m68hc12')
