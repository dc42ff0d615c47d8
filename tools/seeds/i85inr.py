import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='i8085-inr'; prop='P04'
needs='INR of a value whose low digit is 0xf and whose bit 4 is set'
breaks='auxiliary carry of INR'
edits=[('src/sims/i8085.src/ialu.cc',"if ((a&0xf) == 0xf) rF|= flagA;","if ((a&0x1f) == 0xf) rF|= flagA;")]
demo=cmds('i8085','''set memory rom 0 0xaf 0x3e 0x1f 0x3c
step
step
step
info registers''','Flags= 0x10',exe='ucsim_i8085')
