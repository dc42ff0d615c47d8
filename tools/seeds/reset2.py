import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='reset-tmod'; prop='P24'
needs='reset of an MCS-51 after TMOD was written, and a program that starts a timer without writing TMOD'
breaks='timers keep their mode over a reset although TMOD reads as zero'
edits=[('src/sims/s51.src/uc51.cc','''  sfr->write(TMOD, 0);
''','')]
demo=cmds('s51','''set mem sfr 0x89 0x22
reset
set mem sfr 0x8a 0x1f
set mem sfr 0x88 0x10
step 1
dump sfr 0x8a 0x8c''','TL0:                 0b00000000', exe='ucsim_51')
