import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='pca-source'; prop='P15'
needs='a change of the clock source of the PCA after edges of ECI or overflows of timer 0 happened'
breaks='events that happened before their source was selected are counted when it is selected'
edits=[('src/sims/s51.src/pca.cc','''      if ((clk_source= *val & (bmCPS1|bmCPS0)) != o)
	t0_overflows= ECI_edge= 0;
''','''      clk_source= *val & (bmCPS1|bmCPS0);
      if ((clk_source ^ o) & bmCPS1 & o)
	t0_overflows= ECI_edge= 0;
''')]
demo=cmds('s51','''set mem rom 0 0x75 0x89 0x02 0x75 0x8c 0xff 0x75 0x8a 0xff 0x75 0x88 0x10 0x00 0x00 0x00 0x00 0x00 0xc2 0x8c 0x75 0xd9 0x04 0xd2 0xde 0x00 0x80 0xfd
step 21
dump sfr 0xe9 0xe9''','0b00000000', exe='ucsim_51').replace('$S -q','$S -q -t 89C51R')
