import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='pia-ddr-read'; prop='P34'
needs='a flag of a control line is set while the data direction register is selected, and that register is read'
breaks='reading the data direction register of the 6821 clears the interrupt flags and can lose an edge'
edits=[('src/core/motorola.src/pia.cc','''      if (r == ora)
	{
	  cra->set''','''      if (cell == rs[0])
	cra->set(cra->get() & 0x3f);
      if (r == ora)
	{
	  cra->set''')]
demo=cmds('m6800','''set mem rom 0x100 0xb6 0x80 0x10 0xb6 0x80 0x11 0x20 0xfe
expr pia0_reqs=12
pc 0x100
step 2''','A= $c0')
