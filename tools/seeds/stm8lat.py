import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='stm8-timer-latch'; prop='P35'
needs='reading the two bytes of a running 16 bit timer'
breaks='the low byte read after the high byte is of a later moment'
edits=[('src/sims/stm8.src/timer.cc','''      if (bits > 8)
	v= timer_ls_buffer;
''','''      if (bits > 8 && !(regs[idx.cr1]->get() & cen))
	v= timer_ls_buffer;
''')]
demo=cmds('stm8','''set mem rom 0x0100 0x35 0x01 0x52 0x50 0x9d 0x9d 0xc6 0x52 0x5e 0x9d 0x9d 0x9d 0x9d 0x9d 0x9d 0x9d 0x9d 0xc6 0x52 0x5f 0x20 0xfe
pc 0x0100
step 13''','A= 0x03')
