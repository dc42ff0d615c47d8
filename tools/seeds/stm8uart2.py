import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='stm8-uart-tc'; prop='P36'
needs='a character written while the previous one is sent, and TC watched'
breaks='transmission complete is reported after the first of two characters'
edits=[('src/sims/stm8.src/serial.cc','''	  if (s_tx_written)
	    restart_send();
	  else
	    finish_send();
''','''	  if (s_tx_written)
	    restart_send();
	  finish_send();
''')]
demo=cmds('stm8','''set mem rom 0x0100 0x35 0x01 0x52 0x32 0x35 0x08 0x52 0x35 0xc6 0x52 0x30 0x35 0x41 0x52 0x31 0xc6 0x52 0x30 0x35 0x42 0x52 0x31 0x4f 0x20 0xfe
set mem rom 0x0140 0xc6 0x52 0x30 0x20 0xfe
pc 0x0100
step 250 clk
pc 0x0140
step 1''','A= 0x80')
