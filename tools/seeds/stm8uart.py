import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='stm8-uart-gate'; prop='P36'
needs='writing a clock gate register of the STM8L that does not hold the gate of USART3'
breaks='USART3 of big STM8L devices follows the clock gate of USART2'
edits=[('src/sims/stm8.src/clk.cc','''      return pckenr3 && (pckenr3->get() & 0x10);
''','''      return pckenr3 && (pckenr3->get() & 0x18);
''')]
demo=cmds('stm8','''set mem rom 0x0100 0x35 0x08 0x50 0xd0 0x35 0x01 0x53 0xf2 0x35 0x08 0x53 0xf5 0xc6 0x53 0xf0 0x35 0x41 0x53 0xf1 0x20 0xfe
set mem rom 0x0140 0xc6 0x53 0xf0 0x20 0xfe
pc 0x0100
step 400 clk
pc 0x0140
step 1''','A= 0x80', None, 'ucsim_stm8 -t STM8L162')
