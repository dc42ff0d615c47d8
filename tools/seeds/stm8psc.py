import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='stm8-timer-prescaler'; prop='P35'
needs='a prescaler above 128 on TIM2 or TIM3 of an STM8S'
breaks='the timer counts 256 times too fast'
edits=[('src/sims/stm8.src/timer.cc','''      v= (1 << (prescaler_preload & 0x0f));
''','''      v= (1 << (prescaler_preload & 0x07));
''')]
demo=cmds('stm8','''set mem rom 0x0100 0x35 0x09 0x53 0x0c 0x35 0x01 0x53 0x04 0x35 0x01 0x53 0x00 0x20 0xfe
set mem rom 0x0140 0xc6 0x53 0x0a 0xc6 0x53 0x0b 0x20 0xfe
pc 0x0100
step 700 clk
pc 0x0140
step 3''','A= 0x01')
