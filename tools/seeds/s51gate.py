import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='s51-gate-latch'; prop='P28'
needs='GATE set and INT0 driven low by the port latch (the program writes 0 to P3.2) while the outside pin is high'
breaks='the gated timer keeps counting although the INT0 pin is low'
edits=[('src/sims/s51.src/timer0.cc',"""      INT= p3n & mask_INT;""","""      INT= ep->new_pins & mask_INT;""")]
demo=cmds('s51','''set memory rom 0 0x75 0x89 0x09 0xd2 0x8c 0xc2 0xb2 0x00 0x00 0x00 0x00 0x00 0x00
step
step
step
step
step
step
step
info hw timer[0]''','timer0[0] 0x0001', exe='ucsim_51')
