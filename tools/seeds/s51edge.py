import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='s51-int1-latch-edge'; prop='P29'
needs='INT1 edge triggered and the falling edge made by the program writing the latch of P3 while the outside pin stays high'
breaks='the edge made by the latch requests no interrupt'
edits=[('src/sims/s51.src/interrupt.cc',"""	  (p3o & bm_INT1))""","""	  (ep->pins & ~ep->new_pins & bm_INT1))""")]
demo=cmds('s51','''set memory rom 0 0x75 0xa8 0x84 0x75 0x88 0x04 0xc2 0xb3 0x00 0x00 0x00
step
step
step
step
step''','F 0x000015', exe='ucsim_51')
