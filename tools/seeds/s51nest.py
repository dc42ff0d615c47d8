import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='s51-irq-nest'; prop='P29'
needs='a second enabled request of the same priority level while an interrupt service is in progress'
breaks='the service is interrupted by a request of its own level'
edits=[('src/sims/s51.src/uc51.cc',"""	      pr <= il->level)""","""	      pr < il->level)""")]
demo=cmds('s51','''set memory rom 0 0x75 0xa8 0x8a 0x75 0x88 0xa0 0x00 0x00 0x00
step
step
step
step
step''','F 0x00000d', exe='ucsim_51')
