import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='s51-da'; prop='P02'
needs='DA A where adding 6 to the low digit carries out of the byte (A from 0xfa with AC or a large digit)'
breaks='the carry of the low digit correction is lost, so the high digit is not corrected and C stays clear'
edits=[('src/sims/s51.src/arith.cc',"""      if (((uint)ac+(uint)0x06) > 255)
	pw|= bmCY;
      ac+= 0x06;""","""      ac+= 0x06;""")]
demo=cmds('s51','''set memory rom 0 0x74 0xfb 0xd4
step
step
info registers''','ACC= 0x61', exe='ucsim_51')
