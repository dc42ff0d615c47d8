import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='m6809-pcr-length'; prop='P23'
needs='disassembly of a 6809 instruction with 16 bit offset from the program counter'
breaks='the instruction is listed one byte too short, the next line starts inside of it, step over stops at a wrong place'
edits=[('src/sims/m6809.src/m6809.cc','''      if (il==8||il==12)
	return 3;
      if (il==9||il==13||il==15)
	return 4;''','''      if (il==8||il==12||il==13)
	return 3;
      if (il==9||il==15)
	return 4;''')]
demo=cmds('m6809','''set memory rom 0x100 0xa6 0x8d 0x10 0x20 0x12 0x12
dc 0x100 0x105
''',['0x0104'],exe='ucsim_m6809')
