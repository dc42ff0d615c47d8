import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='sif-limit'; prop='P32'
needs='a program that sets an execution limit of 2^31 instructions or more by the simulator interface'
breaks='the highest bit of the limit is lost'
edits=[('src/core/sim.src/simif.cc','''((parameters[3]&0xff)<<24)''','''((parameters[3]&0x7f)<<24)''')]
demo=cmds('z80','''set hw simif rom 0x8000
set mem rom 0 0x21 0x00 0x80 0x36 0x4c 0x36 0x01 0x36 0x02 0x36 0x03 0x36 0x84 0x00
step 6
info var sim_limit''','0x84030201')
