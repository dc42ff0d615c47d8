import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='st7-long-pointer'; prop='P10'
needs='a long indirect indexed operand with register Y whose base plus index carries out of the low byte'
breaks='the index is added to the low byte of the base address only'
edits=[('src/sims/st7.src/inst.cc','	    resaddr = (get2(ftc)+regs.Y);','	    resaddr = get2(ftc);\n	    resaddr = (resaddr & 0xff00) | ((resaddr+regs.Y) & 0xff);')]
demo=cmds('st7','''set memory rom 0 0x90 0xae 0x20 0x91 0xd6 0x40
set memory rom 0x40 0x12 0xf0
set memory rom 0x1310 0x5a
set memory rom 0x1210 0x33
set memory rom 0xfffe 0 0
step
step
step''','A= 0x5a')
