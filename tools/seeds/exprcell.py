import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='expr-int-cast'; prop='P27'
needs='(int) of a memory location whose top bit is clear but second highest bit is set, or 32 bit wide'
breaks='the cast to int extends the wrong bit as sign'
edits=[('src/core/cmd.src/cmdpars.y','smask= 1U << ($4.memory->width - 1);','smask= 1U << ($4.memory->width - ($4.memory->width > 8 ? 1 : 2));')]
demo=cmds('z80','''set memory rom 5 0x7e
expr (int)rom[5]''','126')
