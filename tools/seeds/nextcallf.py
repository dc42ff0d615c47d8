import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='next-callf'; prop='P33'
needs='next at the indirect far call of STM8 (prefixed form)'
breaks='next steps into the subroutine called by CALLF [ptr] instead of going over it'
edits=[('src/sims/stm8.src/glob.cc','"callf [%2.e]", true }','"callf [%2.e]", false }')]
demo=cmds('stm8','set mem rom 0x100 0x92 0x8d 0x02 0 0x9d 0x9d\nset mem rom 0x200 0 0x03 0\nset mem rom 0x300 0x9d 0x87\npc 0x100\nnext\nstate','PC= 0x000104')
