import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='step-amount'; prop='P33'
needs='step with a unit, where the amount ends exactly at the end of an instruction'
breaks='step N unit executes one instruction more than asked when the amount is reached exactly'
edits=[('src/core/sim.src/uc.cc','    (now() >= to_reach);','    (now() > to_reach);')]
demo=cmds('z80','set mem rom 0 0 0 0 0 0 0\npc 0\nstep 8 clk\nstate','PC= 0x000002')
