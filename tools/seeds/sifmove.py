import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='sif-move'; prop='P32'
needs='a simulator interface that is moved to another cell, and a program that uses the old cell as plain memory'
breaks='the interface also answers at the cell where it was before'
edits=[('src/core/sim.src/simif.cc','''	  if (cell != NULL)
	    unregister_cell(cell);
	  cell= register_cell(as, address);
''','''	  if ((cell != NULL) &&
	      (cell == as->get_cell(address)))
	    unregister_cell(cell);
	  cell= register_cell(as, address);
''')]
demo=cmds('z80','''set hw simif rom 0x8000
set hw simif rom 0x9000
set mem rom 0 0x3e 0x5f 0x32 0x00 0x80 0x3a 0x00 0x80 0x76
step 3
dump regs8 0 0''','0b01011111 0x5f')
