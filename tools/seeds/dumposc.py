import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='dump-octal-width'; prop='P16'
needs='a string dump of a control character below octal 100 that is followed by a digit'
breaks='the octal escape has as few digits as it needs, so the following digit becomes part of it and the text no longer means the bytes of the memory'
edits=[('src/core/sim.src/mem.cc','"\\\\%03o", i','"\\\\%o", i')]
demo=cmds('z80','set mem rom 0x100 0x41 0x01 0x37 0x42 0\ndump /s rom 0x100',['A\\0017B'])
