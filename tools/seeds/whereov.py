import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='where-overlap'; prop='P17'
needs='a pattern that occurs twice with the second occurrence overlapping the first (aa in aaa)'
breaks='the search goes on behind the match, so overlapping occurrences are not shown'
edits=[('src/core/cmd.src/cmd_uc.cc','''	addr++;
	found= mem->search_next''','''	addr+= len;
	found= mem->search_next''')]
demo=cmds('z80','fill rom 0 0xffff 0\nset mem rom 0x100 0x41 0x41 0x41\nWhere rom 0x41 0x41',['0x0101 41 41'])
