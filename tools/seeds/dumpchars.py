import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='dump-wide-chars'; prop='P16'
needs='a hex dump of a memory whose words are not a whole number of bytes (12, 18 bits)'
breaks='the characters column omits the highest, partial byte of each word, so it no longer lines up with the values'
edits=[('src/core/sim.src/mem.cc','''          for (int ii= 0; ii <= (width - 1) - ((width - 1) % 8); ii += 8)
            con->dd_printf("%c", (isprint((c >> ii) & 255) ? (c >> ii) & 255 : '.'));
        }''','''          for (int ii= 0; ii + 8 <= width; ii += 8)
            con->dd_printf("%c", (isprint((c >> ii) & 255) ? (c >> ii) & 255 : '.'));
        }''')]
demo=cmds('pblaze','set mem rom 0x100 0x14241 0x24443 0x34645 0x34847\ndump /h rom 0x100 0x103',['AB.CD.EF.GH.'])
