import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='stm8-ptr-x-wrap'; prop='P07'
needs='an access through a short pointer indexed by X whose pointer plus X passes 0xffff'
breaks='the effective address of ([shortptr.w],X) is cut to 16 bits'
edits=[('src/sims/stm8.src/inst.cc','''      } else if ( 0x92 == prefix) {    // short pointer to offset with X reg
         ftc = fetch();
         return get2(ftc)+regs.X;''','''      } else if ( 0x92 == prefix) {    // short pointer to offset with X reg
         ftc = fetch();
         return (u16_t)(get2(ftc)+regs.X);''')]
demo=cmds('stm8','''set mem rom 0x10 0xf0 0x00
set mem flash_chip 0x9000 0x5a
set mem rom 0x100 0xae 0x20 0x00 0x92 0xd6 0x10 0xc7 0x02 0x00
pc 0x100
step
step
step
dump rom 0x200 0x200''',['0x00200    5a'])
