import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='avr-ldd-carry'; prop='P08'
needs='LDD Rd,Z+q where the low byte of Z plus the displacement passes 0xff'
breaks='the displacement is added to the low byte of Z only'
edits=[('src/sims/avr.src/move_inst.cc','''  t_mem data= ram->read(z+q);''','''  z= (z & ~0xff) | ((z+q) & 0xff);
  t_mem data= ram->read(z);''')]
demo=cmds('avr','''memory create chip ext 0x10000 8
memory create addressdecoder iram 0x80 0xffff ext 0
set mem iram 0x20f 0x5a
set mem iram 0x10f 0x11
set mem iram 30 0xf0 0x01
set mem rom 0x100 0x8d07
pc 0x100
step
dump iram 16 16''',['0x0010                 5a Z'])
