import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='gb80-swap-carry'; prop='P11'
needs='GB80: SWAP of an operand that is zero with carry set before'
breaks='SWAP keeps the carry flag when the result is zero'
edits=[('src/sims/z80.src/inst_gb80.cc','  regs.raf.F = (result)?0:BIT_Z;','  regs.raf.F = (result)?0:(BIT_Z|(regs.raf.F&BIT_C));')]
demo=cmds('z80','''set memory rom 0 0x37 0x3e 0x00 0xcb 0x37 0xf5 0x00
set memory rom 7 0x00
reset
step
step
step
''',['Flags= 0x80'],exe='ucsim_z80 -t GB80')
