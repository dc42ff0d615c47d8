import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='m6502-adcv'; prop='P03'
needs='ADC in binary mode with carry set and operand 0x7f (or 0xff)'
breaks='overflow flag of ADC is computed from operand plus carry'
edits=[('src/sims/mos6502.src/ialu.cc',"if ( ((res^oA)&0x80) && !((oA^Op)&0x80) ) f|= flagV;","if ( ((res^oA)&0x80) && !((oA^(Op+C))&0x80) ) f|= flagV;")]
demo=cmds('mos6502','''set memory rom 0x200 0x38 0xa9 0x01 0x69 0x7f
pc 0x200
step
step
step
info registers''','P= 11000100',exe='ucsim_mos6502')
