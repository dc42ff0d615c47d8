import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='hc08-div-255'; prop='P09'
needs='DIV with a quotient of exactly 255'
breaks='DIV reports an overflow and keeps A and H although the quotient 255 fits'
edits=[('src/sims/m68hc08.src/inst.cc','    if (quotient<=0xff) {','    if (quotient<0xff) {')]
demo=cmds('m68hc08','''set memory rom 0 0x45 0x02 0x03 0xa6 0xfd 0x52 0x87
set memory rom 0xfffe 0 0
reset
step
step
step
step
step''',['A= $ff 255','H= $00'])
