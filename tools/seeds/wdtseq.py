import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='wdt-sequence'; prop='P15'
needs='a write of E1 to WDTRST after some other value than 1E'
breaks='the watchdog is served (and started) by writing E1 alone, so a runaway program that writes E1 repeatedly is never stopped'
edits=[('src/sims/s51.src/wdt.cc','''      (wdtrst->get() == 0x1e) &&
''','')]
demo=cmds('s51','''set mem rom 0 0x75 0xa6 0x21 0x75 0xa6 0xe1 0x80 0xfe
step 3
info hw wdt''','wdt[0] OFF', exe='ucsim_51').replace('$S -q','$S -q -t 89C51R')
