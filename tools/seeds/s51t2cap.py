import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='s51-t2-capture-stop'; prop='P28'
needs='capture mode with EXEN2, a falling edge on T2EX while the timer is stopped (TR2=0)'
breaks='the external event is lost: neither RCAP2 nor EXF2 changes'
edits=[('src/sims/s51.src/timer2.cc',"""  if (EXEN2 && t2ex_edge)
    {
      cell_tcon->set(cell_tcon->get() | bmEXF2);
      cell_rcap2h->set(cell_th->get());""","""  if (EXEN2 && TR && t2ex_edge)
    {
      cell_tcon->set(cell_tcon->get() | bmEXF2);
      cell_rcap2h->set(cell_th->get());""")]
demo=cmds('s51','''set memory rom 0 0x75 0xc8 0x09 0x75 0xcc 0x34 0x00 0x00 0x00
step
step
set hardware port[1] 0xfd
step
info hw timer[2]
dump sfr 0xc8 0xc8''','capture 0x0034', exe='ucsim_51 -t 52')
