import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='m6809-rti-entire'; prop='P06'
needs='RTI while the E flag of the running program differs from the E flag in the stacked CC (return from a fast interrupt that set E)'
breaks='RTI decides from the current E flag, not from the stacked one, whether the whole state is on the stack'
edits=[('src/sims/m6809.src/m6809.cc','''  u8_t l,h;
  if(do_cc)
    {''','''  u8_t l,h,e= reg.CC & flagE;
  if(do_cc)
    {'''),('src/sims/m6809.src/m6809.cc','''  if (reg.CC & flagE)
    {
      A= rom->read''','''  if (e)
    {
      A= rom->read''')]
demo=cmds('m6809','''set mem rom 0x100 0x1a 0x80 0x10 0xce 0x02 0x00 0x3b
set mem rom 0x200 0x00 0x12 0x34 0x56 0x78 0x9a
pc 0x100
step
step
step''',['Stop at 0x001234'])
