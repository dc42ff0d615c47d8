import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='acia-back-to-back'; prop='P34'
needs='two characters written back to back, and the status read after the first one was sent'
breaks='the 6850 shows a full transmitter for a whole character after the second character went to the line'
edits=[('src/core/motorola.src/cia.cc','''cl_cia::restart_send()
{
  if (ten)
    {
      s_out= s_txd;
      s_tx_written= false;
      s_sending= true;
      s_tr_bit= 0;
      show_writable(true);
''','''cl_cia::restart_send()
{
  if (ten)
    {
      s_out= s_txd;
      s_tx_written= false;
      s_sending= true;
      s_tr_bit= 0;
''')]
demo=cmds('m6800','''set mem rom 0x100 0x86 0x15 0xb7 0x80 0x00 0x86 0x41 0xb7 0x80 0x01 0x86 0x42 0xb7 0x80 0x01 0x20 0xfe
set mem rom 0x120 0xb6 0x80 0x00 0x20 0xfe
pc 0x100
step 260 clk
pc 0x120
step 1''','A= $02')
