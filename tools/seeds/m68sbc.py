import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='m6800-sbc-borrow'; prop='P05'
needs='SBC (or ROM of the 6801/68HC11) with the carry set and equal operands: the borrow comes only from the carry'
breaks='SBC computes the carry out from the two operands alone, so a borrow caused by the carry in is lost'
edits=[('src/core/motorola.src/ialu68.cc','''  if ((a7&nb7&nr7) | (na7&b7&r7)) f|= flagV;
  if ((na7&b7) | (b7&r7) | (r7&na7)) f|= flagC;
  dest.W(r);''','''  if ((a7&nb7&nr7) | (na7&b7&r7)) f|= flagV;
  if (b > a) f|= flagC;
  dest.W(r);''')]
demo=cmds('m6800','''set mem rom 0x100 0x0d 0x86 0x55 0x82 0x55 0x07 0xb7 0x02 0x00 0x20 0xfe
pc 0x100
step
step
step
step
step
dump rom 0x200 0x203''','0x0200    c9')
