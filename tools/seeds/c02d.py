import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='65c02-irq-stacks-d'; prop='P30'
needs='an interrupt on the 65C02 while the D flag is set, and the return from it'
breaks='D is cleared before the status is stacked, so the interrupted program goes on in binary mode'
edits=[('src/sims/mos6502.src/mos65c02.cc','''  push_addr(PC);
  rom->write(0x0100 + rSP, rF|0x20);
  if (set_b)
    rF&= ~flagB;
  // All interrupts (incl BRK) clear D flag
  rF&= ~flagD;
''','''  push_addr(PC);
  // All interrupts (incl BRK) clear D flag
  rF&= ~flagD;
  rom->write(0x0100 + rSP, rF|0x20);
  if (set_b)
    rF&= ~flagB;
''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", (char *)"-t", (char *)"65C02", 0 }; cpus = cpus_mos6502; application = new cl_app(); application->set_name("d"); application->init(3, av);
  cl_simmos6502 *s = new cl_simmos6502(application); s->init(); cl_mos6502 *u = (cl_mos6502 *)s->uc; u->rom->set(0x300, 0x00); u->rom->set(0xfffe, 0x00); u->rom->set(0xffff, 0x04); u->rom->set(0x400, 0x40);
  u->PC = 0x300; u->SP = 0xff; u->CC = 0x08; u->do_inst(); CHECK(u->PC == 0x400); u->do_inst(); CHECK(u->PC == 0x302); CHECK(u->CC & 8); return 0; }''', sim='mos6502', incl='#include "glob.h"\n#include "simmos6502cl.h"\n#include "mos6502cl.h"')
