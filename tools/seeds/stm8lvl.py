import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='stm8-irq-level2'; prop='P30'
needs='an interrupt of software priority 2 that interrupts a service of priority 1'
breaks='I0 of the interrupted service stays set, so the handler runs at level 1 and is interrupted by requests of its own level'
edits=[('src/sims/stm8.src/stm8.cc','''    { FLAG_CLEAR(BIT_I1) FLAG_CLEAR(BIT_I0) }
  else // 3''','''    { FLAG_CLEAR(BIT_I1) }
  else // 3''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", (char *)"-t", (char *)"STM8S", 0 }; cpus = cpus_stm8; application = new cl_app(); application->set_name("d"); application->init(3, av);
  cl_simstm8 *s = new cl_simstm8(application); s->init(); cl_stm8 *u = (cl_stm8 *)s->uc; u->reset(); cl_it_src *i = (cl_it_src *)u->it_sources->at(0);
  u->regs.SP = 0x3f0; u->regs.CC = 8; u->PC = 0x9000; u->accept_it(new it_level(2, 0x9100, 0x9000, i)); CHECK(u->PC == 0x9100); CHECK(!(u->regs.CC & 0x28)); return 0; }''', sim='stm8', incl='#include "glob.h"\n#include "simstm8cl.h"\n#include "stm8cl.h"\n#include "itsrccl.h"')
