import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='reset-level0'; prop='P24'
needs='reset while a low priority interrupt is in service'
breaks='reset leaves interrupt level 0 in service, so no interrupt of that level is ever accepted again'
edits=[('src/core/sim.src/uc.cc','''  while (il &&
	 il->level >= 0)
    {
      il= (class it_level *)(it_levels->pop());''','''  while (il &&
	 il->level > 0)
    {
      il= (class it_level *)(it_levels->pop());''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", 0 }; cpus = cpus_z80; application = new cl_app(); application->set_name("d"); application->init(1, av);
  cl_simz80 *s = new cl_simz80(application); s->init(); cl_uc *u = s->uc; u->reset(); u->it_levels->push(new it_level(0, 0, 0, 0)); u->it_levels->push(new it_level(1, 0, 0, 0)); u->reset(); CHECK(((it_level *)u->it_levels->top())->level < 0); return 0; }''', sim='z80', incl='#include "simz80cl.h"\n#include "itsrccl.h"\nextern struct cpu_entry cpus_z80[];')
