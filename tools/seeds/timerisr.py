import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='timer-isr-low'; prop='P19'
needs='execution of an interrupt service routine of the lowest priority level'
breaks='clocks spent in interrupt service routines of level 0 are not counted by the timers that count interrupt time'
edits=[('src/core/sim.src/uc.cc','''(il->level >= 0 && (t->get_type() == TICK_INISR))''','''(il->level > 0 && (t->get_type() == TICK_INISR))''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", 0 }; cpus = cpus_z80; application = new cl_app(); application->set_name("d"); application->init(1, av);
  cl_simz80 *s = new cl_simz80(application); s->init(); cl_uc *u = s->uc; unsigned long a = u->isr_ticks->get_ticks(); u->it_levels->push(new it_level(0, 0, 0, 0)); u->tick(5); CHECK(u->isr_ticks->get_ticks() == a + 5 * u->clock_per_cycle()); return 0; }''', sim='z80', incl='#include "simz80cl.h"\n#include "itsrccl.h"\nextern struct cpu_entry cpus_z80[];')
