import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='i8048-daa-ripple'; prop='P12'
needs='DA A with an accumulator of FA..FF, carry clear (the correction of the low digit ripples out of the byte)'
breaks='the carry of the first correction is lost, so the high digit is not corrected and C stays clear'
edits=[('src/sims/i8048.src/arith.cc','''      if (rA > 0xf9) rF|= flagC;
      rA+= 6;''','''      rA+= 6;
      if (rA > 0xf9) rF|= flagC;''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", (char *)"-t", (char *)"I8050", 0 }; cpus = cpus_i8048; application = new cl_app(); application->set_name("d"); application->init(3, av);
  cl_simi8048 *s = new cl_simi8048(application); s->init(); cl_i8020 *u = (cl_i8020 *)s->uc; u->rom->set(0x100, 0x57);
  u->PC = 0x100; u->cA.set(0xfb); u->psw = 8; u->exec_inst(); CHECK(u->rA == 0x61); CHECK(u->psw & 0x80); return 0; }''', sim='i8048', incl='#include "glob.h"\n#include "simi8048cl.h"\n#include "i8048cl.h"')
