import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='pblaze-comparecy-ff'; prop='P14'
needs='COMPARECY of a non zero value with FF while the carry is set (a multi-byte comparison)'
breaks='the operand plus carry is held in 8 bits, so FF plus carry counts as 0 and the carry (less than) is clear'
edits=[('src/sims/pblaze.src/inst.cc','''  FLAGS_SET_Z((operand1 == (operand2 + FLAGS_GET_C)) && FLAGS_GET_Z);
  FLAGS_SET_C((operand2 + FLAGS_GET_C) > operand1);''','''  u8_t limit = operand2 + FLAGS_GET_C;
  FLAGS_SET_Z((operand1 == limit) && FLAGS_GET_Z);
  FLAGS_SET_C(limit > operand1);''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", (char *)"-t", (char *)"KCPSM6", 0 }; cpus = cpus_pblaze; application = new cl_app(); application->set_name("d"); application->init(3, av);
  cl_simpblaze *s = new cl_simpblaze(application); s->init(); cl_pblaze *u = (cl_pblaze *)s->uc; u->reset(); u->rom->set(0x100, 0x1f0ff); u->sfr->set(0, 5); u->sfr->set(0x20, 3);
  u->PC = 0x100; u->exec_inst(); CHECK(u->sfr->get(0x20) & 1); CHECK(!(u->sfr->get(0x20) & 2)); return 0; }''', sim='pblaze', incl='#include "glob.h"\n#include "simpblazecl.h"\n#include "pblazecl.h"')
