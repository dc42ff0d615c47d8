import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='pdk-subc-ac'; prop='P13'
needs='SUBC with the carry set and a subtrahend whose low digit is F'
breaks='the borrow out of the low digit is lost: AC is clear although the subtraction borrows'
edits=[('src/sims/pdk.src/inst.cc','''  if ((value & 0xF) > (initial & 0xF) - carry) f|= BIT_AC;''','''  if (((value + carry) & 0xF) > (initial & 0xF)) f|= BIT_AC;''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", (char *)"-t", (char *)"PDK14", 0 }; cpus = cpus_pdk; application = new cl_app(); application->set_name("d"); application->init(3, av);
  cl_simpdk *s = new cl_simpdk(application); s->init(); cl_pdk *u = (cl_pdk *)s->uc; u->reset(); u->rom->set(0x100, 0x0d80 | 0x10); u->ram->set(0x10, 0x2f); u->fpps[0]->rA = 0x45; u->fpps[0]->rF = 2; u->fpps[0]->PC = 0x100;
  u->PC = 0x100; u->exec_inst(); CHECK(u->fpps[0]->rA == 0x15); CHECK(u->fpps[0]->rF & 4); return 0; }''', sim='pdk', incl='#include "glob.h"\n#include "simpdkcl.h"\n#include "pdkcl.h"')
