import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='names-middle'; prop='P18'
needs='an address with three or more names, so that the binary search can hit one in the middle'
breaks='the search stops at the name it hits instead of the first one of the address, so the listing at that address omits the names before it'
edits=[('src/core/sim.src/var.cc','''              for (l = i; l > 0 && !compare_addr((cl_var *)(key_of(Items[l-1])), mem, addr); l--);''','''              l= i;
              if (l > 0 && (l & 1) == 0 && !compare_addr((cl_var *)(key_of(Items[l-1])), mem, addr))
                l--;''')]
demo,files=cxx(r'''int main(void) { char *av[] = { (char *)"u", 0 }; cpus = cpus_z80; application = new cl_app(); application->set_name("d"); application->init(1, av);
  cl_simz80 *s = new cl_simz80(application); s->init(); cl_uc *u = s->uc; cl_var_list *v = u->vars = new cl_var_list();
  v->add("aa", u->rom, 5, -1, -1, ""); v->add("bb", u->rom, 5, -1, -1, ""); v->add("cc", u->rom, 5, -1, -1, ""); v->add("dd", u->rom, 5, -1, -1, ""); v->add("ee", u->rom, 5, -1, -1, "");
  cl_vars_iterator it(v); int n = 0; for (const cl_var *x = it.first(u->rom, 5); x; x = it.next()) n++; CHECK(n == 5);
  v->del("dd"); v->del("ee"); n = 0; for (const cl_var *x = it.first(u->rom, 5); x; x = it.next()) n++; CHECK(n == 3); return 0; }''', sim='z80', incl='#include "simz80cl.h"\n#include "varcl.h"\nextern struct cpu_entry cpus_z80[];')
