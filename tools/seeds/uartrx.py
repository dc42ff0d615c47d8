import sys, os; sys.path.insert(0, '/verif/tools/seeds'); from common import *
id='uart-rx-idle'; prop='P31'
needs='a character that arrives in mode 1 or 3 after the receiver was idle while the timer was running'
breaks='the timer overflows counted while the receiver was idle shorten the first character received'
edits=[('src/sims/s51.src/serial.cc','''s_rec_tick= s_rec_t1= 0;''','''s_rec_tick= 0;''')]
code0=r'''class F : public cl_f { public: int q[9], qn, qi; char t[99]; int n; F() : cl_f() { qn = qi = n = 0; tty = false; } enum file_type determine_type(void) { return F_FILE; } bool writable(void) { return true; } int check_dev(void) { return 0; } bool eof(void) { return false; }
  int input_avail(void) { return qi < qn; } int read(int *b, int k) { if (qi >= qn) return 0; *b = q[qi++]; return 1; } int write(const char *b, int k) { for (int i = 0; i < k; i++) t[n++] = b[i]; return k; } };
int main(void) { char *av[] = { (char *)"u", 0 }; cpus = cpus_51; application = new cl_app(); application->set_name("d"); application->init(1, av);
  cl_sim51 *s = new cl_sim51(application); s->init(); cl_uc *u = s->uc; u->reset(); cl_serial *p = 0; for (int i = 0; i < u->hws->count; i++) { cl_hw *h = (cl_hw *)u->hws->at(i); if (h->category == HW_UART) p = (cl_serial *)h; }
  F *f = new F(); p->io->fin = p->io->fout = f; cl_address_space *r = u->address_space("sfr");
'''
inc='#include "sim51cl.h"\n#include "serialcl.h"\n#include "fiocl.h"\n#include "regs51.h"\nextern struct cpu_entry cpus_51[];'
demo,files=cxx(code0+r'''  r->write(TMOD, 0x20); r->write(TH1, 0xff); r->write(TL1, 0xff); r->write(TCON, 0x40); r->write(SCON, 0x50);
  for (int i = 0; i < 2000; i++) u->tick_hw(1); f->q[0] = 'a'; f->qn = 1; p->proc_input(); for (int i = 0; i < 250; i++) u->tick_hw(1); CHECK(!(r->read(SCON) & 1)); for (int i = 0; i < 100; i++) u->tick_hw(1); CHECK((r->read(SCON) & 1) && r->read(SBUF) == 'a'); return 0; }''', sim='s51', incl=inc)
demo=demo.replace('/ss51.o','/s51.o')
