import sys, os; sys.path.insert(0, '/verif/tools/seeds'); exec(open('/verif/tools/seeds/uartrx.py').read())
id='uart-line-skip'; prop='P31'
needs='an input with a CR, another character, and an LF, or the other way round'
breaks='an end of line in the input is lost if the previous end of line was of the other kind'
edits=[('src/core/sim.src/serial_hw.cc','''		  cfg_set(serconf_able_receive, 0);
		  skip_nl= 0;
''','''		  cfg_set(serconf_able_receive, 0);
''')]
demo,files=cxx(code0+r'''  r->write(SCON, 0x10); f->q[0] = 13; f->q[1] = 'a'; f->q[2] = 10; f->q[3] = 'b'; f->qn = 4; int n = 0; char o[9];
  for (int i = 0; i < 500; i++) { if (f->qi < f->qn) p->proc_input(); u->tick_hw(1); if (r->read(SCON) & 1) { o[n++] = r->read(SBUF); u->address_space("bits")->write(SCON, 0); } } CHECK(n == 4 && o[0] == 10 && o[1] == 'a' && o[2] == 10 && o[3] == 'b'); return 0; }''', sim='s51', incl=inc)
demo=demo.replace('/ss51.o','/s51.o')
