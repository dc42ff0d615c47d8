import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='brk-hit-rearm'; prop='P25'
needs='an event breakpoint with a hit count above one that is hit again after it triggered'
breaks='after the first trigger the breakpoint reports every access instead of every n-th'
edits=[('src/core/sim.src/brk.cc',"""  if (cnt <= 0)
    {
      cnt= hit;
      if""","""  if (cnt <= 0)
    {
      cnt= (perm == brkFIX)?1:hit;
      if""")]
demo, files = cxx('''
int main() { application= new cl_app();
  cl_address_space *c= new cl_address_space("as", 0, 16, 8); c->init();
  cl_ev_brk *b= new cl_ev_brk(c, 1, 3, brkFIX, 2, brkWRITE, "w"); b->init();
  int n= 0; for (int i= 0; i < 6; i++) n+= b->do_hit()?1:0;
  CHECK(n == 3); puts("ok"); return 0; }
''')
