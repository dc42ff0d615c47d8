import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='mem-romset'; prop='P20'
needs='a read only location of a one bit wide memory that is set'
breaks='read only bits change when they are set'
edits=[('src/core/sim.src/mem.cc',"""  if (flags & CELL_READ_ONLY)
    return d();
  if (width == 1)
    d(val);
  else
    d(val & mask);
  return d();
}

t_mem
cl_memory_cell::download""","""  if (width == 1)
    return d(val), d();
  if (flags & CELL_READ_ONLY)
    return d();
  d(val & mask);
  return d();
}

t_mem
cl_memory_cell::download""")]
demo, files = cxx('''
int main() { application= new cl_app();
  cl_memory_chip *c= new cl_chip8("c", 16, 1, 0); c->init();
  cl_address_space *as= new cl_address_space("as", 0, 16, 1); as->init();
  cl_address_decoder *d= new cl_address_decoder(as, c, 0, 15, 0); d->init(); as->decoders->add(d); d->activate(0);
  as->set(3, 1); CHECK(as->get(3) == 1); as->set_cell_flag(3, true, CELL_READ_ONLY);
  as->set(3, 0); CHECK(as->get(3) == 1); as->write(3, 0); CHECK(as->get(3) == 1);
  puts("ok"); return 0; }
''')
