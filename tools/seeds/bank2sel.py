import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='bank-second-selector'; prop='P22'
needs='a banker with a second selector register whose mask does not start at bit 0'
breaks='the bits of the second selector are extracted with the mask applied after the shift'
edits=[('src/core/sim.src/mem.cc',"""      v2= banker2_as->read(banker2_addr) & banker2_mask;
      v2>>= shift2_by;""","""      v2= banker2_as->read(banker2_addr) >> shift2_by;
      v2&= banker2_mask;""")]
demo, files = cxx('''
int main() { application= new cl_app();
  cl_memory_chip *c= new cl_chip8("c", 16, 8, 0), *rg= new cl_chip8("r", 4, 8, 0); c->init(); rg->init();
  cl_address_space *as= new cl_address_space("as", 0, 4, 8), *rs= new cl_address_space("rs", 0, 4, 8); as->init(); rs->init();
  cl_address_decoder *d= new cl_address_decoder(rs, rg, 0, 3, 0); d->init(); rs->decoders->add(d); d->activate(0);
  cl_banker *b= new cl_banker(rs, 0, 1, rs, 1, 0x10, 1, as, 0, 3); b->init(); as->decoders->add(b);
  for (int i= 0; i < 4; i++) b->add_bank(i, c, i*4);
  b->activate(0);
  for (int i= 0; i < 16; i++) c->set(i, i);
  CHECK(as->get(1) == 1); rs->write(0, 1); CHECK(as->get(1) == 5); rs->write(1, 0x10); CHECK(as->get(1) == 13); rs->write(0, 0); CHECK(as->get(1) == 9);
  puts("ok"); return 0; }
''')
