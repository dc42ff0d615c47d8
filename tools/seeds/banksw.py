import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='bank-switchto'; prop='P22'
needs='an explicit switch to a bank, followed by selecting through the register the bank that was in effect before'
breaks='the banker forgets the explicit switch, so selecting the earlier bank again leaves the other one decoded'
edits=[('src/core/sim.src/mem.cc',"""      c= address_space->get_cell(as_begin+i);
      c->decode(data);
    }
  bank= b;

  return true;
}

bool
cl_banker::uses_chip""","""      c= address_space->get_cell(as_begin+i);
      c->decode(data);
    }

  return true;
}

bool
cl_banker::uses_chip""")]
demo, files = cxx('''
int main() { application= new cl_app();
  cl_memory_chip *c= new cl_chip8("c", 16, 8, 0), *rg= new cl_chip8("r", 4, 8, 0); c->init(); rg->init();
  cl_address_space *as= new cl_address_space("as", 0, 4, 8), *rs= new cl_address_space("rs", 0, 4, 8); as->init(); rs->init();
  cl_address_decoder *d= new cl_address_decoder(rs, rg, 0, 3, 0); d->init(); rs->decoders->add(d); d->activate(0);
  cl_banker *b= new cl_banker(rs, 0, 3, as, 0, 3); b->init(); as->decoders->add(b);
  b->add_bank(0, c, 0); b->add_bank(1, c, 8); b->activate(0);
  c->set(1, 0x11); c->set(9, 0x99); CHECK(as->get(1) == 0x11);
  b->switch_to(1, 0); CHECK(as->get(1) == 0x99);
  rs->write(0, 0); CHECK(as->get(1) == 0x11);
  puts("ok"); return 0; }
''')
