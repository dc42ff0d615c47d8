// Shared harness code: build a simulator exactly as its main() does, expose chips as symbolic arrays.
#pragma once
#include "ddconfig.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "utils.h"
#include "globals.h"
#include "appcl.h"
#include "simcl.h"
#include "uccl.h"
#include "memcl.h"
#include "hwcl.h"
#include "itsrccl.h"
#include "argcl.h"
#include "optioncl.h"
#include "sym.h"
typedef uint8_t U8; typedef uint16_t U16; typedef uint32_t U32; typedef unsigned long UL;
#define SYM8(n) ((U8)sym_int(n, 8))
#define SYM16(n) ((U16)sym_int(n, 16))
#define SYM32(n) ((U32)sym_int(n, 32))
#define SYM1(n) ((int)sym_int(n, 1))
#define REQ(c, m) sym_assert((c) ? 1 : 0, m)

template <class SIM> static cl_uc *mk_sim(struct cpu_entry *ce, const char *type, const char *xtra = 0) {
  static char a0[] = "ucsim", a1[] = "-t"; static char tb[64], xb[64];
  char *argv[6]; int argc = 0; argv[argc++] = a0;
  if (type) { strcpy(tb, type); argv[argc++] = a1; argv[argc++] = tb; }
  if (xtra) { strcpy(xb, xtra); argv[argc++] = xb; }
  argv[argc] = 0;
  cpus = ce;
  application = new cl_app(); application->set_name("sut");
  application->init(argc, argv);
  SIM *sim = new SIM(application);
  if (sim->init()) sim->state |= SIM_QUIT;
  application->set_simulator(sim);
  return sim->uc;
}
static inline cl_memory_chip *chip_of(cl_memory *m) {
  cl_address_space *as = (cl_address_space *)m;
  if (!as->decoders || as->decoders->count == 0) return 0;
  for (int i = 0; i < as->decoders->count; i++) { cl_address_decoder *d = (cl_address_decoder *)as->decoders->at(i); if (d->memchip) return d->memchip; }
  return 0;
}
static inline int chip_esz(cl_memory_chip *c) { return c->width <= 8 ? 1 : c->width <= 16 ? 2 : 4; }
static inline void sym_chip(cl_memory_chip *c, const char *name) { sym_array(c->array, c->size, chip_esz(c), c->width, name); }
/* memory mapped peripherals detached: the cells are plain memory */
static inline void plain(cl_address_space *as, UL from, UL to) { for (UL a = from; a <= to; a++) as->cella[a - as->start_address].ops = 0; }
