// Reference-model harness helpers: the model's memory is a second symbolic array with the same name, i.e. the same
// (arbitrary) initial contents as the simulator's memory chip; a fresh symbolic index compares every cell afterwards.
#pragma once
#include <initializer_list>
#include "uc_common.h"
template <class T> struct RefMem {
  T *m; UL n; cl_memory_chip *chip; const char *nm;
  void attach(cl_memory_chip *c, const char *name, UL size) { chip = c; nm = name; n = size; m = (T *)malloc(n * sizeof(T)); }
  void sym() { sym_chip(chip, nm); sym_array(m, n, sizeof(T), chip->width, nm); }
  T &operator[](UL a) { return m[a]; }
  UL simval(UL i) { return sizeof(T) == 1 ? ((u8_t *)chip->array)[i] : sizeof(T) == 2 ? ((u16_t *)chip->array)[i] : ((u32_t *)chip->array)[i]; }
  void same(const char *what) { char b[40]; snprintf(b, sizeof b, "any_%s", nm); UL i = sym_int(b, 32) ; sym_assume(i < n); sym_observe(b, simval(i)); REQ(simval(i) == m[i], what); }
};
static inline int par8(U8 v) { v ^= v >> 4; v ^= v >> 2; v ^= v >> 1; return !(v & 1); }   /* 1 when even parity */
