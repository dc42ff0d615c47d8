// Harness interface (implemented by the engine: symbolically when interpreted, from a replay file when run natively)
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
unsigned long sym_int(const char *name, unsigned bits);
void sym_array(void *p, unsigned long n, unsigned elemsize, unsigned bits, const char *name);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_observe(const char *name, unsigned long v);
int sym_thorough(void);
int sym_is_symbolic(unsigned long v);
void sym_reach(const char *what);
unsigned long sym_fork(unsigned long v);     /* enumerate the feasible values of v, one path each */
void sym_print(const char *name, unsigned long v);
/* harness provides */
void sym_setup(void);
long sym_ncases(void);
void sym_casename(long c, char *buf, int n);
void sym_test(long c);
void sym_stub(const char *demangled_prefix);  /* call in sym_setup: treat matching functions as no-ops returning 0 */
#ifdef __cplusplus
}
#endif
