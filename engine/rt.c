// Runtime linked into every encoded program: arena allocator with a block table (so that the engine can check
// bounds) and a small C library (so that string/number handling is encoded, not assumed).
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
typedef unsigned long ul;
extern void *mmap(void *, size_t, int, int, int, long);
#define ARENA ((char *)0x600000000000UL)
#define ARENA_SZ (16UL << 30)
struct vrt_blk { ul start, size; };
struct vrt_blk *vrt_blocks = (struct vrt_blk *)0x5f0000000000UL;
ul vrt_nblocks = 0; static ul vrt_top = 0; static int vrt_inited = 0;
static void vrt_init(void) {
  vrt_inited = 1;
  mmap(vrt_blocks, 1UL << 30, 3, 0x4000 | 0x22 | 0x10, -1, 0);
  mmap(ARENA, ARENA_SZ, 3, 0x4000 | 0x22 | 0x10, -1, 0);
  vrt_top = (ul)ARENA + 64;
}
extern void *vrt_malloc(size_t n); extern void vrt_free(void *p);
__attribute__((noinline)) void *vrt_malloc(size_t n) {
  if (!vrt_inited) vrt_init();
  ul a = vrt_top; ul *h = (ul *)a; h[0] = vrt_nblocks; h[1] = n;
  a += 32; vrt_top = (a + n + 32 + 15) & ~15UL;
  vrt_blocks[vrt_nblocks].start = a; vrt_blocks[vrt_nblocks].size = n; vrt_nblocks++;
  return (void *)a;
}
static ul vrt_size(void *p) { return ((ul *)((ul)p - 32))[1]; }
__attribute__((noinline)) void vrt_free(void *p) { if (!p) return; ul ix = ((ul *)((ul)p - 32))[0]; if (ix < vrt_nblocks && vrt_blocks[ix].start == (ul)p) vrt_blocks[ix].size |= 1UL << 63; }
__attribute__((noinline)) ul vrt_blocksize(void *p) { return vrt_size(p); }   /* intercepted by the engine */
void *vrt_calloc(size_t a, size_t b) { char *p = vrt_malloc(a * b); __builtin_memset(p, 0, a * b); return p; }
void *vrt_realloc(void *p, size_t n) { if (!p) return vrt_malloc(n); char *q = vrt_malloc(n); ul o = vrt_blocksize(p); __builtin_memcpy(q, p, o < n ? o : n); vrt_free(p); return q; }
int vrt_poison;   /* set by a harness: objects start with garbage, not zeros */
void *vrt__Znwm(size_t n) { void *p = vrt_malloc(n); if (vrt_poison) __builtin_memset(p, 0xa5, n); return p; }
void *vrt__Znam(size_t n) { return vrt_malloc(n); }
void vrt__ZdlPv(void *p) { vrt_free(p); } void vrt__ZdaPv(void *p) { vrt_free(p); }
void vrt__ZdlPvm(void *p, size_t n) { vrt_free(p); } void vrt__ZdaPvm(void *p, size_t n) { vrt_free(p); }

size_t vrt_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t vrt_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *vrt_strdup(const char *s) { size_t n = vrt_strlen(s) + 1; char *p = vrt_malloc(n); __builtin_memcpy(p, s, n); return p; }
int vrt_strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int vrt_strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int vrt_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int vrt_toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int vrt_strcasecmp(const char *a, const char *b) { while (*a && vrt_tolower((unsigned char)*a) == vrt_tolower((unsigned char)*b)) a++, b++; return vrt_tolower((unsigned char)*a) - vrt_tolower((unsigned char)*b); }
int vrt_strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = vrt_tolower((unsigned char)*a), y = vrt_tolower((unsigned char)*b); if (x != y) return x - y; if (!x) break; } return 0; }
char *vrt_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *vrt_strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *vrt_memchr(const void *v, int c, size_t n) { const unsigned char *s = v; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
void *vrt_memrchr(const void *v, int c, size_t n) { const unsigned char *s = v; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
char *vrt_strstr(const char *h, const char *n) { size_t l = vrt_strlen(n); for (;; h++) { if (!vrt_strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *vrt_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *vrt_stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *vrt_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vrt_strcat(char *d, const char *s) { vrt_strcpy(d + vrt_strlen(d), s); return d; }
char *vrt_strncat(char *d, const char *s, size_t n) { char *r = d; d += vrt_strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
int vrt_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
int vrt_bcmp(const void *a, const void *b, size_t n) { return vrt_memcmp(a, b, n); }
size_t vrt_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && vrt_strchr(a, s[n])) n++; return n; }
size_t vrt_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !vrt_strchr(a, s[n])) n++; return n; }
char *vrt_strpbrk(const char *s, const char *a) { s += vrt_strcspn(s, a); return *s ? (char *)s : 0; }
static char *vrt_tokp;
char *vrt_strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += vrt_strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + vrt_strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char *vrt_strtok(char *s, const char *d) { return vrt_strtok_r(s, d, &vrt_tokp); }
#define RNG(c, a, b) ((unsigned)(c) - (unsigned)(a) <= (unsigned)(b) - (unsigned)(a))   /* no branches: each would fork a symbolic path */
int vrt_isdigit(int c) { return RNG(c, '0', '9'); }
int vrt_isupper(int c) { return RNG(c, 'A', 'Z'); }
int vrt_islower(int c) { return RNG(c, 'a', 'z'); }
int vrt_isalpha(int c) { return vrt_isupper(c) | vrt_islower(c); }
int vrt_isalnum(int c) { return vrt_isalpha(c) | vrt_isdigit(c); }
int vrt_isxdigit(int c) { return vrt_isdigit(c) | RNG(c, 'a', 'f') | RNG(c, 'A', 'F'); }
int vrt_isspace(int c) { return (c == ' ') | RNG(c, 9, 13); }
int vrt_isprint(int c) { return RNG(c, 32, 126); }
int vrt_isgraph(int c) { return RNG(c, 33, 126); }
int vrt_ispunct(int c) { return vrt_isgraph(c) && !vrt_isalnum(c); }
int vrt_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static unsigned short vrt_ctab[384]; static int vrt_ltab[384], vrt_utab[384]; static unsigned short *vrt_cp; static int *vrt_lp, *vrt_up;
__attribute__((constructor)) static void vrt_ctinit(void) {
  for (int c = -128; c < 256; c++) { int d = c < 0 ? c : c; unsigned short m = 0;
    if (vrt_isupper(d)) m |= 1 << 8; if (vrt_islower(d)) m |= 1 << 9; if (vrt_isalpha(d)) m |= 1 << 10; if (vrt_isdigit(d)) m |= 1 << 11; if (vrt_isxdigit(d)) m |= 1 << 12;
    if (vrt_isspace(d)) m |= 1 << 13; if (vrt_isprint(d)) m |= 1 << 14; if (vrt_isgraph(d)) m |= 1 << 15; if (d == ' ' || d == 9) m |= 1; if (vrt_iscntrl(d)) m |= 2; if (vrt_ispunct(d)) m |= 4; if (vrt_isalnum(d)) m |= 8;
    vrt_ctab[c + 128] = m; vrt_ltab[c + 128] = vrt_tolower(c); vrt_utab[c + 128] = vrt_toupper(c); }
  vrt_cp = vrt_ctab + 128; vrt_lp = vrt_ltab + 128; vrt_up = vrt_utab + 128;
}
const unsigned short **vrt___ctype_b_loc(void) { return (const unsigned short **)&vrt_cp; }
const int **vrt___ctype_tolower_loc(void) { return (const int **)&vrt_lp; }
const int **vrt___ctype_toupper_loc(void) { return (const int **)&vrt_up; }
static int vrt_dig(int c) { int d = RNG(c, '0', '9') ? c - '0' : 99, l = c | 32; return RNG(l, 'a', 'z') ? l - 'a' + 10 : d; }
static ul vrt_num(const char *s, char **e, int base, int *neg, int *ovf) {
  const char *p = s; while (vrt_isspace((unsigned char)*p)) p++;
  *neg = 0; *ovf = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] && ((p[0] == '0') & ((p[1] | 32) == 'x')) && vrt_dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  ul v = 0; int any = 0; int d;
  while ((d = vrt_dig((unsigned char)*p)) < base) { ul nv; if (__builtin_mul_overflow(v, (ul)base, &nv)) *ovf = 1; if (__builtin_add_overflow(nv, (ul)d, &nv)) *ovf = 1; v = nv; any = 1; p++; }
  if (e) *e = (char *)(any ? p : s);
  return v;
}
long vrt_strtol(const char *s, char **e, int b) { int n, o; ul v = vrt_num(s, e, b, &n, &o); if (o || (!n && v > 0x7fffffffffffffffUL) || (n && v > 0x8000000000000000UL)) return n ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; return n ? -(long)v : (long)v; }
ul vrt_strtoul(const char *s, char **e, int b) { int n, o; ul v = vrt_num(s, e, b, &n, &o); if (o) return ~0UL; return n ? -v : v; }
long long vrt_strtoll(const char *s, char **e, int b) { return vrt_strtol(s, e, b); }
unsigned long long vrt_strtoull(const char *s, char **e, int b) { return vrt_strtoul(s, e, b); }
long vrt___isoc23_strtol(const char *s, char **e, int b) { return vrt_strtol(s, e, b); }
ul vrt___isoc23_strtoul(const char *s, char **e, int b) { return vrt_strtoul(s, e, b); }
long long vrt___isoc23_strtoll(const char *s, char **e, int b) { return vrt_strtol(s, e, b); }
unsigned long long vrt___isoc23_strtoull(const char *s, char **e, int b) { return vrt_strtoul(s, e, b); }
int vrt_atoi(const char *s) { return (int)vrt_strtol(s, 0, 10); }
long vrt_atol(const char *s) { return vrt_strtol(s, 0, 10); }
int vrt_abs(int a) { return a < 0 ? -a : a; } long vrt_labs(long a) { return a < 0 ? -a : a; }
/* rand(): any value */
extern ul sym_int(const char *, unsigned);
extern int sym_running(void);
int vrt_rand(void) { return sym_running() ? (int)(sym_int("rand", 31)) : 1; }
void vrt_srand(unsigned s) {} long vrt_random(void) { return vrt_rand(); } void vrt_srandom(unsigned s) {}
void *vrt_bsearch(const void *k, const void *b, size_t n, size_t sz, int (*c)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)b + m * sz; int r = c(k, p); if (!r) return (void *)p; if (r < 0) hi = m; else lo = m + 1; } return 0; }
void vrt_qsort(void *b, size_t n, size_t sz, int (*c)(const void *, const void *)) { char *a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(a + (j - 1) * sz, a + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; } }
/* formatted output; the value of a symbolic digit is named, so that reading the digit back is simple */
extern int sym_is_symbolic(unsigned long); extern void sym_assume(int);
static ul vrt_nib(ul x) { if (!sym_is_symbolic(x)) return x; ul y = sym_int("digit", 4); sym_assume(y == x); return y; }
struct ob { char *d; size_t n, at; };
static void put(struct ob *o, char c) { if (o->at + 1 < o->n) o->d[o->at] = c; o->at++; }
int vrt_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
  struct ob o = { d, n, 0 };
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, alt = 0, sp = 0, w = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') sp = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; f++; }
    char buf[40]; int bn = 0; const char *s = 0; int sl = 0; char pre[3]; int pn = 0;
    switch (*f) {
    case 0: f--; continue;
    case '%': put(&o, '%'); continue;
    case 'c': buf[0] = (char)va_arg(ap, int); s = buf; sl = 1; zero = 0; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; sl = 0; while ((prec < 0 || sl < prec) && s[sl]) sl++; zero = 0; break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      ul v; int neg = 0; unsigned base = 10; char cv = *f;
      if (cv == 'p') { v = (ul)va_arg(ap, void *); base = 16; alt = 1; }
      else if (cv == 'd' || cv == 'i') { long x = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int); if (lng == -1) x = (short)x; else if (lng <= -2) x = (signed char)x; if (x < 0) { neg = 1; v = -(ul)x; } else v = (ul)x; }
      else { v = lng > 0 ? va_arg(ap, ul) : (ul)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; else if (lng <= -2) v = (unsigned char)v; }
      if (cv == 'x' || cv == 'X') base = 16; if (cv == 'o') base = 8;
      int al = (cv == 'X' ? 'A' : 'a') - 10;
#define HD(x) ({ ul hx = vrt_nib(x); (char)(hx + (hx < 10 ? '0' : al)); })
      if (zero && w && w < 16 && !left && prec < 0 && base == 16 && !alt && !(v >> (4 * w))) { for (int i = w - 1; i >= 0; i--) put(&o, HD(v >> (4 * i) & 15)); continue; } /* fixed number of digits: no branch on the value */
      int i = 40; ul t = v; 
      if (base == 16) { do { buf[--i] = HD(t & 15); t >>= 4; } while (t); } else if (base == 8) { do { buf[--i] = '0' + (t & 7); t >>= 3; } while (t); } else { do { buf[--i] = '0' + t % 10; t /= 10; } while (t); }
      s = buf + i; sl = 40 - i; if (prec == 0 && v == 0) sl = 0;
      if (neg) pre[pn++] = '-'; else if (plus && (cv == 'd' || cv == 'i')) pre[pn++] = '+'; else if (sp && (cv == 'd' || cv == 'i')) pre[pn++] = ' ';
      if (alt && base == 16 && v) { pre[pn++] = '0'; pre[pn++] = cv == 'X' ? 'X' : 'x'; }
      if (prec >= 0) zero = 0;
      (void)bn; break; }
    default: (void)va_arg(ap, double); s = "?"; sl = 1; zero = 0; break;
    }
    int zs = (prec > sl && *f != 's' && *f != 'c') ? prec - sl : 0;
    int tot = pn + zs + sl; 
    if (!left && !zero) for (int i = tot; i < w; i++) put(&o, ' ');
    for (int i = 0; i < pn; i++) put(&o, pre[i]);
    if (!left && zero) for (int i = tot; i < w; i++) put(&o, '0');
    for (int i = 0; i < zs; i++) put(&o, '0');
    for (int i = 0; i < sl; i++) put(&o, s[i]);
    if (left) for (int i = tot; i < w; i++) put(&o, ' ');
  }
  if (n) d[o.at < n ? o.at : n - 1] = 0;
  return (int)o.at;
}
int vrt_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vrt_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int vrt_vasprintf(char **r, const char *f, va_list ap) { va_list b; va_copy(b, ap); int k = vrt_vsnprintf(0, 0, f, b); va_end(b); *r = vrt_malloc(k + 1); return vrt_vsnprintf(*r, k + 1, f, ap); }
int vrt_vsprintf(char *d, const char *f, va_list ap) { return vrt_vsnprintf(d, 1UL << 30, f, ap); }
int vrt_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vrt_vsnprintf(d, 1UL << 30, f, ap); va_end(ap); return r; }
