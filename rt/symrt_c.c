// Engine-only C library pieces.
#include "sx.h"
#include <stdarg.h>
void *memcpy(void *, const void *, size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i]; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (; ; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
void *realloc(void *p, size_t n) { void *q = __builtin_malloc(n); if (p) { size_t o = sx_objsize(p); if (o > n) o = n; memcpy(q, p, o); __builtin_free(p); } return q; }
char *strerror(int e) { return (char *)"error"; }
#include "fmt.h"
struct bufctx { char *b; size_t n, k; };
static void bufput(void *c, char ch) { struct bufctx *x = (struct bufctx *)c; if (x->k + 1 < x->n) x->b[x->k] = ch; x->k++; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { struct bufctx c = {b, n, 0}; int r = sx_vformat(bufput, &c, f, ap); if (r < 0) sx_violation("format-string", "conversion specification the program does not intend"); if (n) b[c.k < n ? c.k : n - 1] = 0; return (int)c.k; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, sx_objsize(b), f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int __snprintf_chk(char *b, size_t n, int fl, size_t bl, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *p = a; *p; p++) if (*p == *s) return (char *)s; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = (char *)__builtin_malloc(n); memcpy(d, s, n); return d; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memrchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; while (n--) if (x[n] == (unsigned char)c) return (void *)(x + n); return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); } int isalnum(int c) { return isalpha(c) || isdigit(c); } int isprint(int c) { return c >= 32 && c < 127; } int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { return islower(c) ? c - 32 : c; } int tolower(int c) { return isupper(c) ? c + 32 : c; }
static unsigned long sx_strtou(const char *s, char **e, int base, int *neg) { const char *p = s; unsigned long v = 0; int any = 0; *neg = 0; while (isspace((unsigned char)*p)) p++; if (*p == '-' || *p == '+') *neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower((unsigned char)*p) - 'a' + 10 : 99; if (d >= base) break; v = v * (unsigned)base + (unsigned)d; any = 1; } if (e) *e = (char *)(any ? p : s); return v; }
long strtol(const char *s, char **e, int b) { int n; unsigned long v = sx_strtou(s, e, b, &n); return (long)(n ? 0 - v : v); } long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int n; unsigned long v = sx_strtou(s, e, b, &n); return n ? 0 - v : v; } unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); } long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); } unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); } long atol(const char *s) { return strtol(s, 0, 10); }
int abs(int v) { return v < 0 ? -v : v; } long labs(long v) { return v < 0 ? -v : v; } long long llabs(long long v) { return v < 0 ? -v : v; }
struct ldv { long q, r; }; struct ldv ldiv(long a, long b) { struct ldv r = {a / b, a % b}; return r; } struct ldv lldiv(long a, long b) { struct ldv r = {a / b, a % b}; return r; } struct idv { int q, r; }; struct idv div(int a, int b) { struct idv r = {a / b, a % b}; return r; }
char *getenv(const char *n) { return 0; } int isatty(int fd) { return 0; }
char __libc_single_threaded = 0;
// type information of the standard exceptions (layout: vtable, name, base)
struct ti2 { void *vt; const char *name; };
struct ti3 { void *vt; const char *name; void *base; };
#define TI2(id, nm) struct ti2 id __asm__("_ZTI" nm) = {0, nm};
#define TI3(id, nm, b) struct ti3 id __asm__("_ZTI" nm) = {0, nm, &b};
TI2(ti_exception, "St9exception")
TI3(ti_runtime, "St13runtime_error", ti_exception)
TI3(ti_logic, "St11logic_error", ti_exception)
TI3(ti_length, "St12length_error", ti_logic)
TI3(ti_range, "St12out_of_range", ti_logic)
TI3(ti_invarg, "St16invalid_argument", ti_logic)
TI3(ti_domain, "St12domain_error", ti_logic)
TI3(ti_rrange, "St11range_error", ti_runtime)
TI3(ti_overflow, "St14overflow_error", ti_runtime)
TI3(ti_badalloc, "St9bad_alloc", ti_exception)
TI3(ti_badcast, "St8bad_cast", ti_exception)
TI3(ti_badfn, "St17bad_function_call", ti_exception)
TI3(ti_badid, "St10bad_typeid", ti_exception)
TI3(ti_under, "St15underflow_error", ti_runtime)
TI3(ti_badarr, "St20bad_array_new_length", ti_badalloc)
// dynamic_cast through public bases (Itanium ABI type information)
extern char sx_si __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"), sx_vmi __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
struct tiv { void *vt; const char *name; unsigned flags, n; struct { struct ti3 *base; long off; } b[1]; };
static void *sx_upcast(struct ti3 *t, char *obj, void *want) {
  if ((void *)t == want) return obj;
  if (t->vt == &sx_si + 16) return sx_upcast((struct ti3 *)t->base, obj, want);
  if (t->vt == &sx_vmi + 16) { struct tiv *v = (struct tiv *)t; for (unsigned i = 0; i < v->n; i++) { long off = v->b[i].off >> 8; if (v->b[i].off & 1) off = *(long *)(*(char **)obj + off); void *r = sx_upcast(v->b[i].base, obj + off, want); if (r) return r; } }
  return 0; }
void *__dynamic_cast(const void *p, const void *src, const void *dst, long hint) { void **vt = *(void ***)p; return sx_upcast((struct ti3 *)vt[-1], (char *)p + (long)vt[-2], (void *)dst); }
