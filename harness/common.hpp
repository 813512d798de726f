// Helpers shared by the harnesses.
#pragma once
#include "../rt/model.h"
#include <new>
#include <string>
#include <string.h>
#include <stdexcept>
#include <utility>
#include <vector>
#define ENTRY extern "C" void
// object storage filled with arbitrary bytes before construction: uninitialised members become explicit unknowns
template <class T> struct Slot {
  alignas(16) unsigned char mem[sizeof(T)]; bool live = false;
  template <class... A> T &make(A &&...a) { sx_make_symbolic(mem, sizeof(T), "storage"); T *p = new (mem) T(std::forward<A>(a)...); live = true; return *p; }
  T &operator*() { return *reinterpret_cast<T *>(mem); }
  T *operator->() { return reinterpret_cast<T *>(mem); }
  void destroy() { live = false; reinterpret_cast<T *>(mem)->~T(); }
};
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
static inline bool sym_bool(const char *n) { return sx_sym_u32(n) & 1; }
static inline uint32_t sym_range(const char *n, uint32_t lo, uint32_t hi) { uint32_t v = sx_sym_u32(n); sx_assume(v >= lo && v <= hi); return v; }
static inline uint32_t choose(const char *n, uint32_t k) { if (k <= 1) return 0; uint32_t v = sx_sym_u32(n); sx_assume(v < k); return (uint32_t)sx_concretize(v); }
// fills n cells of T with unconstrained bits (booleans: 0 or 1)
template <class T> static inline void symfill(T *p, int n, const char *name) { if (n <= 0) return; sx_make_symbolic(p, sizeof(T) * n, name); if (std::is_same<T, bool>::value) for (int i = 0; i < n; i++) sx_assume(((unsigned char *)p)[i] <= 1); }
// byte-exact comparison without branching
static inline int same_bytes(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; unsigned d = 0; for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i]; return d == 0; }
