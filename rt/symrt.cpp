// Engine-only runtime: the parts of libc/libstdc++ the code needs as bitcode.
#include "sx.h"
#include <string>
#include <stdexcept>
#include <string.h>
#include <stdarg.h>
#include <unordered_map>
#include <map>
#include <list>
// bucket counts of std::unordered_map (growth policy only affects performance)
static const size_t sx_primes[] = {11, 23, 47, 97, 197, 397, 797, 1597, 3203, 6421};
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : sx_primes) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > bkt) { return {true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
}
template class std::basic_string<char>;
// ordered containers: a plain search tree (the order of elements does not depend on balancing) with the library's header-node layout
namespace std {
typedef _Rb_tree_node_base *NP;
static NP sx_inc(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static NP sx_dec(NP x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return sx_inc(x); } const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return sx_inc(const_cast<NP>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return sx_dec(x); } const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return sx_dec(const_cast<NP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  NP up = z->_M_parent, r; 
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
  else { NP y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } y->_M_left = z->_M_left; z->_M_left->_M_parent = y; r = y; }
  if (r) r->_M_parent = up; if (h._M_parent == z) h._M_parent = r; else if (up->_M_left == z) up->_M_left = r; else up->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; return z; }
  NP m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; { auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { bool ex = x._M_next != &x, ey = y._M_next != &y; auto a = x, b = y; if (ey) { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; } else x._M_next = x._M_prev = &x; if (ex) { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else y._M_next = y._M_prev = &y; }
} }
extern "C" {
// std::exception hierarchy: only the message of runtime_error/logic_error is kept
struct SxExc { void *vt; char *msg; };
static void setMsg(void *self, const char *s, size_t n) { char *m = (char *)__builtin_malloc(n + 1); memcpy(m, s, n); m[n] = 0; ((SxExc *)self)->msg = m; }
const char *sx_what(const void *e); static void sx_noop(void *) {}
void *sx_excvt[8] = {(void *)sx_noop, (void *)sx_noop, (void *)sx_what};
#define SXEXC(M) \
  void M##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *t, const std::string &s) { ((SxExc *)t)->vt = sx_excvt; setMsg(t, s.data(), s.size()); } \
  void M##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *t, const std::string &s) { ((SxExc *)t)->vt = sx_excvt; setMsg(t, s.data(), s.size()); } \
  void M##C1EPKc(void *t, const char *s) { ((SxExc *)t)->vt = sx_excvt; setMsg(t, s, strlen(s)); } \
  void M##C2EPKc(void *t, const char *s) { ((SxExc *)t)->vt = sx_excvt; setMsg(t, s, strlen(s)); } \
  void M##C1ERKS_(void *t, const void *o) { *(SxExc *)t = *(const SxExc *)o; } void M##C2ERKS_(void *t, const void *o) { *(SxExc *)t = *(const SxExc *)o; } \
  void M##D1Ev(void *) {} void M##D2Ev(void *) {} void M##D0Ev(void *p) { __builtin_free(p); }
SXEXC(_ZNSt13runtime_error) SXEXC(_ZNSt11logic_error) SXEXC(_ZNSt16invalid_argument) SXEXC(_ZNSt12out_of_range) SXEXC(_ZNSt12length_error) SXEXC(_ZNSt12domain_error) SXEXC(_ZNSt11range_error) SXEXC(_ZNSt14overflow_error)
void _ZNSt9exceptionD2Ev(void *) {} void _ZNSt9exceptionD1Ev(void *) {} void _ZNSt9bad_allocD1Ev(void *) {}
const char *sx_what(const void *e) { const char *m = ((SxExc *)e)->msg; return m ? m : "std::exception"; }
const char *_ZNKSt13runtime_error4whatEv(const void *e) { return sx_what(e); } const char *_ZNKSt11logic_error4whatEv(const void *e) { return sx_what(e); } const char *_ZNKSt9exception4whatEv(const void *e) { return sx_what(e); }
// std::exception_ptr: exception objects are never freed here, so no reference counts
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void *) {} void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *) {}
void _ZNSt15__exception_ptr13exception_ptrC1ERKS0_(void **t, void **o) { *t = *o; } void _ZNSt15__exception_ptr13exception_ptrC2ERKS0_(void **t, void **o) { *t = *o; }
void _ZNSt15__exception_ptr13exception_ptrC1EPv(void **t, void *o) { *t = o; } void _ZNSt15__exception_ptr13exception_ptrC1Ev(void **t) { *t = 0; } void _ZNSt15__exception_ptr13exception_ptrD1Ev(void *) {} void _ZNSt15__exception_ptr13exception_ptrD2Ev(void *) {}
void *_ZNSt15__exception_ptr13exception_ptraSERKS0_(void **t, void **o) { *t = *o; return t; } void _ZNSt15__exception_ptr13exception_ptr4swapERS0_(void **t, void **o) { void *x = *t; *t = *o; *o = x; }
bool _ZNSt15__exception_ptreqERKNS_13exception_ptrES2_(void **a, void **b) { return *a == *b; }
}
