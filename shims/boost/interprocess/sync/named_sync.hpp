// Model of the part of Boost.Interprocess that EigenIPC may use: named mutex, named condition, scoped lock.
// Semantics follow the Boost documentation; the state lives in the OS model (rt/model.cpp).
#pragma once
#include <chrono>
#include <exception>
#include <utility>
#include <boost/date_time/posix_time/posix_time.hpp>
extern "C" {
int mdl_bip_open(const char *name, int isMutex, int mode); // mode 0 create_only 1 open_only 2 open_or_create; -1 on failure
int mdl_bip_remove(const char *name, int isMutex);
void mdl_mtx_lock(int m); int mdl_mtx_trylock(int m); void mdl_mtx_unlock(int m);
int mdl_cv_enqueue(int c); int mdl_cv_await(int c, int slot, int timed); void mdl_cv_notify(int c, int all); void mdl_cv_deadline(long long us_from_now);
void mdl_bip_throw(int what);
}
namespace boost { namespace interprocess {
namespace sxt { // any absolute time or duration (Boost or std::chrono) as microseconds from now
inline long long from_now(const posix_time::ptime &t) { return t.us - posix_time::microsec_clock::peek(); } inline long long from_now(const posix_time::time_duration &d) { return d.us; }
template <class R, class P> long long from_now(const std::chrono::duration<R, P> &d) { return std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }
template <class C, class D> long long from_now(const std::chrono::time_point<C, D> &t) { return from_now(t - C::now()); } }
enum class cv_status { no_timeout, timeout };
struct create_only_t {}; struct open_only_t {}; struct open_or_create_t {};
static const create_only_t create_only = create_only_t(); static const open_only_t open_only = open_only_t(); static const open_or_create_t open_or_create = open_or_create_t();
struct defer_lock_type {}; struct try_to_lock_type {}; struct accept_ownership_type {};
static const defer_lock_type defer_lock = defer_lock_type(); static const try_to_lock_type try_to_lock = try_to_lock_type(); static const accept_ownership_type accept_ownership = accept_ownership_type();
class interprocess_exception : public std::exception { public: const char *what() const noexcept override { return "boost::interprocess_exception"; } };
class lock_exception : public interprocess_exception { public: const char *what() const noexcept override { return "boost::interprocess::lock_exception"; } };
class named_mutex { int id; named_mutex(const named_mutex &) = delete; named_mutex &operator=(const named_mutex &) = delete;
  void init(const char *n, int mode) { id = mdl_bip_open(n, 1, mode); if (id < 0) throw interprocess_exception(); }
public:
  named_mutex(create_only_t, const char *n) { init(n, 0); } named_mutex(open_only_t, const char *n) { init(n, 1); } named_mutex(open_or_create_t, const char *n) { init(n, 2); }
  ~named_mutex() {}
  void lock() { mdl_mtx_lock(id); } bool try_lock() { return mdl_mtx_trylock(id); } void unlock() { mdl_mtx_unlock(id); }
  template <class T> bool timed_lock(const T &) { return mdl_mtx_trylock(id); } template <class T> bool try_lock_for(const T &) { return mdl_mtx_trylock(id); } template <class T> bool try_lock_until(const T &) { return mdl_mtx_trylock(id); }
  static bool remove(const char *n) { return mdl_bip_remove(n, 1); } };
template <class M> class scoped_lock { M *m; bool own; scoped_lock(const scoped_lock &) = delete; scoped_lock &operator=(const scoped_lock &) = delete;
public:
  typedef M mutex_type;
  scoped_lock() : m(nullptr), own(false) {}
  explicit scoped_lock(M &x) : m(&x), own(false) { m->lock(); own = true; }
  scoped_lock(M &x, defer_lock_type) : m(&x), own(false) {} scoped_lock(M &x, accept_ownership_type) : m(&x), own(true) {} scoped_lock(M &x, try_to_lock_type) : m(&x), own(x.try_lock()) {} template <class T> scoped_lock(M &x, const T &abs) : m(&x), own(x.timed_lock(abs)) {}
  scoped_lock(scoped_lock &&o) : m(o.m), own(o.own) { o.m = nullptr; o.own = false; }
  scoped_lock &operator=(scoped_lock &&o) { if (own) m->unlock(); m = o.m; own = o.own; o.m = nullptr; o.own = false; return *this; }
  ~scoped_lock() { if (own) m->unlock(); }
  void lock() { if (!m || own) throw lock_exception(); m->lock(); own = true; }
  bool try_lock() { if (!m || own) throw lock_exception(); return own = m->try_lock(); }
  template <class T> bool timed_lock(const T &t) { if (!m || own) throw lock_exception(); return own = m->timed_lock(t); }
  void unlock() { if (!m || !own) throw lock_exception(); m->unlock(); own = false; }
  bool owns() const { return own && m; } explicit operator bool() const { return owns(); } M *mutex() const { return m; }
  M *release() { M *x = m; m = nullptr; own = false; return x; }
  void swap(scoped_lock &o) { std::swap(m, o.m); std::swap(own, o.own); } };
class named_condition { int id; named_condition(const named_condition &) = delete; named_condition &operator=(const named_condition &) = delete;
  void init(const char *n, int mode) { id = mdl_bip_open(n, 0, mode); if (id < 0) throw interprocess_exception(); }
  template <class L> bool await(L &l, int timed) { if (!l) throw lock_exception(); int s = mdl_cv_enqueue(id); l.mutex()->unlock(); bool r = mdl_cv_await(id, s, timed); l.mutex()->lock(); return r; }
public:
  named_condition(create_only_t, const char *n) { init(n, 0); } named_condition(open_only_t, const char *n) { init(n, 1); } named_condition(open_or_create_t, const char *n) { init(n, 2); }
  ~named_condition() {}
  void notify_one() { mdl_cv_notify(id, 0); } void notify_all() { mdl_cv_notify(id, 1); }
  template <class L> void wait(L &l) { await(l, 0); }
  template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
  template <class L, class T> bool timed_wait(L &l, const T &t) { mdl_cv_deadline(sxt::from_now(t)); return await(l, 1); }
  template <class L, class T, class P> bool timed_wait(L &l, const T &t, P p) { while (!p()) if (!timed_wait(l, t)) return p(); return true; }
  template <class L, class T> cv_status wait_until(L &l, const T &t) { return timed_wait(l, t) ? cv_status::no_timeout : cv_status::timeout; }
  template <class L, class T, class P> bool wait_until(L &l, const T &t, P p) { return timed_wait(l, t, p); }
  template <class L, class T> cv_status wait_for(L &l, const T &d) { return wait_until(l, d); }
  template <class L, class T, class P> bool wait_for(L &l, const T &d, P p) { return timed_wait(l, d, p); }
  static bool remove(const char *n) { return mdl_bip_remove(n, 0); } };
}}
