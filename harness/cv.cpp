// Condition-variable wrapper (C31).
#include "tensors.hpp"
#include <EigenIPC/CondVar.hpp>
typedef ConditionVariable CV;
static Slot<CV> cv[6]; static int NW, inside, flag, woken, notified, done_[6]; static unsigned MS; static std::string CN, MN;
static const char *cn() { return CN.c_str(); } static const char *mn() { return MN.c_str(); }
static void mk(int p, bool srv, bool force = false) { as(p, [&] { cv[p].make(srv, S_("nm"), S_("ns"), verbose(), vlevel(), force); return 0; }); }
static void setup(int n) { NW = n; MS = sx_sym_u32("ms"); CN = names_of().mem_path_cond_var; MN = names_of().mem_path_cond_var_mutex; mk(1, true); for (int i = 0; i < n; i++) mk(2 + i, false); }
static void enter() { sx_assert(++inside == 1, "the lock excludes every other holder"); sx_assert(mdl_mtx_held(mn()) == 1, "the lock is held when the lock call returns"); }
static void leave() { inside--; }
static void locked(CV &c, int style, void (*f)(CV &, CV::ScopedLock &)) { CV::ScopedLock l = c.lock(); sx_assert(l.owns(), "lock returns an owning lock"); enter(); f(c, l); sx_assert(l.owns() && mdl_mtx_held(mn()) == 1, "the lock is held again when a wait returns"); leave(); if (style) { c.unlock(l); sx_assert(!l.owns(), "unlock releases the lock"); } }
// the ghost counter follows the lock: it is given up while waiting
static int need_, style_; static bool all_;
static bool ready() { return flag >= need_; }
static void wFor(CV &c, CV::ScopedLock &l) { leave(); c.wait_for(l, [] { bool r = ready(); sx_assert(inside == 0, "the predicate is evaluated under the lock"); return r; }); enter(); sx_assert(ready(), "a predicate wait returns only with the predicate true"); woken++; }
static void wTimedFor(CV &c, CV::ScopedLock &l) { leave(); bool r = c.timedwait_for(l, MS, [] { sx_assert(inside == 0, "the predicate is evaluated under the lock"); return ready(); }); enter(); sx_assert(r == ready(), "a timed predicate wait reports the final value of its predicate"); if (r) woken++; sx_reach(r ? "released" : "timed out"); }
static void wPlain(CV &c, CV::ScopedLock &l) { while (!ready()) { leave(); c.wait(l); enter(); } woken++; }
static int timeouts; static void wTimed(CV &c, CV::ScopedLock &l) { while (!ready()) { leave(); bool r = c.timedwait(l, MS); enter(); if (!r) { timeouts++; sx_reach("timed out"); break; } } if (ready()) woken++; }
static void (*const W[])(CV &, CV::ScopedLock &) = {wFor, wTimedFor, wPlain, wTimed};
static int kind_; static void waiter(void *a) { int p = (int)(long)a; locked(*cv[p], style_, W[kind_]); done_[p] = 1; }
static void nSet(CV &c, CV::ScopedLock &) { flag++; if (sx_cfg("under_lock", 0)) { if (all_) c.notify_all(); else c.notify_one(); } }
static void notifier(void *) { for (int k = 0; k < need_; k++) { locked(*cv[1], style_, nSet); if (!sx_cfg("under_lock", 0)) { if (all_) cv[1]->notify_all(); else cv[1]->notify_one(); } } if (!all_) for (int k = 1; k < NW; k++) cv[1]->notify_one(); }
static void finish() { sx_assert(sx_join() == 0, "a notification wakes a waiter"); mdl_faults(0, 0); sx_assert(inside == 0 && mdl_mtx_any_held() == 0 && mdl_bad_unlocks() == 0, "every lock is free at the end"); }
ENTRY cv_wait_() { kind_ = choose("kind", 4); all_ = choose("all", 2); style_ = choose("unlock", 2); need_ = sx_cfg("notifications", 1); setup(sx_cfg("waiters", 1)); mdl_faults(sx_cfg("spurious", 0), F_CV_SPURIOUS); for (int i = 0; i < NW; i++) sx_spawn(waiter, (void *)(long)(2 + i), 2 + i, 0); sx_spawn(notifier, 0, 1, 0); finish();
  if (kind_ == 0 || kind_ == 2) sx_assert(woken == NW, "every waiter whose predicate holds is released"); sx_assert(flag == need_, "updates under the lock are not lost"); sx_reach("end"); }
// one notification, exactly one waiter: plain wait returns only when notified (no spurious wake-ups in this run)
static bool alone; static void lone(void *) { { CV::ScopedLock l = cv[2]->lock(); enter(); leave(); alone = true; cv[2]->wait(l); sx_assert(notified == 1, "a wait returns only with a notification"); enter(); leave(); } done_[2] = 1; }
static void oneNotify(void *) { bool waiting; { CV::ScopedLock l = cv[1]->lock(); waiting = alone; } if (waiting) { notified = 1; if (all_) cv[1]->notify_all(); else cv[1]->notify_one(); done_[1] = 1; } }
ENTRY cv_notify() { all_ = choose("all", 2); setup(1); sx_spawn(lone, 0, 2, 0); sx_spawn(oneNotify, 0, 1, 0); int stuck = sx_join(); sx_assert(stuck == (done_[1] ? 0 : 1), "a waiting thread is woken by a notification and by nothing else"); sx_assert(done_[2] == done_[1], "only a notified waiter returns"); sx_reach(done_[1] ? "woken" : "left waiting"); if (done_[1]) sx_assert(mdl_mtx_any_held() == 0, "locks free"); else sx_assert(mdl_mtx_any_held() == 0, "the lock is free while waiting"); sx_reach("end"); }
// notify_one wakes one of several, notify_all wakes all
static int waiting_; static void many(void *a) { int p = (int)(long)a; { CV::ScopedLock l = cv[p]->lock(); waiting_++; cv[p]->wait(l); } woken++; }
static void nMany(void *) { { CV::ScopedLock l = cv[1]->lock(); notified = waiting_; } if (all_) cv[1]->notify_all(); else cv[1]->notify_one(); }
ENTRY cv_many() { all_ = choose("all", 2); setup(sx_cfg("waiters", 2)); for (int i = 0; i < NW; i++) sx_spawn(many, (void *)(long)(2 + i), 2 + i, 0); sx_spawn(nMany, 0, 1, 0); int stuck = sx_join(); int atleast = all_ ? notified : notified > 0; sx_assert(woken >= atleast, "notify_all wakes every waiter, notify_one at least one"); sx_assert(woken + stuck == NW, "threads end or wait"); if (!all_) sx_assert(woken <= 1, "notify_one wakes one waiter"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); if (woken == NW) sx_reach("all woken"); sx_reach("end"); }
// time asked for
ENTRY cv_deadline() { setup(1); int how = choose("pred", 2); int n0 = mdl_cv_deadlines(); bool pv = sym_bool("predicate"); bool r = as(2, [&] { CV::ScopedLock l = cv[2]->lock(); bool x = how ? cv[2]->timedwait_for(l, MS, [&] { return pv; }) : cv[2]->timedwait(l, MS); sx_assert(l.owns() && mdl_mtx_held(mn()) == 1, "the lock is held again after a time-out"); return x; });
  sx_assert(r == (how && pv), "a timed wait nobody notifies returns false unless its predicate holds"); if (!(how && pv)) { sx_assert(mdl_cv_deadlines() > n0, "a timed wait has a deadline"); sx_assert(mdl_cv_last_deadline() == (long long)MS * 1000, "a timed wait asks for the stated time"); sx_reach("timed out"); } sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
// names: every history of creating, opening, closing, destroying one or two servers and clients
ENTRY cv_names() { CN = names_of().mem_path_cond_var; MN = names_of().mem_path_cond_var_mutex; int D = sx_cfg("depth", 5); int owner = -1; bool exists = false, closed[6] = {}; /* 1, 2 servers; 3, 4 clients */
  for (int k = 0; k < D; k++) { int p = 1 + choose("who", 4); bool srv = p <= 2; int u0 = mdl_unlinks_by(p);
    switch (choose("op", 3)) {
      case 0: if (cv[p].live) break; { bool force = srv && choose("force", 2); if (force && exists && owner > 0 && cv[owner].live && !closed[owner]) break; /* taking over from a live server is outside */
          bool t = as(p, [&] { return throws([&] { cv[p].make(srv, S_("nm"), S_("ns"), verbose(), vlevel(), force); }); }); cv[p].live = !t;
          if (srv) { sx_assert(t == (exists && !force), "a server side creates its objects, and fails when they exist already"); if (!t) { exists = true; owner = p; closed[p] = false; } else sx_reach("refused"); }
          else { sx_assert(t == !exists, "a client side opens what a server created, and fails otherwise"); if (t) sx_reach("nothing to open"); else closed[p] = false; sx_assert(mdl_unlinks_by(p) == u0, "a client removes nothing"); } break; }
      case 1: if (!cv[p].live) break; as(p, [&] { cv[p]->close(); return 0; }); if (srv && !closed[p]) { sx_assert(owner == p, "ghost"); exists = false; owner = -1; } else sx_assert(mdl_unlinks_by(p) == u0, "only the first close of a server removes names"); closed[p] = true; break;
      default: if (!cv[p].live) break; as(p, [&] { cv[p].destroy(); return 0; }); if (srv && !closed[p]) { exists = false; owner = -1; } else sx_assert(mdl_unlinks_by(p) == u0, "a closed server and a client remove nothing"); }
    sx_assert(mdl_mtx_exists(mn()) == exists && mdl_cv_exists(cn()) == exists, "the named objects exist from the server's creation to its close"); }
  if (exists && cv[3].live && !closed[3] && owner > 0 && cv[owner].live) { as(3, [&] { CV::ScopedLock l = cv[3]->lock(); return 0; }); }
  sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
// a server crashed: with force_reconnection the next one starts over, whichever object was left
ENTRY cv_takeover() { setup(1); int left = choose("left", 3); bool held = choose("held", 2); alignas(16) static char lk[sizeof(CV::ScopedLock)]; if (held) as(1, [&] { new (lk) CV::ScopedLock(cv[1]->lock()); return 0; }); mdl_process_exit(1); if (left == 1) boost::interprocess::named_mutex::remove(mn()); if (left == 2) boost::interprocess::named_condition::remove(cn());
  bool force = choose("force", 2); bool t = as(3, [&] { return throws([&] { cv[3].make(true, S_("nm"), S_("ns"), verbose(), vlevel(), force); }); }); sx_assert(t == !force, "after a crash a server starts exactly when force_reconnection is given"); if (t) return; mk(4, false); as(4, [&] { CV::ScopedLock l = cv[4]->lock(); sx_assert(l.owns(), "the new lock is free"); return 0; }); sx_assert(mdl_mtx_held(mn()) == 0, "the new lock is free"); as(3, [&] { cv[3]->close(); return 0; }); sx_assert(!mdl_mtx_exists(mn()) && !mdl_cv_exists(cn()), "names removed"); sx_reach("end"); }
// free-standing mutex helpers
static void mtxUser(void *) { CV::NamedMutex m = CV::create_named_mutex("/own_mutex"); for (int i = 0; i < 2; i++) { CV::ScopedLock l = CV::lock(m); sx_assert(l.owns() && l.mutex() == &m, "the lock is on the given mutex"); sx_assert(++inside == 1, "the lock excludes every other holder"); int v = flag; inside--; sx_visible(0x7777, 1); inside++; flag = v + 1; inside--; if (i) CV::unlock(l); } }
ENTRY cv_mutex() { for (int i = 1; i <= 2; i++) sx_spawn(mtxUser, 0, i, 0); sx_assert(sx_join() == 0, "nobody is stuck"); sx_assert(flag == 4, "updates under the lock are not lost"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
ENTRY cv_paths() { setup(1); sx_assert(cv[1]->cond_var_path() == cv[2]->cond_var_path() && cv[1]->mutex_path() == cv[2]->mutex_path(), "both sides use the same names"); sx_assert(cv[1]->cond_var_path() != cv[1]->mutex_path(), "distinct names"); sx_assert(mdl_mtx_exists(cv[1]->mutex_path().c_str()) && mdl_cv_exists(cv[1]->cond_var_path().c_str()), "the reported names are the ones used"); sx_reach("end"); }
