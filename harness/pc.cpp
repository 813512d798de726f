// Producer and consumers (C16, C17, C18; inactive states for C10).
#include "tensors.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
enum { MAXC = 4 };
static Slot<Producer> prod; static Slot<Consumer> con[MAXC]; static const int CPID[MAXC] = {2, 3, 4, 5};
static int NC, rounds, tstart, tdone, consumed[MAXC], astart, adone, abase, pending; static bool pfin; static int cb, phase;
static int MS = 7; // the time-out of timed waits, any value (set by setup)
static int ticks() { return *(int *)mdl_shm_data(names_of("nmTrigger").mem_path.c_str()); }
static int acks() { return *(int *)mdl_shm_data(names_of("nmAck").mem_path.c_str()); }
static void mkp() { MS = (int)sym_range("ms", 1, 100000000); as(1, [&] { prod.make(S_("nm"), S_("ns"), verbose(), vlevel(), choose("force", sx_cfg("force", 1))); return 0; }); }
static void mkc(int i) { as(CPID[i], [&] { con[i].make(S_("nm"), S_("ns"), verbose(), vlevel()); return 0; }); }
static void setup(int n) { NC = n; mkp(); as(1, [&] { prod->run(); return 0; }); for (int i = 0; i < n; i++) { mkc(i); as(CPID[i], [&] { con[i]->run(); return 0; }); } }
static void trig() { tstart++; prod->trigger(); tdone++; }
// one wait; ghost bookkeeping
static bool waitc(int i, int ms) { int must = tdone > consumed[i]; bool r = con[i]->wait(ms); if (r) { consumed[i]++; sx_assert(consumed[i] <= tstart, "a wait returns true only if a trigger was issued that this consumer has not consumed"); } else { sx_assert(ms > 0, "a wait without timeout returns only with a trigger"); sx_assert(!must, "a trigger issued before the wait is not missed"); sx_reach("timed out"); } return r; }
static void acki(int i) { astart++; bool r = con[i]->ack(); sx_assert(r, "an acknowledgement of a running consumer is recorded"); adone++; }
static bool waitack(int n, int ms) { int done0 = adone; bool r = prod->wait_ack_from(n, ms); if (r) { sx_assert(astart - abase >= n, "the producer is released only after all acknowledgements were made"); sx_assert(done0 - abase <= n, "the producer is released by exactly the requested number"); abase += n; } else { sx_assert(ms > 0, "a wait without timeout returns only with all acknowledgements"); sx_assert(done0 - abase != n || adone != done0, "acknowledgements made before the wait are not missed"); sx_reach("ack timed out"); } return r; }
static void finish(int threads) { sx_assert(sx_join() == 0, "no wait misses its wake-up"); sx_assert(mdl_mtx_any_held() == 0 && mdl_bad_unlocks() == 0, "every lock is free at the end"); (void)threads; }
// ---- C16 / C17: rounds of trigger and acknowledgement, every interleaving
static void pRounds(void *) { for (int r = 0; r < rounds; r++) { trig(); if (sx_cfg("acks", 1)) sx_assert(waitack(NC, -1), "wait_ack_from without timeout returns true"); } pfin = true; }
static void cRounds(void *a) { int i = (int)(long)a; for (int r = 0; r < rounds; r++) { if (sx_cfg("wa", 0)) { astart++; bool c = false; bool ok = con[i]->wait_and_ack([&] { c = true; consumed[i]++; sx_assert(consumed[i] <= tstart, "the callback runs only after the trigger"); return true; }, -1); sx_assert(ok && c, "wait_and_ack returns true after trigger, callback and acknowledgement"); adone++; } else { sx_assert(waitc(i, -1), "a wait without timeout returns true"); if (sx_cfg("acks", 1)) acki(i); } } }
ENTRY rounds_() { rounds = sx_cfg("rounds", 1); setup(sx_cfg("consumers", 1)); mdl_faults(sx_cfg("spurious", 0), F_CV_SPURIOUS); sx_spawn(pRounds, 0, 1, 0); for (int i = 0; i < NC; i++) sx_spawn(cRounds, (void *)(long)i, CPID[i], 0); finish(0); mdl_faults(0, 0);
  for (int i = 0; i < NC; i++) { sx_assert(consumed[i] == rounds, "every trigger releases exactly one wait of every consumer"); sx_assert(!as(CPID[i], [&] { return con[i]->wait(MS); }), "a consumed trigger does not release another wait"); }
  sx_assert(ticks() == rounds, "the trigger counter counts the triggers"); if (sx_cfg("acks", 1)) { sx_assert(acks() == rounds * NC, "no acknowledgement is lost"); sx_assert(!as(1, [&] { return prod->wait_ack_from(NC, MS); }), "consumed acknowledgements do not release the producer again"); } sx_reach("end"); }
// ---- C16 / C18: one trigger against timed waits
static void pTrig(void *) { trig(); } static void cTimed(void *a) { int i = (int)(long)a; if (!waitc(i, MS) && sx_cfg("again", 1)) waitc(i, MS); }
ENTRY timed() { bool trigger = choose("trigger", 2); setup(sx_cfg("consumers", 1)); mdl_faults(sx_cfg("spurious", 0), F_CV_SPURIOUS); if (trigger) sx_spawn(pTrig, 0, 1, 0); for (int i = 0; i < NC; i++) sx_spawn(cTimed, (void *)(long)i, CPID[i], 0); finish(0); mdl_faults(0, 0);
  for (int i = 0; i < NC; i++) { sx_assert(consumed[i] <= trigger, "a wait returns true only with a trigger"); if (consumed[i]) sx_reach("released"); if (trigger && !consumed[i]) { sx_assert(as(CPID[i], [&] { return con[i]->wait(MS); }), "a trigger that came after a timeout releases the next wait"); sx_reach("released later"); } sx_assert(!as(CPID[i], [&] { return con[i]->wait(MS); }), "a trigger releases one wait only"); } sx_reach("end"); }
// the deadline handed to the condition variable is the one asked for
ENTRY deadline() { setup(1); int ms = (int)sym_range("ms", 1, 100000000); int n0 = mdl_cv_deadlines(); bool ackside = choose("side", 2); bool r = ackside ? as(1, [&] { return prod->wait_ack_from(1, ms); }) : as(2, [&] { return con[0]->wait(ms); }); sx_assert(!r, "nothing came: the timed wait returns false"); sx_assert(mdl_cv_deadlines() > n0, "a timed wait has a deadline"); sx_assert(mdl_cv_last_deadline() == (long long)ms * 1000, "a timed wait asks for the stated time"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
// ---- C17: concurrent acknowledgements
static void cAck(void *a) { int i = (int)(long)a; for (int r = 0; r < rounds; r++) acki(i); } static void pAck(void *) { sx_assert(waitack(NC * rounds, sx_cfg("timed", 0) ? MS : -1) || sx_cfg("timed", 0), "wait_ack_from without timeout returns true"); }
ENTRY acks_() { rounds = sx_cfg("rounds", 1); setup(sx_cfg("consumers", 2)); mdl_faults(sx_cfg("spurious", 0), F_CV_SPURIOUS); for (int i = 0; i < NC; i++) sx_spawn(cAck, (void *)(long)i, CPID[i], 0); if (sx_cfg("producer", 1)) sx_spawn(pAck, 0, 1, 0); finish(0); mdl_faults(0, 0);
  sx_assert(acks() == NC * rounds, "concurrent acknowledgements are never lost"); if (abase == 0) { sx_assert(as(1, [&] { return prod->wait_ack_from(NC * rounds, MS); }), "the producer is released once all acknowledgements were made"); } sx_assert(!as(1, [&] { return prod->wait_ack_from(NC * rounds, MS); }), "the same acknowledgements do not release it twice"); sx_reach("end"); }
// exact count, any number asked for
ENTRY ackcount() { setup(2); int base = 0, k = 0; for (int st = 0; st < sx_cfg("steps", 3); st++) { int add = choose("acks", 3); for (int j = 0; j < add; j++) { int w = choose("who", 2); sx_assert(as(CPID[w], [&] { return con[w]->ack(); }), "an acknowledgement is recorded"); } k += add;
    int n = (int)sx_sym_u32("n"); bool r = as(1, [&] { return prod->wait_ack_from(n, MS); }); int want = (k - base) == n; sx_assert(r == (bool)want, "wait_ack_from returns true exactly when that many acknowledgements were made since the last success"); if (r) { base = k; sx_reach("released"); } else sx_reach("not released"); }
  sx_assert(acks() == k, "the counter counts the acknowledgements"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
// ---- C18: wait_and_ack, one call against a possible trigger
static bool preR, waR, waDone; static void cWA(void *) { waR = con[0]->wait_and_ack([&] { cb++; sx_assert(tstart > 0, "the callback runs only after the trigger"); sx_assert(acks() == 0, "the acknowledgement comes after the callback"); return preR; }, phase ? -1 : MS); waDone = true; }
ENTRY waitack_() { bool trigger = choose("trigger", 2); bool blocking = trigger && choose("blocking", 2); setup(1); phase = blocking; preR = sym_bool("callback result"); if (choose("counters_left", 2)) { trig(); as(2, [&] { con[0]->wait(MS); return 0; }); tstart = tdone = 0; }
  mdl_faults(sx_cfg("spurious", 0), F_CV_SPURIOUS); if (trigger) sx_spawn(pTrig, 0, 1, 0); sx_spawn(cWA, 0, 2, 0); finish(0); mdl_faults(0, 0); sx_assert(waDone, "wait_and_ack returns");
  sx_assert(cb <= 1, "the callback runs at most once"); sx_assert(!cb || trigger, "the callback runs only after the trigger"); if (blocking) sx_assert(cb == 1, "a blocking wait_and_ack runs the callback"); sx_assert(acks() == cb, "one acknowledgement if the trigger arrived, none otherwise"); sx_assert(waR == (cb && preR), "wait_and_ack returns true exactly when trigger, callback and acknowledgement succeeded"); if (cb) sx_reach("callback ran"); else sx_reach("timed out"); sx_reach("end"); }
// sequences of wait_and_ack, wait, ack with symbolic callback results (state left by one call must not reach the next)
ENTRY waseq() { setup(1); int T = 0, used = 0, A = 0, N = sx_cfg("depth", 4); for (int k = 0; k < N; k++) { switch (choose("op", 4)) {
      case 0: if (T == used) { as(1, [&] { prod->trigger(); return 0; }); T++; } break;
      case 1: { bool r = as(2, [&] { return con[0]->wait(MS); }); sx_assert(r == (T > used), "a timed wait returns true exactly with an unconsumed trigger"); used = T; break; }
      case 2: { bool r = as(2, [&] { return con[0]->ack(); }); sx_assert(r, "an acknowledgement is recorded"); A++; break; }
      default: { bool p = sym_bool("callback result"); int c = 0; bool r = as(2, [&] { return con[0]->wait_and_ack([&] { c++; return p; }, MS); }); bool t = T > used; used = T; sx_assert(c == t, "the callback runs once, only after a trigger"); sx_assert(r == (t && p), "wait_and_ack returns true exactly when trigger, callback and acknowledgement succeeded"); A += t; } }
    sx_assert(acks() == A, "acknowledgements are recorded exactly once"); sx_assert(ticks() == T, "triggers are counted"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); } sx_reach("end"); }
// ---- several triggers before a wait: reported, not silently merged
ENTRY missed() { setup(1); int n = 2 + choose("triggers", 2); for (int i = 0; i < n; i++) as(1, [&] { prod->trigger(); return 0; }); bool r = false, t = as(2, [&] { return throws([&] { r = con[0]->wait(MS); }); }); sx_assert(t || r, "a wait with triggers outstanding does not report that none came"); if (!t) for (int i = 1; i < n; i++) sx_assert(as(2, [&] { return con[0]->wait(MS); }), "every trigger releases one wait"); sx_assert(mdl_mtx_any_held() == 0, "the lock is free"); sx_reach(t ? "reported" : "queued"); sx_reach("end"); }
// a consumer that joins after some triggers
ENTRY late() { setup(0); int n = sx_cfg("before", 2); for (int i = 0; i < n; i++) as(1, [&] { prod->trigger(); return 0; }); mkc(0); as(2, [&] { con[0]->run(); return 0; }); as(2, [&] { return throws([&] { con[0]->wait(MS); }); }); as(1, [&] { prod->trigger(); return 0; }); bool r = false; as(2, [&] { return throws([&] { r = con[0]->wait(MS); }); }); sx_assert(r, "a trigger issued while a late consumer runs releases its wait"); sx_reach("end"); }
// ---- C10: inactive producers and consumers
ENTRY pc_inactive() { bool p = choose("producer", 2); int st = choose("state", 4); /* 0 never run, 1 closed, 2 closed twice, 3 used then closed */ int before = 0, beforeA = 0;
  mkp(); mkc(0); mkc(1); if (!(p && st == 0)) { as(1, [&] { prod->run(); return 0; }); as(3, [&] { con[1]->run(); return 0; }); if (!(!p && st == 0)) as(2, [&] { con[0]->run(); return 0; }); if (st == 3) { as(1, [&] { prod->trigger(); return 0; }); as(2, [&] { con[0]->wait(MS); con[0]->ack(); return 0; }); as(1, [&] { return prod->wait_ack_from(1, MS); }); } }
  if (!p && choose("trigger_pending", st == 0 ? 1 : 2)) { as(1, [&] { prod->trigger(); return 0; }); }
  if (st) { if (p) as(1, [&] { prod->close(); if (st == 2) prod->close(); return 0; }); else as(2, [&] { con[0]->close(); if (st == 2) con[0]->close(); return 0; }); }
  int *tp = (int *)mdl_shm_data(names_of("nmTrigger").mem_path.c_str()), *ap = (int *)mdl_shm_data(names_of("nmAck").mem_path.c_str()); if (tp) before = *tp; if (ap) beforeA = *ap; int called = 0; int ms = choose("timed", 2) ? MS : -1; int b0 = mdl_blocked_waits(); int what = choose("op", p ? 2 : 3); bool r = false, t;
  if (p) t = as(1, [&] { return throws([&] { if (what) r = prod->wait_ack_from((int)sx_sym_u32("n"), ms); else { prod->trigger(); r = true; } }); });
  else t = as(2, [&] { return throws([&] { r = what == 0 ? con[0]->wait(ms) : what == 1 ? con[0]->ack() : con[0]->wait_and_ack([&] { called++; return true; }, ms); }); });
  sx_assert(t || !r, "an inactive producer or consumer refuses"); sx_assert(!called, "an inactive consumer does not call back"); sx_assert(mdl_blocked_waits() == b0, "an inactive producer or consumer does not wait"); sx_assert(mdl_mtx_any_held() == 0, "no lock is left held"); if (tp) sx_assert(*tp == before, "the trigger counter is unchanged"); if (ap) sx_assert(*ap == beforeA, "the acknowledge counter is unchanged");
  as(2, [&] { con[0]->close(); con[0].destroy(); return 0; }); as(3, [&] { con[1].destroy(); return 0; }); as(1, [&] { prod->close(); prod.destroy(); return 0; }); for (int i = 1; i <= 3; i++) sx_assert(mdl_open_fds(i) == 0 && mdl_sem_handles(i) == 0, "everything is released"); sx_assert(mdl_bad_closes() == 0, "nothing is closed twice"); sx_reach("end"); }
// ---- restart: close and destroy both, then a second generation under the same name
ENTRY pc_generations() { setup(1); int n = choose("triggers", 3); for (int i = 0; i < n; i++) { as(1, [&] { prod->trigger(); return 0; }); if (choose("consume", 2) || i < n - 1) as(2, [&] { con[0]->wait_and_ack([] { return true; }, MS); return 0; }); }
  bool cfirst = choose("consumer_first", 2); if (cfirst) as(2, [&] { con[0].destroy(); return 0; }); bool crash = choose("crash", 2); if (crash) { if (!cfirst) mdl_process_exit(2); mdl_process_exit(1); } else { as(1, [&] { prod.destroy(); return 0; }); if (!cfirst) as(2, [&] { con[0].destroy(); return 0; }); for (const char *n : {"nmTriggerCond", "nmAckCond"}) sx_assert(!mdl_mtx_exists(names_of(n).mem_path_cond_var_mutex.c_str()) && !mdl_cv_exists(names_of(n).mem_path_cond_var.c_str()), "the names of mutexes and condition variables are removed"); }
  static Slot<Producer> p2; static Slot<Consumer> c2; as(3, [&] { p2.make(S_("nm"), S_("ns"), false, VL::V0, crash); p2->run(); return 0; }); as(4, [&] { c2.make(S_("nm"), S_("ns"), false, VL::V0); c2->run(); return 0; });
  sx_assert(!as(4, [&] { return c2->wait(MS); }), "a new generation starts without triggers"); sx_assert(!as(3, [&] { return p2->wait_ack_from(1, MS); }), "a new generation starts without acknowledgements"); as(3, [&] { p2->trigger(); return 0; }); sx_assert(as(4, [&] { return c2->wait_and_ack([] { return true; }, MS); }), "a new generation triggers and acknowledges"); sx_assert(as(3, [&] { return p2->wait_ack_from(1, MS); }), "a new generation counts acknowledgements"); sx_reach("end"); }
// ---- start-up in any order, every interleaving
static void stP(void *) { prod->run(); pfin = true; } static void stC(void *a) { int i = (int)(long)a; con[i]->run(); consumed[i] = 100; }
ENTRY pc_startup() { NC = sx_cfg("consumers", 1); mkp(); for (int i = 0; i < NC; i++) { mkc(i); sx_spawn(stC, (void *)(long)i, CPID[i], 0); } sx_spawn(stP, 0, 1, 0); finish(0); sx_assert(pfin, "run returns"); as(1, [&] { prod->trigger(); return 0; }); for (int i = 0; i < NC; i++) { sx_assert(as(CPID[i], [&] { return con[i]->wait(MS); }), "the first trigger after start-up releases every consumer"); sx_assert(as(CPID[i], [&] { return con[i]->ack(); }), "ack"); } sx_assert(as(1, [&] { return prod->wait_ack_from(NC, MS); }), "the first acknowledgements after start-up are counted"); sx_reach("end"); }
// ---- C16 / C17: long histories (counters beyond 8 bits) and any number of acknowledgements
ENTRY pc_long() { setup(sx_cfg("consumers", 2)); int N = sx_cfg("rounds", 300), owed = 0; bool late = choose("acknowledgements collected at the end", 2);
  for (int r = 0; r < N; r++) { as(1, [&] { prod->trigger(); return 0; }); for (int i = 0; i < NC; i++) { sx_assert(as(CPID[i], [&] { return con[i]->wait(5); }), "every trigger of a long run releases its wait"); sx_assert(as(CPID[i], [&] { return con[i]->ack(); }), "every acknowledgement of a long run is recorded"); } owed += NC; if (!late) { sx_assert(as(1, [&] { return prod->wait_ack_from(owed, 5); }), "the producer is released by every round of a long run"); owed = 0; } }
  if (late) { sx_assert(!as(1, [&] { return prod->wait_ack_from(owed - 256, 5); }) && !as(1, [&] { return prod->wait_ack_from(owed - 1, 5); }), "the producer is not released by another number of acknowledgements"); sx_assert(as(1, [&] { return prod->wait_ack_from(owed, 5); }), "the producer is released by the acknowledgements of a whole run"); }
  sx_assert(!as(CPID[0], [&] { return con[0]->wait(5); }), "no trigger is left"); sx_assert(ticks() == N && acks() == N * NC, "the counters count"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
// the shared counter after any number of acknowledgements K (the only thing acknowledgements leave behind), then a few more
ENTRY ackany() { setup(1); unsigned K = sx_sym_u32("acknowledgements made"); sx_assume(K < 0x7ffffff0u); *(int *)mdl_shm_data(names_of("nmAck").mem_path.c_str()) = (int)K; int n = (int)sx_sym_u32("n"); bool r = as(1, [&] { return prod->wait_ack_from(n, MS); }); sx_assert(r == (n == (int)K), "wait_ack_from returns true exactly for the number of acknowledgements made"); int base = r ? (int)K : 0, more = choose("more", 3);
  for (int j = 0; j < more; j++) sx_assert(as(2, [&] { return con[0]->ack(); }), "an acknowledgement is recorded"); sx_assert(acks() == (int)K + more, "the counter counts"); int m = (int)sx_sym_u32("m"); r = as(1, [&] { return prod->wait_ack_from(m, MS); }); sx_assert(r == (m == (int)K + more - base), "wait_ack_from counts from the last success"); sx_reach(r ? "released" : "not released"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
// ---- C18: a callback that throws: nothing is acknowledged, nothing stays locked, the next round works
ENTRY wa_throw() { setup(1); int rep = 1 + choose("throws", 2); bool blocking = choose("blocking", 2);
  for (int k = 0; k < rep; k++) { as(1, [&] { prod->trigger(); return 0; }); bool out = false; try { as(2, [&] { return con[0]->wait_and_ack([&]() -> bool { throw 42; }, blocking ? -1 : MS); }); } catch (int x) { out = x == 42; } sx_assert(out, "an exception of the callback reaches the caller"); sx_assert(acks() == 0, "a callback that throws is not acknowledged"); sx_assert(mdl_mtx_any_held() == 0, "a callback that throws leaves every lock free"); }
  sx_assert(!as(1, [&] { return prod->wait_ack_from(1, MS); }), "no acknowledgement was made"); as(1, [&] { prod->trigger(); return 0; }); int n = 0; sx_assert(as(2, [&] { return con[0]->wait_and_ack([&] { n++; return true; }, MS); }) && n == 1, "the round after a throwing callback works"); sx_assert(as(1, [&] { return prod->wait_ack_from(1, MS); }), "and is acknowledged once"); sx_assert(mdl_mtx_any_held() == 0, "locks free"); sx_reach("end"); }
