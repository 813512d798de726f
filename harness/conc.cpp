// Concurrent endpoints: every interleaving of the shared-memory and semaphore operations (C03-C07, C09, C30).
#include "tensors.hpp"
typedef int T_; enum { LY = RowMajor };
static Slot<Server<int>> srv, srv2; static Slot<Client<int>> cl[4]; static Lock_ *lk;
static const int PID[4] = {1, 2, 3, 4};
static void setup(int r, int c, int nclients, bool ssafe, bool csafe) { static Lock_ L; lk = &L; as(1, [&] { srv.make(r, c, S_("nm"), S_("ns"), false, VL::V0, false, ssafe); srv->run(); return 0; });
  for (int i = 1; i <= nclients; i++) as(PID[i], [&] { cl[i].make(S_("nm"), S_("ns"), false, VL::V0, csafe); cl[i]->attach(); return 0; }); }
static bool wr(int who, const Tensor<int> &t, bool ref) { Tensor<int> x = t; if (ref) return who ? cl[who]->write(x, 0, 0) : srv->write(x, 0, 0); TensorView<int> v(x.data(), x.rows(), x.cols(), DStrides(x.cols(), 1)); return who ? cl[who]->write(v, 0, 0) : srv->write(v, 0, 0); }
static bool rd(int who, Tensor<int> &x, bool ref) { if (ref) return who ? cl[who]->read(x, 0, 0) : srv->read(x, 0, 0); TensorView<int> v(x.data(), x.rows(), x.cols(), DStrides(x.cols(), 1)); return who ? cl[who]->read(v, 0, 0) : srv->read(v, 0, 0); }
// ---- C03: torn data
static int N; static int nops; static uint32_t val[4][3]; static bool okw[4][3]; static int inCrit; static bool api; static int wok, rok;
static void writer(void *a) { int who = (int)(long)a; for (int k = 0; k < nops; k++) { Tensor<int> t(1, N); for (int i = 0; i < N; i++) ((uint32_t *)t.data())[i] = val[who][k]; okw[who][k] = wr(who, t, api); wok += okw[who][k]; } }
static void reader(void *a) { int who = (int)(long)a; for (int k = 0; k < nops; k++) { Tensor<int> t(1, N); uint32_t *d = (uint32_t *)t.data(); for (int i = 0; i < N; i++) d[i] = 5 + i; bool ok = rd(who, t, api); int eq = 1, same = 1; for (int i = 1; i < N; i++) eq &= d[i] == d[0]; for (int i = 0; i < N; i++) same &= d[i] == (uint32_t)(5 + i); rok += ok;
    if (ok) { sx_assert(eq, "a successful read never sees a partial write"); unsigned known = d[0] == 0; for (int w = 0; w < 4; w++) for (int j = 0; j < nops; j++) known |= d[0] == val[w][j]; sx_assert(known & 1, "a successful read returns a value that was written"); } else sx_assert(same, "a failed read leaves the caller's buffer unchanged"); } }
ENTRY torn() {
  N = sx_cfg("cells", 2); nops = sx_cfg("nops", 1); int nw = sx_cfg("writers", 2), nr = sx_cfg("readers", 1); api = sx_cfg("ref", 1); setup(1, N, nw + nr - 1, true, true);
  for (int w = 0; w < nw; w++) for (int k = 0; k < nops; k++) val[w][k] = sx_sym_u32("value");
  int rot = sx_cfg("server_reads", 0); // which role the server has
  for (int i = 0; i < nw + nr; i++) { bool isr = rot ? i < nr : i >= nw; if (isr) sx_spawn(reader, (void *)(long)i, PID[i], 0); else { for (int k = 0; k < nops; k++) val[i][k] = sx_sym_u32("value"); sx_spawn(writer, (void *)(long)i, PID[i], 0); } }
  sx_assert(sx_join() == 0, "no read or write waits"); uint32_t *m = (uint32_t *)lk->mem(); int eq = 1; for (int i = 1; i < N; i++) eq &= m[i] == m[0]; sx_assert(eq, "two successful writes never interleave"); sx_assert(lk->free_() == 1, "the data lock is free at the end"); sx_assert(mdl_any_sem_max() <= 1, "the lock is never released more often than acquired"); sx_assert(mdl_blocked_waits() == 0, "no read or write waits for the lock");
  if (nw + nr == 1) sx_assert(wok + rok == nops, "alone"); sx_assert(wok + rok > 0, "some operation succeeds"); if (wok == nw * nops && rok == nr * nops) sx_reach("all succeeded"); if (wok + rok < (nw + nr) * nops) sx_reach("some refused"); sx_reach("end"); }
// ---- C30 / C05: manual lock
static int inside, rounds, viol, refused; static bool readerDone;
static void locker(void *a) { int who = (int)(long)a; for (int k = 0; k < rounds; k++) {
    if (who) cl[who]->dataSemAcquire(); else srv->dataSemAcquire();
    inside++; sx_assert(inside == 1, "no two parties hold the data lock at once");
    Tensor<int> t(1, 2); bool ok = rd(who, t, true); sx_assert(ok, "an unsafe endpoint reads under the manual lock"); ((uint32_t *)t.data())[0] += 1; ((uint32_t *)t.data())[1] += 1; ok = wr(who, t, true); sx_assert(ok, "an unsafe endpoint writes under the manual lock");
    sx_assert(inside == 1, "no two parties hold the data lock at once"); inside--;
    if (who) cl[who]->dataSemRelease(); else srv->dataSemRelease(); } }
static Slot<Client<int>> safeC; static bool isW; static int viaView, viaSrv;
static bool trd(Tensor<int> &x) { TensorView<int> v(x.data(), x.rows(), x.cols(), DStrides(x.cols(), 1)); if (viaSrv) return viaView ? srv->read(v, 0, 0) : srv->read(x, 0, 0); return viaView ? safeC->read(v, 0, 0) : safeC->read(x, 0, 0); }
static bool twr(Tensor<int> &x) { TensorView<int> v(x.data(), x.rows(), x.cols(), DStrides(x.cols(), 1)); if (viaSrv) return viaView ? srv->write(v, 0, 0) : srv->write(x, 0, 0); return viaView ? safeC->write(v, 0, 0) : safeC->write(x, 0, 0); }
static void intruder(void *) { for (int k = 0; k < sx_cfg("tries", 1); k++) { Tensor<int> t(1, 2); uint32_t *d = (uint32_t *)t.data(); d[0] = d[1] = 100; bool ok; if (isW) { ok = trd(t); if (ok) sx_assert(d[0] == d[1], "a safe read never sees the middle of a section under the manual lock"); } else ok = twr(t); sx_assert(!ok || mdl_any_sem_max() <= 1, "the lock is conserved"); if (!ok) refused++; else rok++; } }
ENTRY manual() {
  rounds = sx_cfg("rounds", 1); int n = sx_cfg("lockers", 2), first = 0; viaView = sx_cfg("view", 0); viaSrv = sx_cfg("server", 0); first = viaSrv; setup(1, 2, 3, viaSrv, false); isW = sx_cfg("intruder_reads", 1); bool intr = sx_cfg("intruder", 1);
  if (intr && !viaSrv) as(5, [&] { safeC.make(S_("nm"), S_("ns"), false, VL::V0, true); safeC->attach(); return 0; });
  uint32_t v0 = sx_sym_u32("initial"); ((uint32_t *)lk->mem())[0] = v0; ((uint32_t *)lk->mem())[1] = v0;
  for (int i = first; i < first + n; i++) sx_spawn(locker, (void *)(long)i, PID[i], 0); if (intr) sx_spawn(intruder, 0, viaSrv ? PID[0] : 5, 0);
  sx_assert(sx_join() == 0, "after the release a waiting party proceeds"); uint32_t *m = (uint32_t *)lk->mem();
  if (!intr || isW) sx_assert((m[0] == v0 + n * rounds) & (m[1] == v0 + n * rounds), "a read-modify-write under the manual lock is never interleaved"); else sx_assert(m[0] == m[1], "a safe write never lands inside a section under the manual lock");
  sx_assert(lk->free_() == 1 && mdl_any_sem_max() <= 1, "the lock is conserved"); if (refused) sx_reach("refused"); if (rok) sx_reach("granted"); if (mdl_blocked_waits()) sx_reach("waited"); sx_reach("end"); }
// a party that holds the lock excludes safe operations (checked against the ghost holder, with the server as the safe party)
static void holderT(void *) { cl[1]->dataSemAcquire(); inside = 1; Tensor<int> t(1, 1); ((uint32_t *)t.data())[0] = 1; cl[1]->write(t, 0, 0); ((uint32_t *)t.data())[0] = 2; cl[1]->write(t, 0, 0); inside = 0; cl[1]->dataSemRelease(); }
static void safeSrv(void *) { for (int k = 0; k < 2; k++) { Tensor<int> t(1, 1); uint32_t *d = (uint32_t *)t.data(); d[0] = 9; bool ok = srv->read(t, 0, 0); if (ok) { sx_assert((d[0] == 0) | (d[0] == 2), "no safe read succeeds between a manual acquisition and its release"); rok++; } else { refused++; sx_assert(d[0] == 9, "a refused read leaves the buffer alone"); } } }
ENTRY manual_vs_safe() { static Lock_ L; lk = &L; as(1, [&] { srv.make(1, 1, S_("nm"), S_("ns"), false, VL::V0, false, true); srv->run(); return 0; }); as(2, [&] { cl[1].make(S_("nm"), S_("ns"), false, VL::V0, false); cl[1]->attach(); return 0; });
  sx_spawn(holderT, 0, 2, 0); sx_spawn(safeSrv, 0, 1, 0); sx_assert(sx_join() == 0, "nobody waits for ever"); sx_assert(lk->free_() == 1, "lock free at the end"); if (refused) sx_reach("refused"); if (rok) sx_reach("granted"); sx_reach("end"); }
// ---- C07: start-up in any order
static bool sran, catt[4]; static int delay; static uint32_t w1, w2;
static void startServer(void *) { srv.make(2, 3, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); if (sx_cfg("yield", 0)) { struct timespec ts = {0, 1000}; (void)ts; } sran = true; srv->run(); }
static void startClient(void *a) { int who = (int)(long)a; cl[who].make(S_("nm"), S_("ns"), verbose(), vlevel(), true); cl[who]->attach(); catt[who] = true; sx_assert(sran, "attach returns only after a server is running"); sx_assert(*(volatile unsigned char *)mdl_shm_data(lk->run.c_str()) != 0, "attach returns only after a server is running (flag)"); sx_assert(cl[who]->isAttached(), "the client is attached"); sx_assert(cl[who]->getNRows() == 2 && cl[who]->getNCols() == 3, "the client reports the server's dimensions"); }
ENTRY startup() { static Lock_ L; lk = &L; int n = sx_cfg("clients", 1); for (int i = 1; i <= n; i++) sx_spawn(startClient, (void *)(long)i, PID[i], 0); sx_spawn(startServer, 0, 1, 0);
  sx_assert(sx_join() == 0, "if the server runs, a pending attach completes"); for (int i = 1; i <= n; i++) sx_assert(catt[i], "every client attaches"); sx_assert(srv->isRunning(), "the server runs"); sx_assert(lk->free_() == 1 && mdl_any_sem_max() <= 1, "the data lock is free once everybody is attached"); sx_assert(as(1, [&] { return srv->getNClients(); }) == n, "every attached client is counted");
  Tensor<int> t(2, 3), u(2, 3); for (int i = 0; i < 6; i++) ((uint32_t *)t.data())[i] = sx_sym_u32("v"); sx_assert(as(1, [&] { return srv->write(t, 0, 0); }), "server writes");
  for (int i = 1; i <= n; i++) { sx_assert(as(PID[i], [&] { return cl[i]->read(u, 0, 0); }), "client reads"); sx_assert(same_bytes(t.data(), u.data(), 24), "the client sees the server's write"); ((uint32_t *)t.data())[i] = sx_sym_u32("w"); sx_assert(as(PID[i], [&] { return cl[i]->write(t, 0, 0); }), "client writes"); sx_assert(as(1, [&] { return srv->read(u, 0, 0); }), "server reads"); sx_assert(same_bytes(t.data(), u.data(), 24), "the server sees the client's write"); }
  sx_reach("end"); }
// data exchanged while starting up: the client writes as soon as it is attached, the server as soon as it runs
static void startServerW(void *) { startServer(0); Tensor<int> t(1, 1); ((uint32_t *)t.data())[0] = w1; wok = srv->write(t, 0, 0); }
static void startClientW(void *) { startClient((void *)1L); Tensor<int> t(1, 1); ((uint32_t *)t.data())[0] = w2; rok = cl[1]->write(t, 1, 2); }
ENTRY startup_exchange() { static Lock_ L; lk = &L; w1 = sx_sym_u32("w1"); w2 = sx_sym_u32("w2"); sx_spawn(startServerW, 0, 1, 0); sx_spawn(startClientW, 0, 2, 0); sx_assert(sx_join() == 0, "if the server runs, a pending attach completes"); Tensor<int> u(2, 3); sx_assert(as(1, [&] { return srv->read(u, 0, 0); }), "server reads"); uint32_t *d = (uint32_t *)u.data(); sx_assert(d[0] == (wok ? w1 : 0u), "the server's early write is in the tensor exactly if it succeeded"); sx_assert(d[5] == (rok ? w2 : 0u), "the client's early write is in the tensor exactly if it succeeded"); sx_reach("end"); }
// a server that starts late: the client has polled `polls` times before the server is built and as often again before it runs
static void lateRun() { as(1, [&] { srv->run(); sran = true; return 0; }); }
static void lateMake() { as(1, [&] { srv.make(2, 3, S_("nm"), S_("ns"), false, VL::V0, false, true); return 0; }); mdl_after_sleeps(sx_cfg("polls", 3000), lateRun); }
ENTRY startup_late() { static Lock_ L; lk = &L; int n = sx_cfg("polls", 3000); bool built = choose("built", 2); if (built) { as(1, [&] { srv.make(2, 3, S_("nm"), S_("ns"), false, VL::V0, false, true); return 0; }); mdl_after_sleeps(n, lateRun); } else mdl_after_sleeps(n, lateMake); as(PID[1], [&] { startClient((void *)1L); return 0; }); sx_assert(catt[1], "however long it has to wait, a pending attach completes"); sx_assert(lk->free_() == 1, "the data lock is free"); sx_assert(as(1, [&] { return srv->getNClients(); }) == 1, "the client is counted"); sx_reach("end"); }
// ---- C09: concurrent attach / detach
static int seen, script[4];
static void comer(void *a) { int who = (int)(long)a; if (!cl[who].live) cl[who].make(S_("nm"), S_("ns"), false, VL::V0, true); switch (script[who]) { case 0: cl[who]->attach(); break; case 1: cl[who]->attach(); cl[who]->detach(); break; case 2: cl[who]->detach(); break; case 3: cl[who]->close(); break; case 4: cl[who]->attach(); cl[who]->close(); break; case 5: cl[who].destroy(); break; default: cl[who]->detach(); cl[who]->attach(); } }
static void counter(void *) { seen = srv->getNClients(); }
ENTRY counting() { setup(1, 1, 0, true, true); int n = sx_cfg("clients", 2), expect = 0, lo = 0, hi = 0; for (int i = 1; i <= n; i++) { script[i] = choose("script", 7); bool before = script[i] == 2 || script[i] == 3 || script[i] == 5 || script[i] == 6; if (before) as(PID[i], [&] { cl[i].make(S_("nm"), S_("ns"), false, VL::V0, true); cl[i]->attach(); return 0; }); bool after = script[i] == 0 || script[i] == 6; expect += after; lo += before && after && script[i] != 6; hi += 1; }
  for (int i = 1; i <= n; i++) sx_spawn(comer, (void *)(long)i, PID[i], 0); if (sx_cfg("count", 0)) sx_spawn(counter, 0, 1, 0);
  sx_assert(sx_join() == 0, "attach and detach complete"); sx_assert(seen >= 0 && seen <= n, "the client count stays between zero and the number of clients"); sx_assert(as(1, [&] { return srv->getNClients(); }) == expect, "the client count equals the number of attached clients"); sx_assert(lk->free_() == 1 && mdl_any_sem_max() <= 1, "the data lock is conserved"); sx_reach("end"); }
// ---- C06: racing servers
static bool aRan, bRan, aExc, bExc, aStopped;
static void stopRun(void *) { srv->stop(); aRan = false; if (sx_cfg("rerun", 1)) { try { srv->run(); aRan = true; sx_assert(!bRan, "two servers run at once"); } catch (std::exception &) { aExc = true; } } }
static void runB(void *) { try { srv2->run(); bRan = true; sx_assert(!aRan, "two servers run at once"); } catch (std::exception &) { bExc = true; } }
ENTRY takeover() { setup(1, 1, 0, true, true); aRan = true; as(3, [&] { srv2.make(1, 1, S_("nm"), S_("ns"), false, VL::V0, false, true); return 0; });
  sx_spawn(stopRun, 0, 1, 0); sx_spawn(runB, 0, 3, 0); sx_assert(sx_join() == 0, "no server hangs"); sx_assert(!(srv->isRunning() && srv2->isRunning()), "at most one server of a name is running"); sx_assert(srv->isRunning() == aRan && srv2->isRunning() == bRan, "isRunning is truthful"); sx_assert(!(aExc && bExc), "one of the servers gets to run"); if (!srv->isRunning() && !srv2->isRunning()) { bool e = as(3, [&] { return throws([&] { srv2->run(); }); }); sx_assert(!e, "a server can run when no other runs"); sx_reach("late"); } if (bRan) sx_reach("second runs"); if (bExc) sx_reach("second refused"); sx_reach("end"); }
static void mkA(void *) { try { srv.make(1, 1, S_("nm"), S_("ns"), false, VL::V0, false, true); srv->run(); aRan = true; } catch (std::exception &) { aExc = true; } }
static void mkB(void *) { try { srv2.make(1, 1, S_("nm"), S_("ns"), false, VL::V0, false, true); srv2->run(); bRan = true; } catch (std::exception &) { bExc = true; } }
ENTRY race_construct() { static Lock_ L; lk = &L; sx_spawn(mkA, 0, 1, 0); sx_spawn(mkB, 0, 3, 0); sx_assert(sx_join() == 0, "no server hangs"); sx_assert(!(aRan && bRan), "at most one server of a name is running"); sx_assert(aRan || bRan, "one of two racing servers gets to run"); sx_reach("end"); }
