// Bounded histories of server / client life-cycle calls against a reference model (C05-C11, C29).
#include "tensors.hpp"
#define CHECK(prop, cond, label) do { if (PROP == prop) sx_assert(cond, label); } while (0)
static int PROP;
typedef Server<int, RowMajor> Srv; typedef Client<int, RowMajor> Cli;
enum { S = 0, C1 = 1, C2 = 2, NOBODY = -1, CTOR = 9 };
static Slot<Srv> srv; static Slot<Cli> cl[3]; static const int PID[3] = {1, 2, 4};
static bool running, closed, att[3], cclosed[3], made[3]; static int holder, nrun; static Lock_ *lk; static int R = 2, C = 2; static uint32_t ref[4]; static bool safe_;
static bool everAttached[3];
static void mk(int c) { as(PID[c], [&] { cl[c].make(S_("nm"), S_("ns"), verbose(), vlevel(), safe_); return 0; }); made[c] = true; att[c] = false; cclosed[c] = false; }
template <class Ep> static void write1(int pid, Ep &e, bool active, int who) { // one cell
  Tensor<int> t(1, 1); uint32_t v = sx_sym_u32("value"); ((uint32_t *)t.data())[0] = v; bool ok = as(pid, [&] { return e.write(t, 1, 0); });
  if (!active) { CHECK(10, !ok, "a write on an inactive endpoint is refused"); return; }
  if (safe_ && holder != NOBODY) { CHECK(5, !ok, "a write while the lock is held is refused"); return; }
  CHECK(5, ok, "a write succeeds while nobody uses the lock"); CHECK(7, ok, "a write succeeds while nobody uses the lock"); if (ok) ref[2] = v; }
template <class Ep> static void read1(int pid, Ep &e, bool active, int who) {
  Tensor<int> t(2, 2); uint32_t *d = (uint32_t *)t.data(); for (int i = 0; i < 4; i++) d[i] = 77; bool ok = as(pid, [&] { return e.read(t, 0, 0); });
  if (!active) { CHECK(10, !ok, "a read on an inactive endpoint is refused"); CHECK(10, d[0] == 77 && d[3] == 77, "a refused read leaves the caller's memory unchanged"); return; }
  if (safe_ && holder != NOBODY) { CHECK(5, !ok, "a read while the lock is held is refused"); return; }
  CHECK(5, ok, "a read succeeds while nobody uses the lock"); if (ok) CHECK(7, same_bytes(d, ref, 16), "every party sees the latest write of every other party"); }
static int nAtt() { return (made[C1] && att[C1]) + (made[C2] && att[C2]); }
static void invariant() {
  if (running) CHECK(5, lk->free_() == (holder == NOBODY), "the data lock of a running server is free exactly when nobody is using it");
  CHECK(5, mdl_any_sem_max() <= 1, "no lock is ever released more often than acquired");
  CHECK(11, mdl_bad_closes() == 0, "nothing is closed that is not open"); CHECK(10, mdl_bad_closes() == 0, "calls in inactive states close nothing they do not own");
  CHECK(11, mdl_unlinks_by(2) == 0 && mdl_unlinks_by(4) == 0, "a client never removes a name");
  if (PROP == 9 && running && holder == NOBODY) CHECK(9, as(1, [&] { return srv->getNClients(); }) == nAtt(), "the client count equals the number of attached clients");
  for (int c = C1; c <= C2; c++) if (made[c]) { CHECK(10, cl[c]->isAttached() == att[c], "isAttached is truthful"); CHECK(9, cl[c]->isAttached() == att[c], "isAttached is truthful"); if (att[c]) CHECK(7, cl[c]->getNRows() == R && cl[c]->getNCols() == C, "an attached client reports the server's dimensions"); }
  CHECK(6, srv->isRunning() == running, "isRunning is truthful"); CHECK(10, srv->isRunning() == running, "isRunning is truthful"); }
enum Op { RUN, STOP, SCLOSE, ATT1, DET1, CLO1, ATT2, DET2, DES1, ACQ1, REL1, ACQS, RELS, WRS, RDS, WR1, RD1, MIS, NCL, NOP };
static bool enabled(int op) {
  bool freeL = holder == NOBODY;
  switch (op) {
    case RUN: return !closed && nrun < 3; case STOP: return true; case SCLOSE: return nAtt() == 0 || !running || true;
    case ATT1: case ATT2: return running && freeL && !closed;
    case DET1: return made[C1] && (!att[C1] || freeL); case DET2: return made[C2] && (!att[C2] || freeL); case CLO1: case DES1: return made[C1] && (!att[C1] || freeL);
    case ACQ1: return made[C1] && everAttached[C1] && !cclosed[C1] && att[C1] && freeL; case REL1: return holder == C1 && !cclosed[C1];
    case ACQS: return running && freeL; case RELS: return holder == S && !closed;
    case WRS: case RDS: return true; case WR1: case RD1: return made[C1]; case MIS: return running && freeL; case NCL: return running && freeL;
    default: return true; } }
static void attach(int c) {
  if (!made[c]) mk(c);
  as(PID[c], [&] { cl[c]->attach(); return 0; }); att[c] = true; cclosed[c] = false; everAttached[c] = true; CHECK(7, cl[c]->isAttached(), "the client is attached after attach"); }
template <class CT> static void mismatched() { static Slot<CT> m; bool t = as(5, [&] { m.make(S_("nm"), S_("ns"), false, VL::V0, true); return throws([&] { m->attach(); }); });
  CHECK(8, t, "a mismatched client gets an exception from attach"); CHECK(8, !m->isAttached(), "a mismatched client is not attached"); CHECK(8, lk->free_() == 1, "a rejected client leaves the data lock free"); CHECK(5, lk->free_() == 1, "a call that ended in an exception leaves the lock free");
  CHECK(8, same_bytes(lk->mem(), ref, 16) && lk->size() == 16, "a rejected client leaves the tensor as it was");
  as(5, [&] { m.destroy(); return 0; }); CHECK(11, mdl_open_fds(5) == 0 && mdl_sem_handles(5) == 0, "a rejected client returns everything on destruction"); if (PROP == 8) { sx_assert(lk->free_() == 1, "destroying a rejected client leaves the lock free"); sx_assert(as(1, [&] { return srv->getNClients(); }) == nAtt(), "a rejected client is not counted"); sx_reach("rejected"); } }
static void step(int op) {
  switch (op) {
    case RUN: as(1, [&] { srv->run(); return 0; }); running = true; if (nrun == 0) holder = NOBODY; nrun++; CHECK(6, srv->isRunning(), "run puts the server into the running state"); break;
    case STOP: as(1, [&] { srv->stop(); return 0; }); running = false; break;
    case SCLOSE: as(1, [&] { srv->close(); return 0; }); running = false; closed = true; CHECK(11, mdl_open_fds(1) == 0, "a closed server holds no file descriptor"); CHECK(11, mdl_sem_handles(1) == 0, "a closed server holds no semaphore");
      CHECK(11, !mdl_sem_exists(lk->data.c_str()) && !mdl_sem_exists(lk->srv.c_str()), "closing a server removes its locks' names"); CHECK(11, !mdl_shm_exists(lk->nclients.c_str()), "closing a server removes its metadata names"); break;
    case ATT1: attach(C1); break; case ATT2: attach(C2); break;
    case DET1: as(2, [&] { cl[C1]->detach(); return 0; }); att[C1] = false; break; case DET2: as(4, [&] { cl[C2]->detach(); return 0; }); att[C2] = false; break;
    case CLO1: as(2, [&] { cl[C1]->close(); return 0; }); att[C1] = false; cclosed[C1] = true; CHECK(11, mdl_open_fds(2) == 0 && mdl_sem_handles(2) == 0, "a closed client holds no descriptor or semaphore"); break;
    case DES1: as(2, [&] { cl[C1].destroy(); return 0; }); made[C1] = att[C1] = false; everAttached[C1] = false; CHECK(11, mdl_open_fds(2) == 0 && mdl_sem_handles(2) == 0, "a destroyed client holds no descriptor or semaphore"); break;
    case ACQ1: as(2, [&] { cl[C1]->dataSemAcquire(); return 0; }); holder = C1; break; case REL1: as(2, [&] { cl[C1]->dataSemRelease(); return 0; }); holder = NOBODY; break;
    case ACQS: as(1, [&] { srv->dataSemAcquire(); return 0; }); holder = S; break; case RELS: as(1, [&] { srv->dataSemRelease(); return 0; }); holder = NOBODY; break;
    case WRS: write1(1, *srv, running, S); break; case RDS: read1(1, *srv, running, S); break;
    case WR1: write1(2, *cl[C1], att[C1], C1); break; case RD1: read1(2, *cl[C1], att[C1], C1); break;
    case MIS: switch (choose("mismatch", 4)) { case 0: mismatched<Client<double, RowMajor>>(); break; case 1: mismatched<Client<int, ColMajor>>(); break; case 2: mismatched<Client<bool, RowMajor>>(); break; default: mismatched<Client<double, ColMajor>>(); } break;
    case NCL: { int n = as(1, [&] { return srv->getNClients(); }); CHECK(9, n == nAtt(), "the client count equals the number of attached clients"); break; }
    default: break; } }
static void history(bool startRunning, bool client) {
  PROP = sx_cfg("prop", 5); safe_ = sx_cfg("safe", 1); static Lock_ L; lk = &L; holder = CTOR; // a constructed server keeps the data lock until it runs
  as(1, [&] { srv.make(R, C, S_("nm"), S_("ns"), verbose(), vlevel(), false, safe_); return 0; });
  if (startRunning) { step(RUN); invariant(); } if (client) { step(ATT1); invariant(); }
  int depth = sx_cfg("depth", 4); unsigned mask = sx_cfg("ops", (1 << NOP) - 1);
  for (int d = 0; d < depth; d++) {
    unsigned o = sx_sym_u32("op"); unsigned m = 0; for (int i = 0; i < NOP; i++) if ((mask >> i & 1) && enabled(i) && !(closed && (i == WRS || i == RDS) && PROP != 10)) m |= 1u << i;
    if (!m) break; sx_assume(o < NOP && ((m >> (o & 31)) & 1)); int op = (int)sx_concretize(o);
    step(op); invariant(); }
  // closing down: everything comes back
  if (holder == C1 && made[C1] && !cclosed[C1]) step(REL1); if (holder == S && !closed && running) step(RELS);
  if (PROP == 11 || PROP == 10 || PROP == 9) {
    bool sfirst = PROP != 9 && choose("server_closes_first", 2); if (holder == S && nAtt()) sx_exit_thread();
    if (sfirst && !closed) step(SCLOSE); bool shm0 = mdl_shm_exists(lk->nclients.c_str()), sem0 = mdl_sem_exists(lk->data.c_str());
    for (int c = C1; c <= C2; c++) if (made[c]) { if (choose("close_before_destruction", 2)) { as(PID[c], [&] { cl[c]->close(); return 0; }); sx_assert(!cl[c]->isAttached(), "a closed client is not attached"); } as(PID[c], [&] { cl[c].destroy(); return 0; }); made[c] = att[c] = false; invariant(); CHECK(11, mdl_open_fds(PID[c]) == 0, "a destroyed client holds no descriptor"); CHECK(11, mdl_sem_handles(PID[c]) == 0, "a destroyed client holds no semaphore"); }
    CHECK(11, mdl_shm_exists(lk->nclients.c_str()) == shm0 && mdl_sem_exists(lk->data.c_str()) == sem0, "closing a client disturbs no name");
    if (!closed && choose("close_server", 2)) step(SCLOSE); as(1, [&] { srv.destroy(); return 0; }); CHECK(11, mdl_open_fds(1) == 0, "a destroyed server holds no descriptor"); CHECK(11, mdl_sem_handles(1) == 0, "a destroyed server holds no semaphore"); CHECK(11, mdl_bad_closes() == 0, "nothing is closed twice"); }
  sx_reach("end"); }
ENTRY hist0() { history(false, false); }
ENTRY hist1() { history(true, false); }
ENTRY hist2() { history(true, true); }

// C08: after a rejection other clients attach and exchange data
ENTRY mismatch_then_ok() {
  PROP = 8; safe_ = true; static Lock_ L; lk = &L; as(1, [&] { srv.make(R, C, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); return 0; }); step(RUN); holder = NOBODY;
  if (choose("other_client_before", 2)) step(ATT2); symfill((int *)lk->mem(), 4, "tensor"); memcpy(ref, lk->mem(), 16);
  step(MIS); if (choose("twice", 2)) step(MIS); PROP = 7; attach(C1); write1(2, *cl[C1], true, C1); read1(1, *srv, true, S); write1(1, *srv, true, S); read1(2, *cl[C1], true, C1); PROP = 8;
  sx_assert(as(1, [&] { return srv->getNClients(); }) == nAtt(), "client count after a rejection and a later attach"); sx_assert(lk->free_() == 1, "lock free at the end"); sx_reach("exchanged"); }
// C08, server of every type, client of every type
template <class ST, int SL, class CT, int CL> static void cross() {
  static Slot<Server<ST, SL>> s; static Slot<Client<CT, CL>> c; Lock_ L; int r = 1 + choose("rows", 2), k = 1 + choose("cols", 2), n = r * k; as(1, [&] { s.make(r, k, S_("nm"), S_("ns"), false, VL::V0, false, true); s->run(); return 0; });
  char before[64]; symfill((ST *)L.mem(), n, "tensor"); memcpy(before, L.mem(), sizeof(ST) * n);
  bool t = as(2, [&] { c.make(S_("nm"), S_("ns"), verbose(), vlevel(), true); return throws([&] { c->attach(); }); });
  bool bad = sizeof(ST) != sizeof(CT) || SL != CL;
  if (bad) { sx_assert(t, "a client of another element size or layout gets an exception"); sx_assert(!c->isAttached(), "and is not attached"); sx_reach("rejected"); } else { sx_assert(!t && c->isAttached(), "a matching client attaches"); sx_reach("accepted"); }
  sx_assert(L.free_() == 1, "the data lock is free afterwards"); sx_assert(L.size() == (long)sizeof(ST) * n && same_bytes(L.mem(), before, sizeof(ST) * n), "the tensor is as it was"); sx_assert(as(1, [&] { return s->getNClients(); }) == !bad, "the client count is right"); }
template <class ST, int SL> static void crossC() { switch (choose("client_type", 8)) { case 0: cross<ST, SL, float, RowMajor>(); break; case 1: cross<ST, SL, double, RowMajor>(); break; case 2: cross<ST, SL, int, RowMajor>(); break; case 3: cross<ST, SL, bool, RowMajor>(); break; case 4: cross<ST, SL, float, ColMajor>(); break; case 5: cross<ST, SL, double, ColMajor>(); break; case 6: cross<ST, SL, int, ColMajor>(); break; default: cross<ST, SL, bool, ColMajor>(); } }
ENTRY cross_types() { switch (choose("server_type", 8)) { case 0: crossC<float, RowMajor>(); break; case 1: crossC<double, RowMajor>(); break; case 2: crossC<int, RowMajor>(); break; case 3: crossC<bool, RowMajor>(); break; case 4: crossC<float, ColMajor>(); break; case 5: crossC<double, ColMajor>(); break; case 6: crossC<int, ColMajor>(); break; default: crossC<bool, ColMajor>(); } }

// C29: successive servers of one name
template <class T2, int L2> static void second(bool lateClient) {
  int r2 = 1 + choose("rows2", 3), c2 = 1 + choose("cols2", 3); static Slot<Server<T2, L2>> s2; static Slot<Client<T2, L2>> d; Lock_ L; bool force = choose("force", 2);
  as(3, [&] { s2.make(r2, c2, S_("nm"), S_("ns"), verbose(), vlevel(), force, true); s2->run(); return 0; });
  long n = (long)sizeof(T2) * r2 * c2; sx_assert(L.size() == n, "the new segment has exactly the new shape's size"); char z[128]; memset(z, 0, sizeof z); sx_assert(same_bytes(L.mem(), z, n), "a fresh server presents an all-zero tensor");
  sx_assert(as(3, [&] { return s2->getNClients(); }) == 0, "a fresh server reports no clients"); sx_assert(L.free_() == 1, "a fresh running server's lock is free");
  Tensor<T2, L2> t(r2, c2); memset(t.data(), 1, n); sx_assert(as(3, [&] { return s2->read(t, 0, 0); }), "a fresh server reads"); sx_assert(same_bytes(t.data(), z, n), "a fresh server reads zeros");
  if (lateClient && cl[C1].live) { as(2, [&] { cl[C1]->close(); return 0; }); sx_assert(as(3, [&] { return s2->getNClients(); }) == 0, "an old client leaving does not change the new server's count"); sx_assert(L.free_() == 1, "an old client leaving does not touch the new lock"); sx_assert(L.size() == n && same_bytes(L.mem(), z, n), "an old client leaving does not change the new tensor"); }
  as(5, [&] { d.make(S_("nm"), S_("ns"), false, VL::V0, true); d->attach(); return 0; }); sx_assert(d->getNRows() == r2 && d->getNCols() == c2, "a client sees the new shape"); memset(t.data(), 1, n);
  sx_assert(as(5, [&] { return d->read(t, 0, 0); }), "a client reads"); sx_assert(same_bytes(t.data(), z, n), "a client of the fresh server reads zeros"); sx_assert(as(3, [&] { return s2->getNClients(); }) == 1, "the new client is counted"); sx_reach("end"); }
ENTRY generations() {
  PROP = 0; safe_ = true; R = 1 + sx_cfg("rows1", 0); C = 2; static Lock_ L; lk = &L; as(1, [&] { srv.make(R, C, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); return 0; }); bool ran = choose("ran", 2); bool lateClient = false;
  if (ran) { step(RUN); holder = NOBODY; int k = choose("clients", 3); if (k >= 1) attach(C1); if (k == 2) attach(C2); symfill((int *)L.mem(), R * C, "old");
    if (k && choose("client_leaves_first", 2)) { as(2, [&] { cl[C1]->close(); return 0; }); cl[C1].live = false; } lateClient = choose("late", 2);
    if (choose("stop", 2)) step(STOP); }
  as(1, [&] { srv->close(); return 0; }); if (choose("destroy", 2)) as(1, [&] { srv.destroy(); return 0; });
  switch (sx_cfg("type2", 0)) { case 0: second<int, RowMajor>(lateClient); break; case 1: second<double, ColMajor>(lateClient); break; default: second<bool, RowMajor>(lateClient); } }

// C06: a second server on a name that is in use
static Slot<Srv> sB;
static void twoServers(int mode) {
  static Lock_ L; as(1, [&] { srv.make(2, 2, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); srv->run(); return 0; });
  bool t = as(3, [&] { return throws([&] { sB.make(2, 2, S_("nm"), S_("ns"), false, VL::V0, false, true); }); }); bool built = !t, ranB = false; sx_reach(built ? "second built" : "second refused");
  int depth = sx_cfg("depth", 4); bool a = true;
  for (int d = 0; d < depth; d++) { switch (choose("op", 4)) {
      case 0: if (!a) { bool e = as(1, [&] { return throws([&] { srv->run(); }); }); if (ranB) sx_assert(e, "a server that tries to run while another runs gets an exception"); else { sx_assert(!e, "a server can run when no other runs"); a = true; } } break;
      case 1: as(1, [&] { srv->stop(); return 0; }); a = false; break;
      case 2: if (built && !ranB) { bool e = as(3, [&] { return throws([&] { sB->run(); }); }); if (a) { sx_assert(e, "a second server that tries to run gets an exception"); sx_reach("refused"); } else { sx_assert(!e, "another server can run once the running one stopped"); ranB = true; sx_reach("taken over"); } } break;
      default: if (built) as(3, [&] { sB->stop(); return 0; }); ranB = false; }
    sx_assert(srv->isRunning() == a, "the first server's running state is truthful"); if (built) sx_assert(sB->isRunning() == ranB, "the second server's running state is truthful"); sx_assert(!(srv->isRunning() && built && sB->isRunning()), "at most one server of a name is running"); }
  sx_reach("end"); }
ENTRY two_servers() { twoServers(0); }
// what the construction of a second server does to the running one
ENTRY second_server_intrusion() {
  static Lock_ L; lk = &L; PROP = 0; safe_ = true; as(1, [&] { srv.make(2, 2, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); return 0; }); step(RUN); attach(C1); uint32_t v = sx_sym_u32("v"); Tensor<int> t(2, 2); ((uint32_t *)t.data())[3] = v; as(1, [&] { return srv->write(t, 0, 0); }); char *mem = L.mem();
  bool e1 = as(3, [&] { return throws([&] { sB.make(2, 2, S_("nm"), S_("ns"), false, VL::V0, false, true); }); }), e2 = true; if (!e1) e2 = as(3, [&] { return throws([&] { sB->run(); }); }); sx_assert(e1 || e2, "the second server is refused"); sx_assert(srv->isRunning(), "the first server still runs");
  switch (choose("aspect", 5)) {
    case 0: sx_assert(L.free_() == 1, "the refused server leaves the data lock free"); break;
    case 1: sx_assert(L.size() == 16 && (char *)mdl_shm_data(L.shm.c_str()) == mem, "the refused server leaves the tensor's name in place"); break;
    case 2: { unsigned char *cnt = (unsigned char *)mdl_shm_data(L.nclients.c_str()); sx_assert(cnt && *(int *)cnt == 1, "the refused server leaves the client count alone"); break; }
    case 3: { unsigned char *f = (unsigned char *)mdl_shm_data(L.run.c_str()); sx_assert(f && *f, "the refused server leaves the running flag alone"); break; }
    default: if (!e1) as(3, [&] { sB.destroy(); return 0; }); sx_assert(L.free_() == 1, "the running server's lock still exists after the refused one is destroyed"); sx_reach("end"); }
  Tensor<int> u(2, 2); sx_assert(as(2, [&] { return cl[C1]->read(u, 0, 0); }), "the attached client still reads"); sx_assert(((uint32_t *)u.data())[3] == v, "the attached client still sees the running server's data"); sx_reach("end"); }
// C05 with two servers taking turns on one memory, and clients that outlive either
ENTRY lock_two_servers() {
  static Lock_ L; lk = &L; PROP = 0; safe_ = true; as(1, [&] { srv.make(1, 2, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); srv->run(); return 0; }); for (int c = C1; c <= C2; c++) mk(c);
  if (choose("early_client", 2)) { as(PID[C1], [&] { cl[C1]->attach(); return 0; }); att[C1] = true; } as(1, [&] { srv->stop(); return 0; }); as(3, [&] { sB.make(1, 2, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); sB->run(); return 0; }); int run = 1; Slot<Srv> *sv[2] = {&srv, &sB}; const int sp[2] = {1, 3};
  for (int d = 0; d < sx_cfg("depth", 5); d++) {
    int op = choose("op", 8), i = op & 1; Srv &s = **sv[i]; Cli &c = *cl[C1 + i]; int cp = PID[C1 + i];
    switch (op >> 1) {
      case 0: if (run != i) { bool e = as(sp[i], [&] { return throws([&] { s.run(); }); }); sx_assert(e == (run >= 0), "a server runs exactly when no other does"); if (!e) run = i; } else { as(sp[i], [&] { s.stop(); return 0; }); run = -1; } break;
      case 1: if (att[C1 + i]) { as(cp, [&] { c.detach(); return 0; }); att[C1 + i] = false; } else if (run >= 0) { as(cp, [&] { c.attach(); return 0; }); att[C1 + i] = true; sx_assert(c.isAttached(), "attached"); } else sx_exit_thread(); break;
      case 2: if (run != i) sx_exit_thread(); as(sp[i], [&] { s.getNClients(); return 0; }); sx_reach("counted"); break;
      default: if (!att[C1 + i]) sx_exit_thread(); { Tensor<int> t(1, 2); ((uint32_t *)t.data())[0] = sx_sym_u32("w"); sx_assert(as(cp, [&] { return c.write(t, 0, 0); }), "an attached client writes while nobody uses the lock"); } }
    if (run >= 0) { sx_assert(L.free_() == 1, "the data lock of a running server is free when nobody is using it"); Tensor<int> t(1, 2), u(1, 2); ((uint32_t *)t.data())[1] = sx_sym_u32("v"); ((uint32_t *)t.data())[0] = 4; Srv &q = **sv[run]; sx_assert(as(sp[run], [&] { return q.write(t, 0, 0) && q.read(u, 0, 0); }), "the running server writes and reads"); sx_assert(same_bytes(t.data(), u.data(), 8), "and reads what it wrote"); }
    sx_assert(mdl_any_sem_max() <= 1, "no lock is ever released more often than acquired"); }
  sx_reach("end"); }
