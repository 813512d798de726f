// System calls that fail while a server or client is set up (C13).
#include "tensors.hpp"
static Slot<Server<int>> srv, srv2; static Slot<Client<int>> cl, cl2; static Lock_ *lk;
enum { ALLF = F_SHM_OPEN | F_FTRUNCATE | F_MMAP | F_SEM_OPEN };
static void exchange(int sp, Server<int> &s, int cp, Client<int> &c, int r, int cc) { Tensor<int> t(r, cc), u(r, cc);
  symfill(t.data(), r * cc, "a"); sx_assert(as(sp, [&] { return s.write(t, 0, 0); }), "an accepted server writes"); sx_assert(as(cp, [&] { return c.read(u, 0, 0); }), "an accepted client reads"); sx_assert(same_bytes(t.data(), u.data(), 4 * r * cc), "the client sees the server's data");
  symfill(t.data(), r * cc, "b"); sx_assert(as(cp, [&] { return c.write(t, 0, 0); }), "an accepted client writes"); sx_assert(as(sp, [&] { return s.read(u, 0, 0); }), "an accepted server reads"); sx_assert(same_bytes(t.data(), u.data(), 4 * r * cc), "the server sees the client's data"); sx_assert(as(sp, [&] { return s.getNClients(); }) == 1, "the client is counted"); }
static void freshClient(int sp, Server<int> &s) { as(4, [&] { cl2.make(S_("nm"), S_("ns"), false, VL::V0, true); cl2->attach(); return 0; }); sx_assert(cl2->getNRows() == 2 && cl2->getNCols() == 3, "a client sees the shape"); exchange(sp, s, 4, *cl2, 2, 3); }
ENTRY server_faults() {
  static Lock_ L; lk = &L; bool force = choose("force", 2), safe = true; int kinds = sx_cfg("kinds", ALLF | F_TIMED_EINTR); int stage = 0; bool stale = choose("stale_data", 2);
  if (stale) { as(5, [&] { srv2.make(1, 1, S_("nm"), S_("ns"), false, VL::V0, false, true); return 0; }); as(5, [&] { srv2->run(); srv2->close(); return 0; }); }
  mdl_faults(sx_cfg("budget", 1), kinds); bool t = as(1, [&] { return throws([&] { srv.make(2, 3, S_("nm"), S_("ns"), verbose(), vlevel(), force, safe); stage = 1; srv->run(); stage = 2; }); }); int used = mdl_faults_used(); mdl_faults(0, 0);
  if (!t) { sx_assert(srv->isRunning(), "a server whose run returned is running"); sx_assert(lk->size() == 24, "an accepted server has its whole tensor"); sx_assert(lk->free_() == 1, "an accepted server's lock is free"); freshClient(1, *srv); sx_reach(used ? "fault survived" : "no fault"); }
  else { sx_assert(used > 0, "without a failing system call set-up succeeds"); int v = lk->free_(); sx_assert(v != 0, "a failed set-up does not leave the data lock held"); sx_reach(stage ? "run failed" : "constructor failed"); if (stage) { sx_assert(!srv->isRunning(), "a server whose run failed is not running"); if (choose("retry", 2)) { bool u = as(1, [&] { return throws([&] { srv->run(); }); }); sx_assert(!u, "run succeeds once the system call works"); freshClient(1, *srv); sx_reach("end"); return; } as(1, [&] { srv.destroy(); return 0; }); } else mdl_process_exit(1);
    bool u = as(3, [&] { return throws([&] { srv2.make(2, 3, S_("nm"), S_("ns"), false, VL::V0, false, true); srv2->run(); }); }); sx_assert(!u, "another server can be set up after a failed one"); freshClient(3, *srv2); }
  sx_reach("end"); }
ENTRY client_faults() {
  static Lock_ L; lk = &L; int kinds = sx_cfg("kinds", ALLF | F_SEM_WAIT_EINTR); as(1, [&] { srv.make(2, 3, S_("nm"), S_("ns"), false, VL::V0, false, true); srv->run(); return 0; }); symfill((int *)L.mem(), 6, "tensor"); char snap[24]; memcpy(snap, L.mem(), 24);
  mdl_faults(sx_cfg("budget", 1), kinds); bool t = as(2, [&] { return throws([&] { cl.make(S_("nm"), S_("ns"), verbose(), vlevel(), true); cl->attach(); }); }); int used = mdl_faults_used(); mdl_faults(0, 0);
  sx_assert(lk->free_() == 1, "the data lock is free after attach returned or failed"); sx_assert(same_bytes(lk->mem(), snap, 24) && lk->size() == 24, "attach does not change the tensor");
  if (!t) { sx_assert(cl->isAttached(), "a client whose attach returned is attached"); sx_assert(cl->getNRows() == 2 && cl->getNCols() == 3, "an attached client reports the shape"); exchange(1, *srv, 2, *cl, 2, 3); sx_reach(used ? "fault survived" : "no fault"); }
  else { sx_assert(used > 0, "without a failing system call attach succeeds"); sx_reach("attach failed"); sx_assert(!cl->isAttached(), "a client whose attach failed is not attached"); sx_assert(as(1, [&] { return srv->getNClients(); }) == 0, "a client whose attach failed is not counted");
    Tensor<int> x(1, 1); sx_assert(!as(2, [&] { return cl->write(x, 0, 0); }), "a client whose attach failed refuses writes");
    if (choose("retry", 2)) { bool u = as(2, [&] { return throws([&] { cl->attach(); }); }); sx_assert(!u, "attach succeeds once the system call works"); exchange(1, *srv, 2, *cl, 2, 3); sx_reach("retried"); }
    else { as(2, [&] { cl.destroy(); return 0; }); sx_assert(mdl_open_fds(2) == 0 && mdl_sem_handles(2) == 0, "a destroyed client holds nothing after a failed attach"); freshClient(1, *srv); } sx_assert(mdl_bad_closes() == 0, "nothing is closed that was not open"); }
  sx_reach("end"); }
