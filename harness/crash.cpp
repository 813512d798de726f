// Processes that die at any point and what a later server makes of it (C12).
#include "tensors.hpp"
static Slot<Server<int>> srv, ns; static Slot<Client<int>> cl, nc; static Lock_ *lk; static uint32_t w1, w2; static int sthread, cthread;
static int R1 = 2, C1 = 2;
static void serverLife(void *) { try { srv.make(R1, C1, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); srv->run(); Tensor<int> t(1, 1); ((uint32_t *)t.data())[0] = w1; srv->write(t, 0, 1); if (sx_cfg("manual", 0)) { srv->dataSemAcquire(); ((uint32_t *)t.data())[0] = w2; srv->dataSemRelease(); } if (sx_cfg("rerun", 0)) { srv->stop(); srv->run(); } srv->close(); } catch (std::exception &) {} }
static void clientLife(void *) { try { cl.make(S_("nm"), S_("ns"), verbose(), vlevel(), true); cl->attach(); Tensor<int> t(1, 1); ((uint32_t *)t.data())[0] = w2; cl->write(t, 1, 0); if (sx_cfg("manual", 0)) { cl->dataSemAcquire(); cl->dataSemRelease(); } cl->close(); } catch (std::exception &) {} }
static void works(int r, int c) {
  sx_assert(ns->isRunning(), "the new server runs"); sx_assert(lk->free_() == 1, "the new server's lock is free"); sx_assert(lk->size() == (long)sizeof(int) * r * c, "the new segment has the new server's shape");
  char z[128]; memset(z, 0, sizeof z); sx_assert(same_bytes(lk->mem(), z, sizeof(int) * r * c), "the tensor of the new server is zeroed");
  Tensor<int> t(r, c), u(r, c); memset(u.data(), 1, sizeof(int) * r * c); sx_assert(as(3, [&] { return ns->read(u, 0, 0); }), "the new server reads"); sx_assert(same_bytes(u.data(), z, sizeof(int) * r * c), "the new server reads zeros");
  as(4, [&] { nc.make(S_("nm"), S_("ns"), verbose(), vlevel(), true); nc->attach(); return 0; }); sx_assert(nc->isAttached() && nc->getNRows() == r && nc->getNCols() == c, "a new client attaches and sees the new shape"); sx_assert(as(3, [&] { return ns->getNClients(); }) == 1, "the new client is counted");
  symfill(t.data(), r * c, "a"); sx_assert(as(3, [&] { return ns->write(t, 0, 0); }), "the new server writes"); sx_assert(as(4, [&] { return nc->read(u, 0, 0); }), "the new client reads"); sx_assert(same_bytes(t.data(), u.data(), sizeof(int) * r * c), "the new client sees the new server's data");
  symfill(t.data(), r * c, "b"); sx_assert(as(4, [&] { return nc->write(t, 0, 0); }), "the new client writes"); sx_assert(as(3, [&] { return ns->read(u, 0, 0); }), "the new server reads the client's data"); sx_assert(same_bytes(t.data(), u.data(), sizeof(int) * r * c), "the new server sees the new client's data"); }
static bool tried;
static bool attempt(bool force, int r, int c) { bool t = as(3, [&] { return throws([&] { if (!ns.live) ns.make(r, c, S_("nm"), S_("ns"), verbose(), vlevel(), force, true); ns->run(); }); }); return !t; }
static void aftermath() {
  int r = 1 + choose("rows", 2), c = 3; if (choose("force", 2)) { bool ok = attempt(true, r, c); sx_assert(ok, "a server created with force_reconnection reaches the running state"); works(r, c); sx_reach("forced"); }
  else if (attempt(false, r, c)) { works(r, c); sx_reach("works without force"); }
  else { sx_reach("refused"); // the way out
    Slot<Server<int>> *p = &ns; if (ns.live) { sx_assert(!ns->isRunning(), "a server whose run failed is not running"); as(3, [&] { p->destroy(); return 0; }); }
    sx_assert(attempt(true, r, c), "force_reconnection works after a refused start"); works(r, c); }
  sx_reach("end"); }
ENTRY crash() {
  static Lock_ L; lk = &L; w1 = sx_sym_u32("w1"); w2 = sx_sym_u32("w2"); bool cli = sx_cfg("client", 1);
  sthread = sx_spawn(serverLife, 0, 1, sx_cfg("scrash", 1)); cthread = cli ? sx_spawn(clientLife, 0, 2, sx_cfg("ccrash", 1)) : -1; sx_join();
  if (sx_thread_state(sthread) == 2) sx_reach("server died"); if (cli && sx_thread_state(cthread) == 2) sx_reach("client died"); if (cli && sx_thread_state(cthread) == 1) sx_reach("client left waiting");
  if (sx_thread_state(sthread) == 1) sx_exit_thread(); // the old server still waits (for a client that died): not the situation the property is about
  mdl_process_exit(1); mdl_process_exit(2); aftermath(); }
// a client of the dead server is still attached when the new one comes up, and leaves afterwards
ENTRY survivor() {
  static Lock_ L; lk = &L; w1 = sx_sym_u32("w1"); as(1, [&] { srv.make(2, 2, S_("nm"), S_("ns"), false, VL::V0, false, true); srv->run(); return 0; }); as(2, [&] { cl.make(S_("nm"), S_("ns"), false, VL::V0, true); cl->attach(); return 0; });
  int st = choose("server_dies", 3); if (st == 1) as(1, [&] { srv->dataSemAcquire(); return 0; }); if (st == 2) as(1, [&] { srv->stop(); return 0; }); mdl_process_exit(1);
  sx_assert(attempt(true, 2, 3), "a server created with force_reconnection reaches the running state");
  Tensor<int> t(1, 1); ((uint32_t *)t.data())[0] = w1; as(2, [&] { return cl->write(t, 0, 0); }); works(2, 3); sx_reach("end"); }
