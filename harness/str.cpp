// String tensors: round trip, refusal, inactive states (C14, C15, C10).
#include "tensors.hpp"
// clang instantiates fewer members than gcc at the explicit instantiations in this file; including it instantiates what is used
#include <StringTensor.cpp>
typedef StringTensor<StrServer> SS; typedef StringTensor<StrClient> SC;
enum { CAP = 1024 };
static Slot<SS> s; static Slot<SC> c, c2; static int LEN; static Lock_ *lk; static char snap[CAP * 8];
static const int SIZES[] = {5, 4, 0, 1, 3, 7, 8, 1024, 1021, 1023};
// a string of n arbitrary non-NUL bytes (long ones: arbitrary first and last 8 bytes)
static std::string mk(int n, const char *nm) { std::string r((size_t)n, 'x'); int full = n <= 16 ? n : 8; sx_make_symbolic(&r[0], full, nm); for (int i = 0; i < full; i++) sx_assume(r[i] != 0); if (n > 16) { sx_make_symbolic(&r[n - 8], 8, nm); for (int i = n - 8; i < n; i++) sx_assume(r[i] != 0); } return r; }
static int eq(const std::string &a, const std::string &b) { return a.size() == b.size() && same_bytes(a.data(), b.data(), a.size()); }
static void setup(bool force = false) {
  LEN = sx_cfg("len", 3); static Lock_ L; lk = &L; as(1, [&] { s.make(LEN, S_("nm"), S_("ns"), verbose(), vlevel(), force, sx_cfg("safe", 1)); return 0; }); as(1, [&] { s->run(); return 0; });
  as(2, [&] { c.make(S_("nm"), S_("ns"), verbose(), vlevel(), sx_cfg("safe", 1)); return 0; }); as(2, [&] { c->run(); return 0; });
  sx_assert(s->getLength() == LEN && c->getLength() == LEN, "both endpoints know the number of strings"); sx_assert(lk->size() == (long)CAP * LEN, "the tensor has room for 1024 bytes per string"); }
static int slots_unchanged(const char *a, int from, int n) { unsigned d = 0; for (int r = 0; r < CAP / 4; r++) for (int k = 0; k < LEN; k++) if (k < from || k >= from + n) d |= ((const unsigned *)a)[r * LEN + k] ^ ((const unsigned *)snap)[r * LEN + k]; return d == 0; }
static bool put(int who, const std::vector<std::string> &v, int col, bool one) { if (one) return who == 1 ? as(1, [&] { return s->write(v[0], col); }) : as(2, [&] { return c->write(v[0], col); }); return who == 1 ? as(1, [&] { return s->write(v, col); }) : as(2, [&] { return c->write(v, col); }); }
static bool get(int who, std::vector<std::string> &v, int col, bool one) { if (one) return who == 1 ? as(1, [&] { return s->read(v[0], col); }) : who == 2 ? as(2, [&] { return c->read(v[0], col); }) : as(3, [&] { return c2->read(v[0], col); }); return who == 1 ? as(1, [&] { return s->read(v, col); }) : who == 2 ? as(2, [&] { return c->read(v, col); }) : as(3, [&] { return c2->read(v, col); }); }
// arbitrary contents; for reads one short arbitrary string per slot (decoding branches on every character)
static void contents(bool wr) { char *m = lk->mem(); if (wr) sx_make_symbolic(m, CAP * LEN, "tensor"); else { memset(m, 0, CAP * LEN); sx_make_symbolic(m, 4 * LEN, "tensor"); for (int i = 0; i < 4 * LEN; i++) sx_assume(m[i] != 0); } memcpy(snap, m, CAP * LEN); }
ENTRY str_roundtrip() {
  setup(); int S = CAP * LEN; sx_make_symbolic(lk->mem(), S, "tensor"); memcpy(snap, lk->mem(), S);
  int who = 1 + choose("writer", 2); bool one = choose("single", 2); int n = one ? 1 : 1 + choose("strings", LEN < 2 ? LEN : 2); std::vector<std::string> v; int nsz = sx_cfg("nsizes", 10);
  for (int i = 0; i < n; i++) v.push_back(mk(SIZES[choose("size", i ? 2 : nsz)], "chars"));
  int col = (int)sx_sym_u32("position"); sx_assume(col >= 0 && (long)col + n <= LEN); col = (int)sx_concretize(col);
  bool ok = put(who, v, col, one); sx_assert(ok, "a list that fits is accepted when the lock is free"); sx_assert(lk->free_() == 1, "the lock is free again"); sx_assert(slots_unchanged(lk->mem(), col, n), "slots not addressed keep their contents");
  // an overwrite of the first slot leaves no trace
  if (choose("overwrite", 2)) { std::vector<std::string> w; w.push_back(mk(choose("short", 2) ? 6 : 2, "chars")); int who2 = 1 + choose("writer2", 2); sx_assert(put(who2, w, col, true), "an overwrite is accepted"); v[0] = w[0]; sx_assert(slots_unchanged(lk->mem(), col, n), "an overwrite touches only its slot"); sx_reach("overwritten"); }
  memcpy(snap, lk->mem(), S);
  int who2 = 1 + choose("reader", sx_cfg("late", 1) ? 3 : 2); if (who2 == 3) { as(3, [&] { c2.make(S_("nm"), S_("ns"), verbose(), vlevel(), true); c2->run(); return 0; }); sx_reach("late reader"); }
  bool o2 = choose("read_single", 2);
  if (o2) for (int i = 0; i < n; i++) { std::vector<std::string> r(1, choose("prefilled", 2) ? std::string("old contents") : std::string()); sx_assert(get(who2, r, col + i, true), "a read that fits is accepted"); sx_assert(eq(r[0], v[i]), "the string read equals the string written"); }
  else { std::vector<std::string> r(n, "old contents"); sx_assert(get(who2, r, col, false), "a read that fits is accepted"); sx_assert(r.size() == (size_t)n, "the list read has the requested length"); for (int i = 0; i < n; i++) sx_assert(eq(r[i], v[i]), "the string read equals the string written"); }
  sx_assert(same_bytes(lk->mem(), snap, S), "reading changes nothing"); sx_assert(lk->free_() == 1, "the lock is free again"); sx_reach("end"); }
// C15: any position, up to LEN+1 strings, any length class
ENTRY str_refuse() {
  setup(); int S = CAP * LEN;
  static const int LONG[] = {3, 1024, 1025, 1028, 1029, 2000, 5000};
  int who = 1 + choose("endpoint", 2); bool wr = choose("write", 2), one = choose("single", 2); int n = one ? 1 : 1 + choose("strings", LEN + 1), big = wr ? choose("which", n) : 0, z = wr ? LONG[choose("size", 7)] : 3; std::vector<std::string> v;
  for (int i = 0; i < n; i++) v.push_back(i == big ? mk(z, "chars") : std::string("abcde"));
  contents(wr); int col = (int)sx_sym_u32("position"); int fits = col >= 0 && (long)col + n <= LEN && z <= CAP; if (fits) col = (int)sx_concretize(col);

  bool ok = wr ? put(who, v, col, one) : get(who, v, col, one);
  sx_assert(ok == (bool)fits, "a request is accepted exactly when it fits"); sx_assert(lk->free_() == 1, "the lock is free again");
  if (!ok) { sx_assert(same_bytes(lk->mem(), snap, S), "a refused request changes no slot"); sx_reach("refused"); }
  else { if (!wr) sx_assert(same_bytes(lk->mem(), snap, S), "reading changes nothing"); else { sx_assert(slots_unchanged(lk->mem(), col, n), "slots not addressed keep their contents"); } sx_reach("accepted"); }
  sx_reach("end"); }
// C15: while another process holds the lock safe endpoints refuse
ENTRY str_held() {
  setup(); int S = CAP * LEN; static Slot<Client<int>> h; as(4, [&] { h.make(S_("nm"), S_("ns"), false, VL::V0, true); h->attach(); h->dataSemAcquire(); return 0; });
  int who = 1 + choose("endpoint", 2); bool wr = choose("write", 2), one = choose("single", 2); int n = one ? 1 : 2; std::vector<std::string> v(n, "abcde"); contents(wr); int col = (int)sx_sym_u32("position"); int fits = col >= 0 && (long)col + n <= LEN; if (fits) col = (int)sx_concretize(col);
  bool ok = wr ? put(who, v, col, one) : get(who, v, col, one); sx_assert(!ok, "a safe endpoint refuses while the lock is held"); sx_assert(same_bytes(lk->mem(), snap, S), "a refused request changes no slot"); sx_assert(lk->free_() == 0, "the lock stays with its holder");
  as(4, [&] { h->dataSemRelease(); return 0; }); sx_assume(fits); ok = wr ? put(who, v, col, one) : get(who, v, col, one); sx_assert(ok, "the request goes through once the lock is free"); sx_reach("end"); }
// C10: never started, stopped, closed
ENTRY str_inactive() {
  LEN = 2; static Lock_ L; lk = &L; bool server = choose("server", 2); int st = choose("state", server ? 2 : 3); std::vector<std::string> v(1, "abcde");
  as(1, [&] { s.make(LEN, S_("nm"), S_("ns"), verbose(), vlevel(), false, true); return 0; }); as(2, [&] { c.make(S_("nm"), S_("ns"), verbose(), vlevel(), true); return 0; });
  if (!(server && st == 0)) as(1, [&] { s->run(); return 0; }); if (!server && st) as(2, [&] { c->run(); return 0; });
  if (server && st == 1) as(1, [&] { s->close(); return 0; }); if (!server && st == 1) as(2, [&] { c->close(); return 0; });
  if (!server && st == 2) { as(2, [&] { c->close(); c->close(); return 0; }); }
  char *m = (char *)mdl_shm_data(L.shm.c_str()); if (m) { sx_make_symbolic(m, CAP * LEN, "tensor"); memcpy(snap, m, CAP * LEN); }
  bool wr = choose("write", 2), one = choose("single", 2); int col = (int)sx_sym_u32("position"); bool ok = wr ? put(server ? 1 : 2, v, col, one) : get(server ? 1 : 2, v, col, one);
  sx_assert(!ok, "an inactive string tensor refuses"); if (m) sx_assert(same_bytes(m, snap, CAP * LEN), "an inactive string tensor changes nothing"); if (!wr) sx_assert(eq(v[0], "abcde"), "a refused read leaves the caller's string alone");
  if (choose("then_close", 2)) { if (server) as(1, [&] { s->close(); return 0; }); else as(2, [&] { c->close(); return 0; }); } as(2, [&] { c.destroy(); return 0; }); as(1, [&] { s.destroy(); return 0; }); sx_assert(mdl_bad_closes() == 0 && mdl_open_fds(1) == 0 && mdl_open_fds(2) == 0 && mdl_sem_handles(1) == 0 && mdl_sem_handles(2) == 0, "everything is released exactly once"); sx_reach("end"); }
// C11: the endpoint handed out by getSharedMem is a copy
ENTRY str_shared_mem() { LEN = 2; static Lock_ L; lk = &L; as(1, [&] { s.make(LEN, S_("nm"), S_("ns"), false, VL::V0, false, true); s->run(); { auto m = s->getSharedMem(); (void)m; } return 0; });
  if (choose("aspect", 2)) sx_assert(mdl_open_fds(1) > 0, "the string tensor keeps its descriptors after the copy of its endpoint is gone"); else sx_assert(mdl_sem_exists(L.data.c_str()), "the string tensor's lock exists after the copy of its endpoint is gone"); sx_reach("end"); }
