// Return codes (C19), names (C20), views (C22), journal (C26), sleep helpers (C27).
#include "tensors.hpp"
#include <EigenIPC/ReturnCodes.hpp>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/Journal.hpp>
#include <EigenIPC/StringTensor.hpp>
#include "TimeUtils.hpp"
// ---------------------------------------------------------------- C19
typedef ReturnCode RC; typedef unsigned long long U;
static U u(RC c) { return static_cast<U>(c); }
static RC anyCode(const char *n) { U v = (U)sx_sym_u32(n); v |= (U)sx_sym_u32(n) << 32; return static_cast<RC>(v); }
ENTRY rc_ops() {
  RC a = anyCode("a"), b = anyCode("b"), c = anyCode("c"); int ra = (u(a) == 1) | (u(b) == 1);
  RC s = a + b, d = a - b; bool i = isin(a, b);
  if (ra) { sx_assert(u(s) == 0, "combining with RESET yields the empty code"); sx_assert(u(d) == u(a), "removing RESET, or removing from RESET, changes nothing"); sx_reach("reset"); }
  else { sx_assert(u(s) == (u(a) | u(b)), "combining yields exactly the union"); sx_assert(u(d) == (u(a) & ~u(b)), "removing yields exactly the difference"); sx_assert(isin(a, s) && isin(b, s), "a combined code contains its parts"); sx_assert(u(b + a) == u(s), "combining is symmetric"); sx_reach("codes"); }
  sx_assert(i == ((u(a) & ~u(b)) == 0), "membership is exactly inclusion"); sx_assert(isin(RC::NONE, a), "the empty code is in every code"); sx_assert(isin(a, a), "a code contains itself");
  if (u(a) != 1 && u(b) != 1 && u(c) != 1 && u(a + b) != 1 && u(b + c) != 1) sx_assert(u((a + b) + c) == u(a + (b + c)), "combining is associative"); sx_reach("end"); }
struct Nm { RC c; const char *n; };
static const Nm NAMES[] = {{RC::RESET, "RESET"}, {RC::MEMOPEN, "MEMOPEN"}, {RC::MEMOPENFAIL, "MEMOPENFAIL"}, {RC::MEMCREAT, "MEMCREAT"}, {RC::MEMCREATFAIL, "MEMCREATFAIL"}, {RC::MEMSET, "MEMSET"}, {RC::MEMSETFAIL, "MEMSETFAIL"}, {RC::MEMEXISTS, "MEMEXISTS"}, {RC::MEMCLEAN, "MEMCLEAN"}, {RC::MEMFDCLOSED, "MEMFDCLOSED"}, {RC::MEMUNLINK, "MEMUNLINK"}, {RC::MEMMAP, "MEMMAP"}, {RC::MEMMAPFAIL, "MEMMAPFAIL"}, {RC::INDXOUT, "INDXOUT"}, {RC::NOFIT, "NOFIT"}, {RC::SEMACQTIMEOUT, "SEMACQTIMEOUT"}, {RC::SEMACQ, "SEMACQ"}, {RC::SEMACQFAIL, "SEMACQFAIL"}, {RC::SEMACQTRY, "SEMACQTRY"}, {RC::SEMACQSIGINT, "SEMACQSIGINT"}, {RC::SEMOPEN, "SEMOPEN"}, {RC::SEMOPENFAIL, "SEMOPENFAIL"}, {RC::SEMREL, "SEMREL"}, {RC::SEMRELFAIL, "SEMRELFAIL"}, {RC::SEMCLOSE, "SEMCLOSE"}, {RC::SEMUNLINK, "SEMUNLINK"}, {RC::WRITEFAIL, "WRITEFAIL"}, {RC::READFAIL, "READFAIL"}, {RC::OTHER, "OTHER"}, {RC::UNKNOWN, "UNKNOWN"}};
enum { NN = sizeof NAMES / sizeof *NAMES };
ENTRY rc_codes() { sx_assert(u(RC::NONE) == 0, "NONE is the empty code"); for (int i = 0; i < NN; i++) { U v = u(NAMES[i].c); sx_assert(v && !(v & (v - 1)), "a base code is one bit"); for (int j = 0; j < i; j++) sx_assert(v != u(NAMES[j].c), "base codes are distinct"); }
  sx_assert(u(RC::SEMACQRETRY) == u(RC::SEMACQTRY), "SEMACQRETRY is SEMACQTRY"); int k = choose("code", NN); std::string d = getDescription(NAMES[k].c); sx_assert(d == NAMES[k].n, "a base code is described by its own name"); sx_assert(getDescription(RC::NONE) == "NONE", "the empty code is NONE"); sx_reach("end"); }
static const char *nameOf(int bit) { for (const Nm &n : NAMES) if (u(n.c) == 1ull << bit) return n.n; return "UNKNOWN"; }
static void described(U v) { std::string d = getDescriptions(static_cast<RC>(v)); std::string want; for (int i = 0; i < 64; i++) if (v >> i & 1) { if (want.size()) want += ", "; want += nameOf(i); } sx_assert(d == "[" + want + "]", "a combined code is described by the names of the codes it contains"); }
// k neighbouring bits arbitrary, all others 0 or all others 1
ENTRY rc_describe() { int k = sx_cfg("bits", 5), at = choose("at", (64 + k - 1) / k) * k; U m = 0; for (int i = at; i < at + k && i < 64; i++) m |= 1ull << i; U v = u(anyCode("code")), rest = choose("others", 2) ? ~m : 0; v = (v & m) | rest; v = sx_concretize(v); described(v); sx_reach("end"); }
ENTRY rc_pairs() { int i = choose("bit", 64), j = choose("bit", 64); if (i <= j) described(1ull << i | 1ull << j); sx_reach("end"); }
// ---------------------------------------------------------------- C20
static std::string text(const char *nm, int n) { std::string r((size_t)n, 'x'); sx_make_symbolic(&r[0], n, nm); for (int i = 0; i < n; i++) sx_assume((r[i] != 0) & (r[i] != '/')); return r; }
enum { NP = 11 };
static const std::string *path(const SharedMemConfig &c, int i) { const std::string *t[] = {&c.mem_path, &c.mem_path_nrows, &c.mem_path_ncols, &c.mem_path_dtype, &c.mem_path_clients_counter, &c.mem_path_isrunning, &c.mem_path_mem_layout, &c.mem_path_server_sem, &c.mem_path_data_sem, &c.mem_path_cond_var, &c.mem_path_cond_var_mutex}; return t[i]; }
static int kind(int i) { return i == 7 || i == 8 || i == 10; } // 1: semaphore, 0: memory object
// the system ignores a leading slash
static std::string canon(const std::string &s) { return s.size() && s[0] == '/' ? s.substr(1) : s; }
static int differ(const std::string &a, const std::string &b) { return a.size() != b.size() || !same_bytes(a.data(), b.data(), a.size()); }
// no branching: does one of x, y start with the other?
static int prefixed(const std::string &x, const std::string &y) { size_t n = x.size() < y.size() ? x.size() : y.size(); return same_bytes(x.data(), y.data(), n); }
ENTRY names_two() {
  int la = choose("len_a", sx_cfg("la", 4)), lb = choose("len_b", sx_cfg("lb", 24)), sa = choose("split_a", la + 1), sb = lb > 3 ? choose("split_b", 4) : choose("split_b", lb + 1);
  std::string a = text("a", la), b = text("b", lb); sx_assume(differ(a, b));
  SharedMemConfig ca(a.substr(sa), a.substr(0, sa)), cb(b.substr(sb), b.substr(0, sb)), none("", ""); const std::string &lo = la < lb ? a : b, &hi = la < lb ? b : a;
  int reserved = 0; // is one name the other one followed by a suffix the library uses itself?
  for (int k = 1; k < NP; k++) { std::string t = canon(*path(none, k)); if (lo.size() + t.size() == hi.size()) { std::string w = lo + t; reserved |= !differ(w, hi); } }
  for (int i = 0; i < NP; i++) for (int j = 0; j < NP; j++) if (kind(i) == kind(j)) { std::string x = canon(*path(ca, i)), y = canon(*path(cb, j)); if (x.size() == y.size()) { int hit = same_bytes(x.data(), y.data(), x.size()); sx_assert((hit & !reserved) == 0, "endpoints of different names share no resource"); if (sx_cfg("suffix", 0)) sx_assert(!hit, "a name that ends in a suffix of the library shares no resource with the name before it"); sx_reach("same length"); } }
  sx_reach("end"); }
ENTRY names_one() { int n1 = choose("len_namespace", sx_cfg("max", 9)), n2 = choose("len_name", sx_cfg("max", 9)); std::string a = text("namespace", n1), b = text("name", n2); SharedMemConfig c(b, a), d(b, a);
  for (int i = 0; i < NP; i++) { sx_assert(!differ(*path(c, i), *path(d, i)), "the same names give the same resources"); for (int j = 0; j < i; j++) if (kind(i) == kind(j)) { std::string x = canon(*path(c, i)), y = canon(*path(c, j)); sx_assert(differ(x, y), "the resources of one endpoint are distinct"); } } sx_reach("end"); }
// two servers and clients whose names are arbitrary: each client finds its own server, nothing is shared
ENTRY names_live() {
  static Slot<Server<int>> s1, s2; static Slot<Client<int>> c1, c2; int n1 = choose("len_ns1", 2), m1 = 1 + choose("len_nm1", 2), n2 = choose("len_ns2", 2), m2 = 1 + choose("len_nm2", 2); std::string a = text("ns1", n1), b = text("nm1", m1), c = text("ns2", n2), d = text("nm2", m2); std::string x = a + b, y = c + d; sx_assume(differ(x, y));
  as(1, [&] { s1.make(1, 2, b, a, false, VL::V0, false, true); s1->run(); return 0; }); int k = mdl_names(); as(2, [&] { s2.make(2, 1, d, c, false, VL::V0, false, true); s2->run(); return 0; }); sx_assert(mdl_names() == 2 * k, "the second server has its own resources"); sx_assert(s1->isRunning() && s2->isRunning(), "both servers run");
  as(3, [&] { c1.make(b, a, false, VL::V0, true); c1->attach(); return 0; }); as(4, [&] { c2.make(d, c, false, VL::V0, true); c2->attach(); return 0; }); sx_assert(mdl_names() == 2 * k, "clients create nothing");
  sx_assert(c1->getNRows() == 1 && c1->getNCols() == 2 && c2->getNRows() == 2 && c2->getNCols() == 1, "each client is attached to its own server"); sx_assert(as(1, [&] { return s1->getNClients(); }) == 1 && as(2, [&] { return s2->getNClients(); }) == 1, "each server counts its own client");
  Tensor<int> p(1, 2), q(2, 1), r(2, 1), t(1, 2); symfill(p.data(), 2, "p"); symfill(q.data(), 2, "q"); sx_assert(as(1, [&] { return s1->write(p, 0, 0); }) && as(4, [&] { return c2->write(q, 0, 0); }), "writes"); sx_assert(as(3, [&] { return c1->read(t, 0, 0); }) && as(2, [&] { return s2->read(r, 0, 0); }), "reads"); sx_assert(same_bytes(p.data(), t.data(), 8) && same_bytes(q.data(), r.data(), 8), "each pair exchanges its own data");
  as(1, [&] { s1->close(); return 0; }); sx_assert(s2->isRunning() && as(4, [&] { return c2->read(r, 0, 0); }), "closing one server leaves the other alone"); as(2, [&] { s2->close(); return 0; }); sx_reach("end"); }
// ---------------------------------------------------------------- C22
template <class T, int L> static void view() {
  int R = 1 + choose("rows", 4), C = 1 + choose("cols", 4); Tensor<T, L> from(R, C); symfill(from.data(), R * C, "data"); T old[16]; memcpy(old, from.data(), sizeof(T) * R * C); int r = (int)sx_sym_u32("row"), c = (int)sx_sym_u32("col"), n = (int)sx_sym_u32("n_rows"), m = (int)sx_sym_u32("n_cols");
  int fits = (r >= 0) & (c >= 0) & (n >= 1) & (m >= 1) & ((long)r + n <= R) & ((long)c + m <= C), bad = (r < 0) | (c < 0) | (n < 0) | (m < 0) | ((long)r + n > R) | ((long)c + m > C);
  bool thrown = false; try { TensorView<T, L> v = helpers::createViewFrom<T, L>(from, r, c, n, m);
    sx_assert(!bad, "a block that is not inside the tensor is refused by exception"); sx_assert(v.rows() == n && v.cols() == m, "the view has the requested size"); sx_reach("view");
    if (fits) { int i = (int)sx_sym_u32("i"), j = (int)sx_sym_u32("j"); sx_assume(i >= 0 && i < n && j >= 0 && j < m); T *p = v.data() + (L == RowMajor ? i * v.outerStride() + j * v.innerStride() : j * v.outerStride() + i * v.innerStride()); long want = L == RowMajor ? (long)(r + i) * C + (c + j) : (long)(c + j) * R + (r + i);
      sx_assert((char *)p - (char *)from.data() == want * (long)sizeof(T), "element (i, j) of the view is element (row+i, col+j) of the tensor"); int ci = (int)sx_concretize(i), cj = (int)sx_concretize(j), cr = (int)sx_concretize(r), cc = (int)sx_concretize(c); T nv; symfill(&nv, 1, "new"); T seen = v(ci, cj); sx_assert(same_bytes(&seen, &from(cr + ci, cc + cj), sizeof(T)), "reading the view reads the tensor"); v(ci, cj) = nv; sx_assert(same_bytes(&from(cr + ci, cc + cj), &nv, sizeof(T)), "writing the view writes the tensor"); from(cr + ci, cc + cj) = seen; sx_assert(same_bytes(from.data(), old, sizeof(T) * R * C), "the view touches only the addressed element"); } } catch (std::exception &) { thrown = true; }
  if (thrown) { sx_assert(!fits, "a block inside the tensor is not refused"); sx_assert(same_bytes(from.data(), old, sizeof(T) * R * C), "a refused view changes nothing"); sx_reach("refused"); } sx_reach("end"); }
ENTRY view_fr() { view<float, RowMajor>(); } ENTRY view_fc() { view<float, ColMajor>(); } ENTRY view_dr() { view<double, RowMajor>(); } ENTRY view_dc() { view<double, ColMajor>(); } ENTRY view_ir() { view<int, RowMajor>(); } ENTRY view_ic() { view<int, ColMajor>(); } ENTRY view_br() { view<bool, RowMajor>(); } ENTRY view_bc() { view<bool, ColMajor>(); }
// ---------------------------------------------------------------- C26
static std::string anytext(const char *nm, int n) { std::string r((size_t)n, 'x'); sx_make_symbolic(&r[0], n, nm); for (int i = 0; i < n; i++) sx_assume(r[i] != 0); return r; }
// where in s (of concrete length) does t, of concrete length, occur? no branching on contents
static int holds(const char *s, int n, const std::string &t) { int r = 0; for (int i = 0; i + (int)t.size() <= n; i++) r |= same_bytes(s + i, t.data(), t.size()); return r; }
ENTRY journal() {
  int lm = choose("len_message", sx_cfg("max", 5)), lc = choose("len_class", 3), lf = choose("len_method", 3); std::string m = anytext("message", lm), c = anytext("class", lc), f = anytext("method", lf); typedef Journal::LogType LT; static const LT T[] = {LT::WARN, LT::EXCEP, LT::INFO, LT::STAT}; static const char *N[] = {"WARN", "EXCEP", "INFO", "STAT"}; int k = choose("type", 4); bool stat = choose("static", 2), dflt = choose("default_flag", 2), fl = dflt ? false : sym_bool("throw"); int before = 0; (void)before;
  Journal j(c); mdl_capture(1); int t = 0; std::string what; try { if (stat) { if (dflt) Journal::log(c, f, m, T[k]); else Journal::log(c, f, m, T[k], fl); } else { if (dflt) j.log(f, m, T[k]); else j.log(f, m, T[k], fl); } } catch (std::runtime_error &e) { t = 1; what = e.what(); } catch (...) { t = 2; } 
  std::string mid = "[" + c + "][" + f + "][" + N[k] + "]: " + m; bool should = T[k] == LT::EXCEP && fl; sx_assert(t == should, "a call throws a runtime error exactly when it is an exception entry and throwing was requested");
  if (t == 1) { sx_assert(holds(what.data(), (int)what.size(), mid), "the error carries the message"); sx_reach("thrown"); } else { sx_assert(holds(mdl_captured(), mdl_captured_len(), mid), "the entry is printed with its origin, kind and text"); sx_assert(mdl_captured_len() == (int)mid.size() + 7 + 4 + 1, "nothing else is printed"); sx_reach("printed"); } sx_reach("end"); }
// ---------------------------------------------------------------- C27
typedef TimeUtils::PerfSleep<double> PS;
ENTRY sleeps() { int n = (int)sx_sym_u32("duration"); sx_assume(n >= 0); int h = choose("helper", 8); static const int64_t UNIT[] = {1, 1000, 1000000, 1000000000}; int64_t want = (int64_t)n * UNIT[h & 3]; mdl_record_sleep(1);
  alignas(16) static unsigned char mem[sizeof(PS)]; sx_make_symbolic(mem, sizeof mem, "storage"); PS *p = reinterpret_cast<PS *>(mem); 
  switch (h) { case 0: PS::thread_nsleep(n); break; case 1: PS::thread_usleep(n); break; case 2: PS::thread_msleep(n); break; case 3: PS::thread_sleep(n); break; case 4: p->clock_nsleep(n); break; case 5: p->clock_usleep(n); break; case 6: p->clock_msleep(n); break; default: p->clock_sleep(n); }
  int64_t s, ns; mdl_sleep_total(&s, &ns); sx_assert(mdl_sleep_valid(), "the time value is valid"); sx_assert((mdl_sleep_calls() == 1) | (want == 0), "one sleep is requested"); sx_assert((s >= 0) & (s <= 2147483647) & (ns >= 0) & (ns < 1000000000), "the time value is in range"); sx_assert(s * 1000000000 + ns == want, "the requested duration is the stated one"); sx_reach("end"); }
