// Python bindings, run through a model of pybind11 (shims/pybind11): array translation (C21), factories and option forwarding (C28), strings (C14).
#include "tensors.hpp"
#include <StringTensor.cpp>
#include <pybind11/numpy.h>
#include <PyStringTensor.cpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
namespace P = pybind11;
extern "C" void sx_pymodule_PyEigenIPC(P::module_ &);
typedef std::vector<P::kwarg> KW; typedef std::vector<P::object> OV;
template <class T> static P::object Py(T v) { return P::cast(v); }
static P::module_ *mod; static void import_() { static P::module_ m; mod = &m; sx_pymodule_PyEigenIPC(m); }
static P::object meth(P::object &o, const char *n, OV pos = {}, KW kw = {}) { return o.attr(n).call(pos, kw); }
static const int SZ[] = {4, 8, 4, 1}; static const DType DT[] = {DType::Float, DType::Double, DType::Int, DType::Bool}; static int dnum(int t) { static const int k[] = {2, 3, 1, 0}; return k[t]; }
static P::object mkArray(int kind, char *ptr, std::vector<long> shape, std::vector<long> strides) { auto a = new P::ArrBox; P::object o(a); a->dt = P::dtype(P::dtype_obj(kind)); a->shape = shape; a->strides = strides; a->ptr = ptr; return o; }
static P::object server(int rows, int cols, int t, int layout, KW more = {}) { KW kw{{"n_rows", Py(rows)}, {"n_cols", Py(cols)}, {"basename", Py(S_("nm"))}, {"namespace", Py(S_("ns"))}, {"dtype", Py(DT[t])}, {"layout", Py(layout)}}; for (auto &k : more) kw.push_back(k); return meth(*mod, "ServerFactory", {}, kw); }
static P::object client(int t, int layout, KW more = {}) { KW kw{{"basename", Py(S_("nm"))}, {"namespace", Py(S_("ns"))}, {"dtype", Py(DT[t])}, {"layout", Py(layout)}}; for (auto &k : more) kw.push_back(k); return meth(*mod, "ClientFactory", {}, kw); }
// result of a call that may be refused: 1 done, 0 returned False, -1 exception
static int refusal(P::object &o, const char *n, P::object arr, int row, int col) { int r = -1; try { r = meth(o, n, {arr, Py(row), Py(col)}).cast<bool>(); } catch (std::exception &) { r = -1; } return r; }
static char buf[400], before[400], snapT[256];
static int LT[] = {RowMajor, ColMajor};
ENTRY py_array() {
  import_(); int t = sx_cfg("type", 0), l = sx_cfg("layout", 0), R = 2, C = 3, item = SZ[t]; Lock_ lk; P::object s = as(1, [&] { auto o = server(R, C, t, LT[l]); meth(o, "run"); return o; }), c; int who = 1 + choose("endpoint", 2);
  if (who == 2) c = as(2, [&] { auto o = client(t, LT[l]); meth(o, "attach"); return o; }); P::object &e = who == 1 ? s : c; char *mem = lk.mem(); int bytes = R * C * item; sx_make_symbolic(mem, bytes, "tensor"); if (t == 3) for (int i = 0; i < bytes; i++) sx_assume((unsigned char)mem[i] <= 1); memcpy(snapT, mem, bytes);
  bool wr = choose("write", 2); int br = 1 + choose("rows", R), bc = 1 + choose("cols", C); int N = 200 + 16, base = 100; /* strides of up to 3 items in either direction, any byte count */
  int lim = item * 3 + item / 2; long s0 = (int)sx_sym_u32("stride0"), s1 = (int)sx_sym_u32("stride1"); sx_assume(s0 >= -lim && s0 <= lim && s1 >= -lim && s1 <= lim); if (!sx_cfg("dense", 0)) { auto sp = [&](long v) { long m = v & (item - 1); return m == 0 || m == item / 2; }; sx_assume(sp(s0) && sp(s1)); }
  sx_make_symbolic(buf, N, "array"); if (t == 3) for (int i = 0; i < N; i++) sx_assume((unsigned char)buf[i] <= 1); memcpy(before, buf, N); P::object a = mkArray(dnum(t), buf + base, {br, bc}, {s0, s1}); int row = choose("row", 2), col = choose("col", 2); bool fits = row + br <= R && col + bc <= C;
  int r = as(who, [&] { return refusal(e, wr ? "write" : "read", a, row, col); }); auto P_ = [&](int i, int j) { return (LT[l] == RowMajor ? i * C + j : j * R + i) * item; };
  sx_assert(lk.free_() == 1, "the lock is free"); long smaller = LT[l] == RowMajor ? s1 : s0, larger = LT[l] == RowMajor ? s0 : s1;
  if (r != 1) { sx_assert(same_bytes(mem, snapT, bytes) && same_bytes(buf, before, N), "a refused array leaves everything unchanged"); bool natural = smaller == item && larger == item * (LT[l] == RowMajor ? bc : br); sx_assert(!(fits && natural), "an array in the layout of the tensor is accepted"); sx_assert(!(fits && s0 % item == 0 && s1 % item == 0 && smaller > 0 && larger > smaller), "an array the library can address is accepted"); sx_reach("refused"); }
  else { s0 = (int)sx_concretize((uint32_t)(int)s0); s1 = (int)sx_concretize((uint32_t)(int)s1); sx_assert(fits, "a block outside the tensor is refused"); int good = 1, rest = 1; static unsigned char hit[400]; memset(hit, 0, sizeof hit); bool overlap = false;
    for (int i = 0; i < br; i++) for (int j = 0; j < bc; j++) { int o = base + (int)(i * s0 + j * s1); for (int k = 0; k < item; k++) { if (hit[o + k]) overlap = true; hit[o + k] = 1; } }
    if (wr) { for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { bool in = i >= row && i < row + br && j >= col && j < col + bc; if (in) good &= same_bytes(mem + P_(i, j), before + base + (i - row) * s0 + (j - col) * s1, item); else rest &= same_bytes(mem + P_(i, j), snapT + P_(i, j), item); } sx_assert(good, "element (i, j) written is element [i, j] of the array"); sx_assert(rest, "a write changes no cell outside the block"); sx_assert(same_bytes(buf, before, N), "a write leaves the array unchanged"); sx_reach("written"); }
    else { if (!overlap) for (int i = 0; i < br; i++) for (int j = 0; j < bc; j++) good &= same_bytes(buf + base + i * s0 + j * s1, snapT + P_(row + i, col + j), item); for (int k = 0; k < N; k++) if (!hit[k]) rest &= same_bytes(buf + k, before + k, 1); sx_assert(good, "element (i, j) read is element [i, j] of the array"); sx_assert(rest, "a read changes nothing but the elements of the array"); sx_assert(same_bytes(mem, snapT, bytes), "a read leaves the tensor unchanged"); sx_reach("read"); } }
  as(2, [&] { c = P::object(); return 0; }); as(1, [&] { s = P::object(); return 0; }); sx_reach("end"); }
// element type, number of dimensions, read-only arrays, any position
ENTRY py_refuse() {
  import_(); int t = sx_cfg("type", 0), l = sx_cfg("layout", 0), R = 2, C = 3; Lock_ lk; P::object s = as(1, [&] { auto o = server(R, C, t, LT[l]); meth(o, "run"); return o; }), c; int who = 1 + choose("endpoint", 2); if (who == 2) c = as(2, [&] { auto o = client(t, LT[l]); meth(o, "attach"); return o; }); P::object &e = who == 1 ? s : c; char *mem = lk.mem(); int bytes = R * C * SZ[t]; symfill((unsigned char *)mem, bytes, "tensor"); if (t == 3) for (int i = 0; i < bytes; i++) sx_assume((unsigned char)mem[i] <= 1); memcpy(snapT, mem, bytes);
  bool wr = choose("write", 2); int kind = choose("array_dtype", 7); int nd = choose("ndim", 4); bool ro = choose("readonly", 2), named = choose("keywords", 2); static const int isz[] = {1, 4, 4, 8, 8, 1, 4}; int item = isz[kind]; std::vector<long> sh, st; long n = item; static const long D[] = {2, 3, 2}; for (int i = 0; i < nd; i++) { sh.push_back(D[i]); st.push_back(0); } if (LT[l] == RowMajor) for (int i = nd; i-- > 0;) { st[i] = n; n *= sh[i]; } else for (int i = 0; i < nd; i++) { st[i] = n; n *= sh[i]; }
  int N = 200; sx_make_symbolic(buf, N, "array"); if (t == 3 || kind == 0 || kind == 5) for (int i = 0; i < N; i++) sx_assume((unsigned char)buf[i] <= 1); memcpy(before, buf, N); P::object a = mkArray(kind, buf, sh, st); static_cast<P::ArrBox *>(a.box())->readonly = ro; int row = (int)sx_sym_u32("row"), col = (int)sx_sym_u32("col");
  bool match = kind == dnum(t) && nd == 2; int r = -1; bool exc = false; as(who, [&] { try { KW kw; if (named) { kw.push_back({wr ? "data" : "tensor", a}); kw.push_back({"row", Py(row)}); kw.push_back({"col", Py(col)}); r = meth(e, wr ? "write" : "read", {}, kw).cast<bool>(); } else r = meth(e, wr ? "write" : "read", {a, Py(row), Py(col)}).cast<bool>(); } catch (std::exception &) { exc = true; } return 0; });
  if (kind != dnum(t)) sx_assert(exc, "an array of another element type is rejected by an exception"); if (nd != 2) sx_assert(r != 1, "an array that has not two dimensions is refused"); if (r == 1) sx_assert(match && row == 0 && col == 0, "a call succeeds only with a fitting array inside the tensor"); else if (match && !(ro && !wr)) { sx_assert(!(row == 0 && col == 0), "a fitting array is accepted"); }
  if (r == 1 && ro && !wr) sx_assert(false, "a read-only array is not modified"); if (r != 1) sx_assert(same_bytes(mem, snapT, bytes) && same_bytes(buf, before, N), "a refused array leaves everything unchanged"); else { sx_assert(wr ? same_bytes(mem, before, bytes) && same_bytes(buf, before, N) : same_bytes(buf, snapT, bytes) && same_bytes(mem, snapT, bytes), "an accepted array is transferred exactly"); sx_reach(wr ? "written" : "read"); } sx_assert(lk.free_() == 1, "the lock is free"); as(2, [&] { c = P::object(); return 0; }); as(1, [&] { s = P::object(); return 0; }); sx_reach(r == 1 ? "accepted" : "refused"); sx_reach("end"); }
// ---- C28: factories
template <class T, int L> static std::string refServer(int R, int C, bool v, VL vl, bool safe, bool force) { static Slot<Server<T, L>> s; mdl_capture(1); s.make(R, C, S_("nm"), S_("nX"), v, vl, force, safe); s->run(); s->close(); s.destroy(); std::string r(mdl_captured()); mdl_capture(0); for (char &ch : r) if (ch == 'X') ch = 's'; return r; }
template <class T, int L> static std::string refClient(bool v, VL vl, bool safe) { static Slot<Client<T, L>> s; mdl_capture(1); s.make(S_("nm"), S_("ns"), v, vl, safe); s->attach(); s->close(); s.destroy(); std::string r(mdl_captured()); mdl_capture(0); return r; }
#define PICK(F, t, l, ...) (LT[l] == RowMajor ? (t == 0 ? F<float, RowMajor>(__VA_ARGS__) : t == 1 ? F<double, RowMajor>(__VA_ARGS__) : t == 2 ? F<int, RowMajor>(__VA_ARGS__) : F<bool, RowMajor>(__VA_ARGS__)) : (t == 0 ? F<float, ColMajor>(__VA_ARGS__) : t == 1 ? F<double, ColMajor>(__VA_ARGS__) : t == 2 ? F<int, ColMajor>(__VA_ARGS__) : F<bool, ColMajor>(__VA_ARGS__)))
template <class T, int L> static bool attaches() { static Slot<Client<T, L>> c; bool t = as(5, [&] { return throws([&] { c.make(S_("nm"), S_("ns"), false, VL::V0, true); c->attach(); }); }); bool ok = !t && c->isAttached(); as(5, [&] { c.destroy(); return 0; }); return ok; }
template <class T, int L> static int mkPlain(int R, int C) { static Slot<Server<T, L>> s; as(1, [&] { s.make(R, C, S_("nm"), S_("ns"), false, VL::V0, false, true); s->run(); return 0; }); return 0; }
static std::vector<VL> VLS = {VL::V0, VL::V1, VL::V2, VL::V3};
ENTRY py_server() {
  import_(); Lock_ lk; int t = sx_cfg("type", 0), l = choose("layout", 2), R = 1 + choose("rows", 3), C = 1 + choose("cols", 3); bool given = choose("options_given", 2); bool v = given && choose("verbose", 2), safe = !given || choose("safe", 2), force = given && choose("force", 2); int vl = given && v ? choose("vlevel", 4) : 0; bool pos = choose("positional", 2);
  if (choose("left_over", 2)) { as(6 - 1, [&] { static Slot<Server<float, RowMajor>> old; old.make(1, 1, S_("nm"), S_("ns"), false, VL::V0, false, true); old->run(); return 0; }); mdl_process_exit(5); bool up = false; as(1, [&] { try { KW kw; if (given) kw = KW{{"force_reconnection", Py(force)}, {"safe", Py(safe)}}; auto o = server(R, C, t, LT[l], kw); meth(o, "run"); up = meth(o, "isRunning").cast<bool>(); } catch (std::exception &) {} return 0; }); sx_assert(up == force, "force_reconnection is forwarded"); sx_reach(up ? "taken over" : "not taken over"); sx_reach("end"); return; }
  mdl_capture(1); P::object s = as(1, [&] { P::object o; if (pos && given) o = meth(*mod, "ServerFactory", {Py(R), Py(C), Py(S_("nm")), Py(S_("ns")), Py(v), Py(VLS[vl]), Py(safe), Py(force), Py(DT[t]), Py(LT[l])}); else { KW kw; if (given) kw = KW{{"verbose", Py(v)}, {"vlevel", Py(VLS[vl])}, {"safe", Py(safe)}, {"force_reconnection", Py(force)}}; o = server(R, C, t, LT[l], kw); } meth(o, "run"); return o; }); std::string out(mdl_captured()); mdl_capture(0);
  sx_assert(meth(s, "isRunning").cast<bool>(), "the server runs"); sx_assert(meth(s, "getScalarType").cast<DType>() == DT[t], "the requested element type is reported"); sx_assert(meth(s, "getNRows").cast<int>() == R && meth(s, "getNCols").cast<int>() == C, "the requested shape is reported"); sx_assert(meth(s, "getNamespace").cast<std::string>() == "ns" && meth(s, "getBasename").cast<std::string>() == "nm", "the requested names are reported"); sx_assert(lk.size() == (long)R * C * SZ[t], "the tensor has the requested size");
  for (int tt = 0; tt < 4; tt++) for (int ll = 0; ll < 2; ll++) if (tt == t && ll == l) sx_assert(PICK(attaches, tt, ll), "a C++ client of the requested type and layout attaches");
  int wt = (t + 1 + choose("wrong", 3)) % 4; if (SZ[wt] != SZ[t]) sx_assert(!PICK(attaches, wt, l) , "a client of another element size does not attach"); sx_assert(!PICK(attaches, t, 1 - l), "a client of another layout does not attach");
  sx_assert(as(1, [&] { return meth(s, "getNClients").cast<int>(); }) == 0, "the number of clients is reported");
  // the lock option
  as(1, [&] { meth(s, "dataSemAcquire"); return 0; }); sx_assert(lk.free_() == 0, "dataSemAcquire takes the lock"); int item = SZ[t]; memset(buf, 0, 100); buf[0] = 1; P::object a = mkArray(dnum(t), buf, {R, C}, LT[l] == RowMajor ? std::vector<long>{C * item, item} : std::vector<long>{item, R * item}); bool w = as(1, [&] { return meth(s, "write", {a}).cast<bool>(); }); sx_assert(w == !safe, "the safe option is forwarded"); as(1, [&] { meth(s, "dataSemRelease"); return 0; }); sx_assert(lk.free_() == 1, "dataSemRelease gives the lock back"); if (!w) as(1, [&] { return meth(s, "write", {a}).cast<bool>(); }); sx_assert(same_bytes(lk.mem(), buf, R * C * item), "row and column default to 0");
  as(1, [&] { meth(s, "stop"); return 0; }); sx_assert(!meth(s, "isRunning").cast<bool>(), "stop is forwarded"); as(1, [&] { meth(s, "run"); return 0; }); sx_assert(meth(s, "isRunning").cast<bool>(), "run is forwarded"); as(1, [&] { meth(s, "close"); return 0; }); sx_assert(mdl_open_fds(1) == 0 && mdl_sem_handles(1) == 0, "close is forwarded"); as(1, [&] { s = P::object(); return 0; }); sx_assert(mdl_open_fds(1) == 0 && mdl_sem_handles(1) == 0, "the server is released with its Python object");
  std::string ref = as(3, [&] { return PICK(refServer, t, l, R, C, v, VLS[vl], safe, force); }); sx_assert(ref.compare(0, out.size(), out) == 0 && (out.empty() == !(v && ref.size() > 0)), "verbosity is forwarded"); sx_reach(out.empty() ? "quiet" : "talking"); sx_reach("end"); }
ENTRY py_client() {
  import_(); Lock_ lk; int t = sx_cfg("type", 0), l = choose("layout", 2), R = 1 + choose("rows", 2), C = 1 + choose("cols", 3); bool given = choose("options_given", 2), v = given && choose("verbose", 2), safe = !given || choose("safe", 2), pos = choose("positional", 2); int vl = given && v ? choose("vlevel", 4) : 0; PICK(mkPlain, t, l, R, C);
  { int wt = choose("other", 8); if (SZ[wt / 2] != SZ[t] || wt % 2 != l) { bool th = as(2, [&] { return throws([&] { auto o = client(wt / 2, LT[wt % 2]); meth(o, "attach"); }); }); sx_assert(th, "a client of another element size or layout is rejected"); } }
  mdl_capture(1); P::object c = as(2, [&] { P::object o; if (pos && given) o = meth(*mod, "ClientFactory", {Py(S_("nm")), Py(S_("ns")), Py(v), Py(VLS[vl]), Py(safe), Py(DT[t]), Py(LT[l])}); else { KW kw; if (given) kw = KW{{"verbose", Py(v)}, {"vlevel", Py(VLS[vl])}, {"safe", Py(safe)}}; o = client(t, LT[l], kw); } sx_assert(!meth(o, "isRunning").cast<bool>(), "a client is not attached before attach"); meth(o, "attach"); return o; }); std::string out(mdl_captured()); mdl_capture(0);
  sx_assert(meth(c, "isRunning").cast<bool>(), "the client is attached"); sx_assert(meth(c, "getScalarType").cast<DType>() == DT[t], "the requested element type is reported"); sx_assert(meth(c, "getNRows").cast<int>() == R && meth(c, "getNCols").cast<int>() == C, "the shape of the server is reported"); sx_assert(meth(c, "getNamespace").cast<std::string>() == "ns" && meth(c, "getBasename").cast<std::string>() == "nm", "the requested names are reported");
  as(2, [&] { meth(c, "dataSemAcquire"); return 0; }); sx_assert(lk.free_() == 0, "dataSemAcquire takes the lock"); int item = SZ[t]; memset(buf, 0, 100); buf[0] = 1; P::object a = mkArray(dnum(t), buf, {R, C}, LT[l] == RowMajor ? std::vector<long>{C * item, item} : std::vector<long>{item, R * item}); bool w = as(2, [&] { return meth(c, "write", {a}).cast<bool>(); }); sx_assert(w == !safe, "the safe option is forwarded"); as(2, [&] { meth(c, "dataSemRelease"); return 0; }); sx_assert(lk.free_() == 1, "dataSemRelease gives the lock back"); if (!w) as(2, [&] { return meth(c, "write", {a}).cast<bool>(); }); sx_assert(same_bytes(lk.mem(), buf, R * C * item), "row and column default to 0"); memset(buf, 0, 100); sx_assert(as(2, [&] { return meth(c, "read", {a}).cast<bool>(); }) && buf[0] == 1, "read is forwarded");
  as(2, [&] { meth(c, "detach"); return 0; }); sx_assert(!meth(c, "isRunning").cast<bool>(), "detach is forwarded"); as(2, [&] { meth(c, "attach"); return 0; }); sx_assert(meth(c, "isRunning").cast<bool>(), "attach is forwarded"); as(2, [&] { meth(c, "close"); return 0; }); sx_assert(!meth(c, "isRunning").cast<bool>(), "close is forwarded"); as(2, [&] { c = P::object(); return 0; }); sx_assert(mdl_open_fds(2) == 0 && mdl_sem_handles(2) == 0, "the client is released with its Python object");
  std::string ref = as(3, [&] { return PICK(refClient, t, l, v, VLS[vl], safe); }); sx_assert(ref.compare(0, out.size(), out) == 0 && (out.empty() == !(v && ref.size() > 0)), "verbosity is forwarded"); sx_reach(out.empty() ? "quiet" : "talking"); sx_reach("end"); }
// unknown layouts are reported, constants agree, dtype conversion
ENTRY py_consts() { import_(); int lay = (int)sx_sym_u32("layout"), t = choose("type", 4); sx_assert(((P::object)mod->attr("RowMajor")).cast<int>() == RowMajor && ((P::object)mod->attr("ColMajor")).cast<int>() == ColMajor, "layout constants"); static const char *dn[] = {"Float", "Double", "Int", "Bool"}, *vn[] = {"V0", "V1", "V2", "V3"}; P::object d = mod->attr("dtype"), v = mod->attr("VLevel"); sx_assert(((P::object)d.attr(dn[t])).cast<DType>() == DT[t] && ((P::object)v.attr(vn[t])).cast<VL>() == VLS[t], "enumerations"); sx_assert(meth(*mod, "toNumpyDType", {Py(DT[t])}).is(P::dtype_obj(dnum(t))), "element types map to their NumPy type");
  bool known = lay == RowMajor || lay == ColMajor; bool sv = choose("server", 2); bool th = as(1, [&] { return throws([&] { if (sv) server(2, 2, t, lay); else client(t, lay); }); }); sx_assert(th == !known, "an unknown layout is reported by an exception, a known one is not"); sx_reach(th ? "reported" : "built"); sx_reach("end"); }
ENTRY py_defaults() { import_(); Lock_ lk; bool sv = choose("server", 2); if (sv) { P::object o = as(1, [&] { auto o = meth(*mod, "ServerFactory", {}, KW{{"n_rows", Py(2)}, {"n_cols", Py(3)}, {"basename", Py(S_("nm"))}}); meth(o, "run"); return o; }); sx_assert(meth(o, "getScalarType").cast<DType>() == DType::Float && meth(o, "getNamespace").cast<std::string>() == "", "defaults"); static Slot<Client<float, RowMajor>> c; as(2, [&] { c.make(S_("nm"), S_(""), false, VL::V0, true); c->attach(); return 0; }); sx_assert(c->isAttached() && c->getNRows() == 2 && c->getNCols() == 3, "a server is by default float and row-major"); as(2, [&] { c.destroy(); return 0; }); as(1, [&] { o = P::object(); return 0; }); }
  else { static Slot<Server<float, RowMajor>> s; as(1, [&] { s.make(2, 3, S_("nm"), S_(""), false, VL::V0, false, true); s->run(); return 0; }); P::object o = as(2, [&] { auto o = meth(*mod, "ClientFactory", {}, KW{{"basename", Py(S_("nm"))}}); meth(o, "attach"); return o; }); sx_assert(meth(o, "isRunning").cast<bool>() && meth(o, "getNCols").cast<int>() == 3, "a client is by default float and row-major"); as(2, [&] { o = P::object(); return 0; }); } sx_reach("end"); }
// ---- strings through the bindings
static P::object mkList(const std::vector<std::string> &v) { P::list l; for (auto &x : v) l.append(x); return l; }
static std::vector<std::string> unList(const P::object &o) { return o.cast<std::vector<std::string>>(); }
ENTRY py_strings() {
  import_(); Lock_ lk; int N = 2; bool safe = choose("safe", 2), defsafe = safe && choose("defaults", 2); auto S = [&](const char *cls) { return (P::object)mod->attr(cls); };
  P::object s = as(1, [&] { KW kw{{"length", Py(N)}, {"basename", Py(S_("nm"))}, {"name_space", Py(S_("ns"))}}; if (!defsafe) kw.push_back({"safe", Py(safe)}); auto o = P::call_object(S("StringTensorServer"), {}, kw); meth(o, "run"); return o; }), c = as(2, [&] { KW kw{{"basename", Py(S_("nm"))}, {"name_space", Py(S_("ns"))}}; if (!defsafe) kw.push_back({"safe", Py(safe)}); auto o = P::call_object(S("StringTensorClient"), {}, kw); meth(o, "run"); return o; });
  for (int i = 1; i <= 2; i++) { P::object &o = i == 1 ? s : c; sx_assert(meth(o, "isRunning").cast<bool>() && meth(o, "length").cast<int>() == N && meth(o, "getNamespace").cast<std::string>() == "ns" && meth(o, "getBasename").cast<std::string>() == "nm", "accessors of a string tensor"); }
  char *m = lk.mem(); int who = 1 + choose("writer", 2), rd = 1 + choose("reader", 2); P::object &w = who == 1 ? s : c, &r = rd == 1 ? s : c; std::string x(1 + choose("size", 3), 'x'); sx_make_symbolic(&x[0], x.size(), "chars"); for (auto ch : x) sx_assume(ch != 0); bool vec = choose("vector", 2); int idx = choose("default_index", 2) ? 0 : choose("index", N), n = vec ? 1 + choose("strings", N - idx) : 1; bool dflt = idx == 0 && choose("omit_index", 2);
  std::vector<std::string> v(n, x); if (n == 2) v[1] = "zz"; bool ok = as(who, [&] { OV p{vec ? mkList(v) : Py(x)}; if (!dflt) p.push_back(Py(idx)); return meth(w, vec ? "write_vec" : "write_str", p).cast<bool>(); }); sx_assert(ok, "a string that fits is accepted");
  bool rv = choose("read_vector", 2); if (rv) { P::object l = mkList(std::vector<std::string>(n, "old")); bool g = as(rd, [&] { OV p{l}; if (!dflt) p.push_back(Py(idx)); return meth(r, "read_vec", p).cast<bool>(); }); auto q = unList(l); sx_assert(g && q.size() == (size_t)n && q == v, "the list read equals the list written"); P::object e = mkList({}); sx_assert(!as(rd, [&] { return meth(r, "read_vec", {e}).cast<bool>(); }), "an empty list is refused"); }
  else for (int i = 0; i < n; i++) { bool th = false; std::tuple<std::string, bool> q; try { q = as(rd, [&] { OV p; if (idx + i) p.push_back(Py(idx + i)); return meth(r, "read_str", p).cast<std::tuple<std::string, bool>>(); }); } catch (std::exception &) { th = true; } sx_assert(!th, "a string can be read by either endpoint"); sx_assert(std::get<1>(q) && std::get<0>(q) == v[i], "the string read equals the string written"); }
  P::object rb = as(rd, [&] { return meth(r, "get_raw_buffer"); }); auto a = static_cast<P::ArrBox *>(rb.box()); sx_assert(a->t == P::tid<P::ArrBox>() && a->dt.d()->kind == 1 && a->shape.size() == 2 && a->shape[0] == 256 && a->shape[1] == N, "the raw buffer has the shape of the tensor"); int same = 1; for (int i = 0; i < 8; i++) for (int j = idx; j < idx + n; j++) same &= same_bytes(a->ptr + i * a->strides[0] + j * a->strides[1], m + (i * N + j) * 4, 4); sx_assert(same, "the raw buffer holds the columns read");
  // lock option
  sx_set_pid(3); static Slot<Client<int, RowMajor>> h; h.make(S_("nm"), S_("ns"), false, VL::V0, true); h->attach(); h->dataSemAcquire(); sx_set_pid(0); bool held = as(who, [&] { return meth(w, "write_str", {Py(S_("q")), Py(0)}).cast<bool>(); }); sx_assert(held == !safe, "the safe option is forwarded"); as(3, [&] { h->dataSemRelease(); h.destroy(); return 0; });
  as(2, [&] { meth(c, "close"); c = P::object(); return 0; }); as(1, [&] { meth(s, "close"); s = P::object(); return 0; }); sx_assert(mdl_open_fds(1) == 0 && mdl_open_fds(2) == 0, "everything is released"); sx_reach("end"); }
// ---- producer and consumer through the bindings
ENTRY py_pc() { import_(); bool verb = false; auto S = [&](const char *cls) { return (P::object)mod->attr(cls); }; bool left = choose("left_over", 2), force = choose("force", 2); if (left) { as(4, [&] { static Slot<Producer> o; o.make(S_("nm"), S_("ns"), false, VL::V0, false); o->run(); return 0; }); mdl_process_exit(4); }
  P::object p; bool up = as(1, [&] { return !throws([&] { KW kw{{"basename", Py(S_("nm"))}, {"namespace", Py(S_("ns"))}, {"verbose", Py(verb)}}; if (force) kw.push_back({"force_reconnection", Py(true)}); p = P::call_object(S("Producer"), {}, kw); meth(p, "run"); }); }); sx_assert(up == (!left || force), "force_reconnection is forwarded"); if (!up) { sx_reach("refused"); return; }
  P::object c = as(2, [&] { auto o = P::call_object(S("Consumer"), {}, KW{{"basename", Py(S_("nm"))}, {"namespace", Py(S_("ns"))}, {"verbose", Py(verb)}}); meth(o, "run"); return o; }); int ms = (int)sym_range("ms", 1, 100000000); int acks = choose("acks", 3);
  sx_assert(!as(2, [&] { return meth(c, "wait", {}, KW{{"ms_timeout", Py(ms)}}).cast<bool>(); }), "no trigger"); sx_assert(mdl_cv_last_deadline() == (long long)ms * 1000, "the time-out is forwarded"); as(1, [&] { meth(p, "trigger"); return 0; }); sx_assert(as(2, [&] { return choose("blocking", 2) ? meth(c, "wait").cast<bool>() : meth(c, "wait", {Py(ms)}).cast<bool>(); }), "the trigger is seen"); for (int i = 0; i < acks; i++) sx_assert(as(2, [&] { return meth(c, "ack").cast<bool>(); }), "acknowledged"); int n = 1 + choose("asked", 2);
  bool blocking = acks == n && choose("wait_blocking", 2); sx_assert(as(1, [&] { return blocking ? meth(p, "wait_ack_from", {Py(n)}).cast<bool>() : meth(p, "wait_ack_from", {}, KW{{"n_consumers", Py(n)}, {"ms_timeout", Py(ms)}}).cast<bool>(); }) == (acks == n), "the number asked for is forwarded"); as(2, [&] { meth(c, "close"); c = P::object(); return 0; }); as(1, [&] { meth(p, "close"); p = P::object(); return 0; }); sx_assert(mdl_open_fds(1) == 0 && mdl_open_fds(2) == 0, "everything is released"); sx_reach("end"); }
