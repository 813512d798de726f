// Model of the part of pybind11 that the EigenIPC bindings may use: enough of Python's objects, calls, keyword arguments and
// NumPy arrays for the real binding code to run without an interpreter. Semantics follow the pybind11 2.11 documentation.
#pragma once
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
typedef long ssize_t; typedef size_t size_t_;
template <class T> struct tid_ { static char v; }; template <class T> char tid_<T>::v;
template <class T> static inline const void *tid() { return &tid_<typename std::remove_cv<typename std::remove_reference<T>::type>::type>::v; }
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; }; struct error_already_set : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; }; struct value_error : std::runtime_error { using std::runtime_error::runtime_error; }; struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] inline void pybind11_fail(const std::string &s) { throw std::runtime_error(s); }
struct Box { int refs = 0; const void *t; explicit Box(const void *t_) : t(t_) {} virtual ~Box() {} };
template <class T> struct ValBox : Box { T v; explicit ValBox(T x) : Box(tid<T>()), v(std::move(x)) {} };
struct InstBox : Box { void *p; std::shared_ptr<void> owner; InstBox(const void *cls, void *p_, std::shared_ptr<void> o) : Box(cls), p(p_), owner(std::move(o)) {} };
class object; class accessor; class str; template <class T> struct conv;
class handle { protected: Box *b = nullptr; public:
  handle() {} handle(Box *x) : b(x) {} Box *box() const { return b; } Box *ptr() const { return b; } explicit operator bool() const { return b; } bool is(const handle &o) const { return b == o.b; } bool is_none() const; bool not_none() const { return !is_none(); }
  template <class T> T cast() const; accessor attr(const char *n) const; template <class... A> object operator()(A &&...a) const; int ref_count() const { return b ? b->refs : 0; } };
class object : public handle { public:
  object() {} object(Box *x) : handle(x) { if (b) b->refs++; } object(const object &o) : handle(o.b) { if (b) b->refs++; } object(object &&o) noexcept : handle(o.b) { o.b = nullptr; } explicit object(const handle &h) : handle(h) { if (b) b->refs++; }
  ~object() { if (b && !--b->refs) delete b; } object &operator=(object o) { std::swap(b, o.b); return *this; } };
struct NoneTag {}; struct none : object { none() : object(new ValBox<NoneTag>(NoneTag())) {} }; inline bool handle::is_none() const { return b && b->t == tid<NoneTag>(); }
// functions and classes
struct ArgRec { std::string name; object def; bool hasDef = false; };
struct FnRec { std::string name; std::vector<ArgRec> args; size_t arity = 0; std::function<bool(std::vector<object> &)> match; std::function<object(std::vector<object> &)> call; };
struct FnBox : Box { std::vector<FnRec> fns; object self; bool bound = false; FnBox() : Box(tid<FnBox>()) {} };
struct ClassRec { const void *t; std::string name; std::vector<FnRec> methods, statics, inits; std::vector<std::pair<std::string, object>> values; };
struct ClassBox : Box { ClassRec *c; ClassBox(ClassRec *x) : Box(tid<ClassBox>()), c(x) {} };
struct Registry { std::vector<ClassRec *> cls; static Registry &get() { static Registry r; return r; } ClassRec *find(const void *t) { for (auto c : cls) if (c->t == t) return c; return nullptr; } };
struct ModBox : Box { std::vector<std::pair<std::string, object>> attrs; std::vector<FnRec> fns; ModBox() : Box(tid<ModBox>()) {} };
struct ListBox : Box { std::vector<object> v; ListBox() : Box(tid<ListBox>()) {} };
// argument descriptions
struct arg_v { std::string name; object def; }; struct arg { std::string name; explicit arg(const char *n) : name(n) {} template <class T> arg_v operator=(T &&v) const; arg &noconvert(bool = true) { return *this; } arg &none(bool = true) { return *this; } };
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct module_local { module_local() {} }; struct dynamic_attr {}; struct arithmetic {}; template <class... T> struct call_guard {}; struct gil_scoped_release {}; struct gil_scoped_acquire {}; template <size_t N, size_t P> struct keep_alive {}; struct doc { explicit doc(const char *) {} };
struct kwarg { const char *name; object v; }; // used by harnesses
object call_fns(const std::vector<FnRec> &fns, std::vector<object> pos, const std::vector<kwarg> &kw);
// Python to C++
template <class T> struct is_value : std::integral_constant<bool, std::is_arithmetic<T>::value || std::is_enum<T>::value || std::is_same<T, std::string>::value> {};
template <class T, class E = void> struct loader { // instances of bound classes
  T *p = nullptr; bool load(const object &o) { if (!o.box() || o.box()->t != tid<T>() || !dynamic_inst(o.box())) return false; p = (T *)static_cast<InstBox *>(o.box())->p; return true; } T &ref() { return *p; } static bool dynamic_inst(Box *) { return true; } };
template <class T> struct loader<T, typename std::enable_if<std::is_enum<T>::value || std::is_same<T, std::string>::value>::type> { T v; bool load(const object &o) { if (!o.box() || o.box()->t != tid<T>()) return false; v = static_cast<ValBox<T> *>(o.box())->v; return true; } T &ref() { return v; } };
template <class T> struct loader<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { T v; template <class U> bool from(const object &o) { if (o.box()->t != tid<U>()) return false; v = (T)static_cast<ValBox<U> *>(o.box())->v; return true; }
  bool load(const object &o) { if (!o.box()) return false; return from<bool>(o) || from<int>(o) || from<long>(o) || (std::is_floating_point<T>::value && from<double>(o)); } T &ref() { return v; } };
template <class T> struct loader<T, typename std::enable_if<std::is_base_of<object, T>::value>::type> { T v; bool load(const object &o) { return T::load_(o, v); } T &ref() { return v; } };
template <> struct loader<object, void> { object v; bool load(const object &o) { v = o; return true; } object &ref() { return v; } };
template <> struct loader<handle, void> { handle v; bool load(const object &o) { v = o; return true; } handle &ref() { return v; } };
template <class U> struct loader<std::vector<U>, void> { std::vector<U> v; bool load(const object &o) { if (!o.box() || o.box()->t != tid<ListBox>()) return false; for (auto &x : static_cast<ListBox *>(o.box())->v) { loader<U> l; if (!l.load(x)) return false; v.push_back(l.ref()); } return true; } std::vector<U> &ref() { return v; } };
template <class U> struct loader<std::shared_ptr<U>, void> { std::shared_ptr<U> v; bool load(const object &o) { if (!o.box() || o.box()->t != tid<U>()) return false; auto i = static_cast<InstBox *>(o.box()); v = std::shared_ptr<U>(i->owner, (U *)i->p); return true; } std::shared_ptr<U> &ref() { return v; } };
template <class A, class B> struct loader<std::tuple<A, B>, void> { std::tuple<A, B> v; bool load(const object &o) { if (o.box()->t != tid<std::tuple<A, B>>()) return false; v = static_cast<ValBox<std::tuple<A, B>> *>(o.box())->v; return true; } std::tuple<A, B> &ref() { return v; } };
template <class T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
// C++ to Python
template <class T, class E = void> struct putter { static object put(T x) { auto s = std::make_shared<T>(std::move(x)); return object(new InstBox(tid<T>(), s.get(), s)); } };
template <class T> struct putter<T, typename std::enable_if<is_value<T>::value>::type> { static object put(const T &x) { return object(new ValBox<T>(x)); } };
template <class T> struct putter<T, typename std::enable_if<std::is_base_of<handle, T>::value>::type> { static object put(const T &x) { return object(x); } };
template <class T> struct putter<std::shared_ptr<T>, void> { static object put(const std::shared_ptr<T> &x) { return object(new InstBox(tid<T>(), x.get(), x)); } };
template <class T> struct putter<std::unique_ptr<T>, void> { static object put(std::unique_ptr<T> x) { std::shared_ptr<T> s(std::move(x)); return object(new InstBox(tid<T>(), s.get(), s)); } };
template <class T> struct putter<std::vector<T>, void> { static object put(const std::vector<T> &x) { auto l = new ListBox; object o(l); for (auto &e : x) l->v.push_back(putter<T>::put(e)); return o; } };
template <class A, class B> struct putter<std::tuple<A, B>, void> { static object put(const std::tuple<A, B> &x) { return object(new ValBox<std::tuple<A, B>>(x)); } };
template <class A, class B> struct putter<std::pair<A, B>, void> { static object put(const std::pair<A, B> &x) { return object(new ValBox<std::tuple<A, B>>(std::tuple<A, B>(x.first, x.second))); } };
template <class T> struct putter<T *, void> { static object put(T *x) { return object(new InstBox(tid<T>(), x, nullptr)); } };
template <> struct putter<const char *, void> { static object put(const char *x) { return object(new ValBox<std::string>(x)); } };
template <> struct putter<char *, void> { static object put(const char *x) { return object(new ValBox<std::string>(x)); } };
template <class T> object cast(T &&x, return_value_policy = return_value_policy::automatic, handle = handle()) { return putter<typename std::decay<T>::type>::put(std::forward<T>(x)); }
template <class T> T cast(const object &o) { loader<bare<T>> l; if (!l.load(o)) throw cast_error("Unable to cast Python instance to C++ type"); return static_cast<T>(l.ref()); }
template <class T> T handle::cast() const { loader<bare<T>> l; if (!l.load(object(*this))) throw cast_error("Unable to cast Python instance to C++ type"); return static_cast<T>(l.ref()); }
template <class T> arg_v arg::operator=(T &&v) const { return arg_v{name, pybind11::cast(std::forward<T>(v))}; }
// calls
template <class... A> struct Pack { std::tuple<loader<bare<A>>...> l; template <size_t... I> bool load(std::vector<object> &a, std::index_sequence<I...>) { bool ok = a.size() == sizeof...(A); int x[] = {0, (ok = ok && std::get<I>(l).load(a[I]), 0)...}; (void)x; return ok; } };
template <class R, class F, class... A, size_t... I> object invoke(F &f, Pack<A...> &p, std::index_sequence<I...>) { if constexpr (std::is_void<R>::value) { f(static_cast<A>(std::get<I>(p.l).ref())...); return none(); } else return putter<typename std::decay<R>::type>::put(f(static_cast<A>(std::get<I>(p.l).ref())...)); }
template <class R, class... A, class F> FnRec make(const char *n, F f) { FnRec r; r.name = n; r.arity = sizeof...(A); r.match = [](std::vector<object> &a) { Pack<A...> p; return p.load(a, std::index_sequence_for<A...>()); };
  r.call = [f](std::vector<object> &a) mutable -> object { Pack<A...> p; if (!p.load(a, std::index_sequence_for<A...>())) throw type_error("incompatible function arguments"); return invoke<R>(f, p, std::index_sequence_for<A...>()); }; return r; }
template <class L> struct sig : sig<decltype(&L::operator())> {};
template <class C, class R, class... A> struct sig<R (C::*)(A...) const> { template <class F> static FnRec mk(const char *n, F f) { return make<R, A...>(n, f); } };
template <class C, class R, class... A> struct sig<R (C::*)(A...)> { template <class F> static FnRec mk(const char *n, F f) { return make<R, A...>(n, f); } };
template <class R, class... A> FnRec record(const char *n, R (*f)(A...)) { return make<R, A...>(n, f); }
template <class T, class R, class C, class... A> FnRec record_m(const char *n, R (C::*f)(A...)) { return make<R, T &, A...>(n, [f](T &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }); }
template <class T, class R, class C, class... A> FnRec record_m(const char *n, R (C::*f)(A...) const) { return make<R, T &, A...>(n, [f](T &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }); }
template <class L, class = decltype(&L::operator())> FnRec record(const char *n, L f) { return sig<L>::mk(n, f); }
template <class T, class L, class = decltype(&L::operator())> FnRec record_m(const char *n, L f) { return sig<L>::mk(n, f); }
template <class T, class R, class... A> FnRec record_m(const char *n, R (*f)(A...)) { return make<R, A...>(n, f); }
inline void extra(FnRec &r, const arg &a) { ArgRec x; x.name = a.name; r.args.push_back(x); } inline void extra(FnRec &r, const arg_v &a) { ArgRec x; x.name = a.name; x.def = a.def; x.hasDef = true; r.args.push_back(x); } template <class X> void extra(FnRec &, const X &) {}
template <class... X> void extras(FnRec &r, const X &...x) { int q[] = {0, (extra(r, x), 0)...}; (void)q; }
inline object call_fns(const std::vector<FnRec> &fns, const std::string &name, std::vector<object> pos, const std::vector<kwarg> &kw, bool method) {
  for (auto &f : fns) { if (f.name != name) continue; std::vector<object> a = pos; size_t off = method ? 1 : 0, used = 0; if (a.size() > f.arity) continue; bool ok = true;
    while (a.size() < f.arity) { size_t i = a.size() - off; if (i >= f.args.size()) { ok = false; break; } const kwarg *k = nullptr; for (auto &x : kw) if (f.args[i].name == x.name) k = &x; if (k) { a.push_back(k->v); used++; } else if (f.args[i].hasDef) a.push_back(f.args[i].def); else { ok = false; break; } }
    if (!ok || used != kw.size() || !f.match(a)) continue; auto c = f.call; return c(a); }
  throw type_error("incompatible function arguments"); }
inline object call_object(const handle &o, std::vector<object> pos, const std::vector<kwarg> &kw);
template <class... A> struct init {}; template <class... A> struct init_alias {};
template <class... A> struct overload_cast_ { template <class R> auto operator()(R (*f)(A...)) const { return f; } template <class R, class C> auto operator()(R (C::*f)(A...)) const { return f; } template <class R, class C> auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; } };
template <class... A> struct overload_cast_t : overload_cast_<A...> {}; template <class... A> static constexpr overload_cast_t<A...> overload_cast = {}; static constexpr std::true_type const_ = {};
class module_ : public object { public:
  module_() : object(new ModBox) {} ModBox *m() const { return static_cast<ModBox *>(b); }
  template <class F, class... X> module_ &def(const char *n, F &&f, const X &...x) { FnRec r = record(n, std::forward<F>(f)); extras(r, x...); m()->fns.push_back(r); return *this; }
  struct slot { ModBox *m; std::string n; template <class T> void operator=(T v) { m->attrs.push_back({n, pybind11::cast(v)}); } template <class... A> object operator()(A &&...a) { return call({pybind11::cast(std::forward<A>(a))...}, {}); } object call(std::vector<object> pos, std::vector<kwarg> kw);
    operator object() { for (auto &p : m->attrs) if (p.first == n) return p.second; throw error_already_set("no attribute " + n); } };
  slot attr(const char *n) const { return slot{m(), n}; } struct doc_ { void operator=(const char *) {} }; doc_ &doc() { static doc_ d; return d; } template <class... X> module_ def_submodule(const char *n, const X &...) { module_ s; m()->attrs.push_back({n, s}); return s; } };
typedef module_ module;
template <class T, class... H> class class_ : public object { ClassRec *c; public:
  template <class... X> class_(const handle &m, const char *n, const X &...) { c = new ClassRec; c->t = tid<T>(); c->name = n; Registry::get().cls.push_back(c); object o(new ClassBox(c)); static_cast<ModBox *>(m.box())->attrs.push_back({n, o}); object::operator=(o); }
  template <class... A, class... X> class_ &def(const init<A...> &, const X &...x) { FnRec r = make<std::shared_ptr<T>, A...>("__init__", [](A... a) { return std::make_shared<T>(std::forward<A>(a)...); }); extras(r, x...); c->inits.push_back(r); return *this; }
  template <class F, class... X> class_ &def(const char *n, F &&f, const X &...x) { FnRec r = record_m<T>(n, std::forward<F>(f)); extras(r, x...); c->methods.push_back(r); return *this; }
  template <class F, class... X> class_ &def_static(const char *n, F &&f, const X &...x) { FnRec r = record(n, std::forward<F>(f)); extras(r, x...); c->statics.push_back(r); return *this; }
  template <class M, class... X> class_ &def_readwrite(const char *, M, const X &...) { return *this; } template <class M, class... X> class_ &def_readonly(const char *, M, const X &...) { return *this; } template <class M, class... X> class_ &def_property_readonly(const char *n, M f, const X &...) { FnRec r = record_m<T>(n, f); c->methods.push_back(r); return *this; } };
template <class T> class enum_ : public object { ClassRec *c; public: template <class... X> enum_(const handle &m, const char *n, const X &...) { c = new ClassRec; c->t = tid<T>(); c->name = n; Registry::get().cls.push_back(c); object o(new ClassBox(c)); static_cast<ModBox *>(m.box())->attrs.push_back({n, o}); object::operator=(o); } enum_ &value(const char *n, T v, const char * = nullptr) { c->values.push_back({n, pybind11::cast(v)}); return *this; } enum_ &export_values() { return *this; } };
class accessor { object o; std::string n; public: accessor(object o_, const char *n_) : o(std::move(o_)), n(n_) {}
  object call(std::vector<object> pos, const std::vector<kwarg> &kw) const { Box *x = o.box(); if (!x) throw error_already_set("null object");
    if (x->t == tid<ListBox>()) { auto l = static_cast<ListBox *>(x); if (n == "clear") { l->v.clear(); return none(); } if (n == "append") { l->v.push_back(pos[0]); return none(); } }
    if (x->t == tid<ModBox>()) { auto m = static_cast<ModBox *>(x); for (auto &f : m->fns) if (f.name == n) return call_fns(m->fns, n, std::move(pos), kw, false); for (auto &p : m->attrs) if (p.first == n) return call_object(p.second, std::move(pos), kw); throw error_already_set("no attribute " + n); }
    if (x->t == tid<ClassBox>()) return call_fns(static_cast<ClassBox *>(x)->c->statics, n, std::move(pos), kw, false);
    ClassRec *c = Registry::get().find(x->t); if (!c) throw error_already_set("no attribute " + n); for (auto &f : c->methods) if (f.name == n) { pos.insert(pos.begin(), o); return call_fns(c->methods, n, std::move(pos), kw, true); } for (auto &f : c->statics) if (f.name == n) return call_fns(c->statics, n, std::move(pos), kw, false); throw error_already_set("no attribute " + n); }
  template <class... A> object operator()(A &&...a) const { return call({pybind11::cast(std::forward<A>(a))...}, {}); }
  operator object() const { Box *x = o.box(); if (x->t == tid<ModBox>()) for (auto &p : static_cast<ModBox *>(x)->attrs) if (p.first == n) return p.second; if (x->t == tid<ClassBox>()) for (auto &p : static_cast<ClassBox *>(x)->c->values) if (p.first == n) return p.second; throw error_already_set("no attribute " + n); }
  template <class T> T cast() const { return object(*this).cast<T>(); } };
inline accessor handle::attr(const char *n) const { return accessor(object(*this), n); }
inline object call_object(const handle &o, std::vector<object> pos, const std::vector<kwarg> &kw) { Box *x = o.box(); if (x && x->t == tid<ClassBox>()) { auto c = static_cast<ClassBox *>(x)->c; return call_fns(c->inits, "__init__", std::move(pos), kw, false); } throw error_already_set("object is not callable"); }
template <class... A> object handle::operator()(A &&...a) const { return call_object(*this, {pybind11::cast(std::forward<A>(a))...}, {}); }
inline object module_::slot::call(std::vector<object> pos, std::vector<kwarg> kw) { return accessor(object(m), n.c_str()).call(std::move(pos), kw); }
class list : public object { public: list() : object(new ListBox) {} list(const object &o) : object(o) {} ListBox *l() const { return static_cast<ListBox *>(b); } static bool load_(const object &o, list &v) { if (!o.box() || o.box()->t != tid<ListBox>()) return false; v = list(o); return true; }
  bool empty() const { return l()->v.empty(); } size_t size() const { return l()->v.size(); } std::vector<object>::iterator begin() const { return l()->v.begin(); } std::vector<object>::iterator end() const { return l()->v.end(); } template <class T> void append(T &&x) const { l()->v.push_back(pybind11::cast(std::forward<T>(x))); } object &operator[](size_t i) const { if (i >= size()) throw index_error("list index out of range"); return l()->v[i]; } };
inline size_t len(const handle &h) { return static_cast<ListBox *>(h.box())->v.size(); }
class str : public object { public: str() : object(new ValBox<std::string>(std::string())) {} str(const char *s) : object(new ValBox<std::string>(s)) {} str(const std::string &s) : object(new ValBox<std::string>(s)) {} explicit str(const handle &h); operator std::string() const { return static_cast<ValBox<std::string> *>(b)->v; } static bool load_(const object &o, str &v) { if (o.box()->t != tid<std::string>()) return false; v = str(static_cast<ValBox<std::string> *>(o.box())->v); return true; } };
struct buffer_info { void *ptr = nullptr; ssize_t itemsize = 0; ssize_t size = 0; std::string format; ssize_t ndim = 0; std::vector<ssize_t> shape, strides; bool readonly = false; };
// NumPy
struct DtBox : Box { int kind; ssize_t item; std::string name; char ch; DtBox(int k, ssize_t i, const char *n, char c) : Box(tid<DtBox>()), kind(k), item(i), name(n), ch(c) {} };
template <class T> struct dtnum; template <> struct dtnum<bool> { static const int k = 0; }; template <> struct dtnum<int> { static const int k = 1; }; template <> struct dtnum<float> { static const int k = 2; }; template <> struct dtnum<double> { static const int k = 3; }; template <> struct dtnum<long> { static const int k = 4; }; template <> struct dtnum<unsigned char> { static const int k = 5; }; template <> struct dtnum<unsigned int> { static const int k = 6; };
inline object dtype_obj(int k) { static object d[7] = {object(new DtBox(0, 1, "bool", 'b')), object(new DtBox(1, 4, "int32", 'i')), object(new DtBox(2, 4, "float32", 'f')), object(new DtBox(3, 8, "float64", 'f')), object(new DtBox(4, 8, "int64", 'i')), object(new DtBox(5, 1, "uint8", 'u')), object(new DtBox(6, 4, "uint32", 'u'))}; return d[k]; }
class dtype : public object { public: dtype(const object &o) : object(o) {} dtype() {} DtBox *d() const { return static_cast<DtBox *>(b); } template <class T> static dtype of() { return dtype(dtype_obj(dtnum<T>::k)); } ssize_t itemsize() const { return d()->item; } char kind() const { return d()->ch; } char char_() const { return "?ifdlBI"[d()->kind]; } char type() const { return char_(); } std::string name() const { return d()->name; } ssize_t alignment() const { return d()->item; } char byteorder() const { return d()->item == 1 ? '|' : '='; } bool not_equal(const dtype &o) const { return !equal(o); } bool operator!=(const dtype &o) const { return !equal(o); } int num() const { return d()->kind; } bool equal(const dtype &o) const { return d()->kind == o.d()->kind; } bool operator==(const dtype &o) const { return equal(o); } static bool load_(const object &o, dtype &v) { if (o.box()->t != tid<DtBox>()) return false; v = dtype(o); return true; } };
inline str::str(const handle &h) : object() { std::string s = h.box()->t == tid<DtBox>() ? static_cast<DtBox *>(h.box())->name : h.box()->t == tid<std::string>() ? static_cast<ValBox<std::string> *>(h.box())->v : std::string("<object>"); object::operator=(object(new ValBox<std::string>(s))); }
struct ArrBox : Box { dtype dt; std::vector<ssize_t> shape, strides; char *ptr; std::unique_ptr<char[]> own; bool readonly = false; ArrBox() : Box(tid<ArrBox>()) {} };
class array : public object { public: array() {} array(const object &o) : object(o) {} ArrBox *a() const { return static_cast<ArrBox *>(b); } static bool load_(const object &o, array &v) { if (!o.box() || o.box()->t != tid<ArrBox>()) return false; v.object::operator=(o); return true; }
  enum { c_style = 1, f_style = 2, forcecast = 16 }; pybind11::dtype dtype() const { return a()->dt; } ssize_t ndim() const { return a()->shape.size(); } ssize_t shape(ssize_t i) const { return a()->shape.at(i); } ssize_t strides(ssize_t i) const { return a()->strides.at(i); } const ssize_t *shape() const { return a()->shape.data(); } const ssize_t *strides() const { return a()->strides.data(); } ssize_t itemsize() const { return a()->dt.itemsize(); } ssize_t size() const { ssize_t n = 1; for (auto s : a()->shape) n *= s; return n; } ssize_t nbytes() const { return size() * itemsize(); } bool writeable() const { return !a()->readonly; } void *mutable_data() { if (a()->readonly) throw std::domain_error("array is not writeable"); return a()->ptr; } const void *data() const { return a()->ptr; }
  template <class... I> ssize_t offset_at(I... i) const { if ((ssize_t)sizeof...(I) > ndim()) throw index_error("too many indices for an array"); ssize_t x[] = {(ssize_t)i..., 0}, o = 0; for (size_t k = 0; k < sizeof...(I); k++) { if (x[k] < 0 || x[k] >= a()->shape[k]) throw index_error("index is out of bounds"); o += x[k] * a()->strides[k]; } return o; }
  template <class... I> const void *data(ssize_t i, I... r) const { return a()->ptr + offset_at(i, r...); } template <class... I> void *mutable_data(ssize_t i, I... r) { return (char *)mutable_data() + offset_at(i, r...); } int flags() const { ssize_t n = itemsize(); bool c = true, f = true; for (size_t k = a()->shape.size(); k-- > 0;) { c = c && a()->strides[k] == n; n *= a()->shape[k]; } n = itemsize(); for (size_t k = 0; k < a()->shape.size(); k++) { f = f && a()->strides[k] == n; n *= a()->shape[k]; } return (c ? c_style : 0) | (f ? f_style : 0); } bool owndata() const { return (bool)a()->own; }
  buffer_info request(bool writable = false) const { if (writable && a()->readonly) throw error_already_set("array is not writeable"); buffer_info i; i.ptr = a()->ptr; i.itemsize = itemsize(); i.ndim = ndim(); i.shape = a()->shape; i.strides = a()->strides; i.size = size(); i.readonly = a()->readonly; i.format = a()->dt.d()->kind == 0 ? "?" : a()->dt.d()->kind == 1 ? "i" : a()->dt.d()->kind == 2 ? "f" : a()->dt.d()->kind == 3 ? "d" : a()->dt.d()->kind == 4 ? "l" : "B"; return i; } };
template <class T, int F = array::forcecast> class array_t : public array { public: array_t() {} array_t(const object &o) : array(o) {}
  array_t(std::vector<ssize_t> shape) { auto x = new ArrBox; x->dt = pybind11::dtype::of<T>(); x->shape = shape; x->strides.resize(shape.size()); ssize_t n = sizeof(T); for (size_t i = shape.size(); i-- > 0;) { x->strides[i] = n; n *= shape[i]; } x->own.reset(new char[n]); x->ptr = x->own.get(); object::operator=(object(x)); }
  array_t(std::initializer_list<ssize_t> s) : array_t(std::vector<ssize_t>(s)) {}
  static bool load_(const object &o, array_t &v) { if (!o.box() || o.box()->t != tid<ArrBox>()) return false; auto s = static_cast<ArrBox *>(o.box()); if (s->dt.d()->kind == dtnum<T>::k && s->strides.size() == s->shape.size()) { v.object::operator=(o); return true; } // another element type: converted copy (forcecast)
    array_t c(s->shape); ArrBox *d = c.a(); ssize_t n = c.size(); (void)n; convert(s, d); v.object::operator=(c); return true; }
  static void convert(ArrBox *s, ArrBox *d) { if (s->shape.size() != 2) return; for (ssize_t i = 0; i < s->shape[0]; i++) for (ssize_t j = 0; j < s->shape[1]; j++) { char *p = s->ptr + i * s->strides[0] + j * s->strides[1]; T *q = (T *)(d->ptr + i * d->strides[0] + j * d->strides[1]); switch (s->dt.d()->kind) { case 0: case 5: *q = (T) * (unsigned char *)p; break; case 1: case 6: *q = (T) * (int *)p; break; case 2: *q = (T) * (float *)p; break; case 3: *q = (T) * (double *)p; break; default: *q = (T) * (long *)p; } } }
  T *mutable_data() { return (T *)array::mutable_data(); } const T *data() const { return (const T *)a()->ptr; }
  template <class... I> const T *data(ssize_t i, I... r) const { return (const T *)array::data(i, r...); } template <class... I> T *mutable_data(ssize_t i, I... r) { return (T *)array::mutable_data(i, r...); } template <class... I> const T &at(I... i) const { return *(const T *)array::data((ssize_t)i...); } template <class... I> T &mutable_at(I... i) { return *(T *)array::mutable_data((ssize_t)i...); } template <class... I> ssize_t index_at(I... i) const { return this->offset_at(i...) / (ssize_t)sizeof(T); }
  template <class U> struct view_ { ArrBox *x; template <class... I> U &operator()(I... i) const { ssize_t k[] = {(ssize_t)i...}, o = 0; for (size_t q = 0; q < sizeof...(I); q++) o += k[q] * x->strides[q]; return *(U *)(x->ptr + o); } ssize_t shape(ssize_t i) const { return x->shape[i]; } ssize_t ndim() const { return x->shape.size(); } U *data(ssize_t i, ssize_t j) const { return &(*this)(i, j); } U *mutable_data(ssize_t i, ssize_t j) const { return &(*this)(i, j); } };
  template <ssize_t D = -1> view_<const T> unchecked() const { if (D >= 0 && D != this->ndim()) throw std::domain_error("array has incorrect number of dimensions"); return {a()}; } template <ssize_t D = -1> view_<T> mutable_unchecked() { (void)array::mutable_data(); if (D >= 0 && D != this->ndim()) throw std::domain_error("array has incorrect number of dimensions"); return {a()}; } };
template <class T> bool isinstance(const handle &h) { if (!h.box()) return false; if constexpr (std::is_same<T, object>::value || std::is_same<T, handle>::value) return true; else if constexpr (std::is_same<T, none>::value) return h.is_none(); else if constexpr (std::is_same<T, array>::value) return h.box()->t == tid<ArrBox>(); else if constexpr (std::is_base_of<array, T>::value) { typedef typename std::remove_cv<typename std::remove_pointer<decltype(std::declval<T &>().mutable_data())>::type>::type E; return h.box()->t == tid<ArrBox>() && static_cast<ArrBox *>(h.box())->dt.d()->kind == dtnum<E>::k; } else { loader<bare<T>> l; return l.load(object(h)); } }
inline bool hasattr(const handle &h, const char *n) { Box *x = h.box(); if (!x) return false; if (x->t == tid<ModBox>()) { auto m = static_cast<ModBox *>(x); for (auto &f : m->fns) if (f.name == n) return true; for (auto &p : m->attrs) if (p.first == n) return true; return false; } if (x->t == tid<ClassBox>()) { auto c = static_cast<ClassBox *>(x)->c; for (auto &f : c->statics) if (f.name == n) return true; for (auto &f : c->methods) if (f.name == n) return true; for (auto &p : c->values) if (p.first == n) return true; return false; } ClassRec *c = Registry::get().find(x->t); if (!c) return false; for (auto &f : c->methods) if (f.name == n) return true; return false; }
inline accessor getattr(const handle &h, const char *n) { return accessor(object(h), n); }
template <class T> T reinterpret_borrow(const handle &h) { return T(object(h)); }
}
#define PYBIND11_MODULE(name, variable) extern "C" void sx_pymodule_##name(::pybind11::module_ &variable)
