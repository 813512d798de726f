// Large blocks (C01, C02): tensors of more than a page and more than a thousand cells, so that paths chosen by size are reached.
#include "tensors.hpp"
enum { MAXC = 9300 };
template <class T> static void fill(T *p, int n, const char *nm) { sx_make_symbolic(p, sizeof(T) * n, nm); if (std::is_same<T, bool>::value) for (int i = 0; i < n; i++) ((unsigned char *)p)[i] &= 1; }
template <class T> struct Bits { typedef unsigned char U; static U get(const T *p) { return *(const unsigned char *)p; } };
template <> struct Bits<float> { typedef uint32_t U; static U get(const float *p) { uint32_t v; memcpy(&v, p, 4); return v; } };
template <> struct Bits<int> { typedef uint32_t U; static U get(const int *p) { return *(const uint32_t *)p; } };
template <> struct Bits<double> { typedef uint64_t U; static U get(const double *p) { uint64_t v; memcpy(&v, p, 8); return v; } };
template <class T> static int same(const T *a, const T *b, int n) { typename Bits<T>::U d = 0; for (int i = 0; i < n; i++) d |= Bits<T>::get(a + i) ^ Bits<T>::get(b + i); return d == 0; }
template <class T, int L> static void big() {
  int R = sx_cfg("R", 48), C = sx_cfg("C", 24); static Pair<T, L> P; static Tensor<T, L> own; static T snap[MAXC], before[2 * MAXC], raw[2 * MAXC]; Lock_ lk; P.both(R, C, true, true);
  sx_assert(lk.size() == (long)P.bytes(), "segment has the size of the tensor"); T *mem = (T *)lk.mem(); fill(mem, R * C, "tensor"); for (int i = 0; i < R * C; i++) snap[i] = mem[i];
  int who = 1 + choose("endpoint", 2); bool wr = choose("write", 2); int kind = choose("caller's memory", 5); // 0 whole tensor, 1 block of a larger one, 2 contiguous view, 3 view of every second cell, 4 view with padding between the lines
  int sh = choose("block", 5), br = sh == 0 || sh == 2 ? R : sh == 1 ? R - 1 : sh == 3 ? 1 : 32, bc = sh == 0 || sh == 3 ? C : sh == 1 ? C - 1 : sh == 2 ? 1 : 16; int in = L == RowMajor ? bc : br, out = L == RowMajor ? br : bc, os, is = 1, off, n; T *d;
  if (kind <= 1) { own.resize(br + 2 * kind, bc + 2 * kind); n = (br + 2 * kind) * (bc + 2 * kind); os = in + 2 * kind; off = kind * (os + 1); d = own.data(); } else { is = kind == 3 ? 2 : 1; os = in * is + (kind == 4); off = kind - 2; n = out * os + off; d = raw; }
  fill(d, n, "buffer"); for (int i = 0; i < n; i++) before[i] = d[i];
  int row = (int)sx_sym_u32("row"), col = (int)sx_sym_u32("col"); sx_assume((row < 0) | (row >= R - br - (br < R))); sx_assume((col < 0) | (col >= C - bc - (bc < C))); // the last positions and everything outside
  int fits = (row >= 0) & (col >= 0) & ((long)row + br <= R) & ((long)col + bc <= C); if (fits) { row = (int)sx_concretize(row); col = (int)sx_concretize(col); }
  auto call = [&](auto &e) { if (kind == 0) return wr ? e.write(own, row, col) : e.read(own, row, col); if (kind == 1) { auto b = own.block(1, 1, br, bc); return wr ? e.write(b, row, col) : e.read(b, row, col); } TensorView<T, L> v(raw + off, br, bc, DStrides(os, is)); return wr ? e.write(v, row, col) : e.read(v, row, col); };
  bool ok = who == 1 ? as(1, [&] { return call(*P.s); }) : as(2, [&] { return call(*P.c); }); sx_assert(ok == (bool)fits, "a block of a large tensor is accepted exactly if it lies inside"); sx_assert(lk.free_() == 1, "the data lock is free after the call");
  if (!ok) { sx_assert(same(mem, snap, R * C), "a refused call leaves a large tensor unchanged"); sx_assert(same(d, before, n), "a refused call leaves the caller's memory unchanged"); sx_reach("refused"); return; }
  int r0 = row, c0 = col; T *dst = wr ? snap : before, *src = wr ? before : snap; // bring the snapshot up to date and compare everything
  for (int o = 0; o < out; o++) for (int k = 0; k < in; k++) { int i = L == RowMajor ? o : k, j = L == RowMajor ? k : o; int t = (int)P.at(r0 + i, c0 + j), b = off + o * os + k * is; if (wr) dst[t] = src[b]; else dst[b] = src[t]; }
  sx_assert(same(mem, snap, R * C), wr ? "a write of a large block stores exactly the supplied values" : "a read of a large block leaves the tensor unchanged"); sx_assert(same(d, before, n), wr ? "a write of a large block leaves its source unchanged" : "a read of a large block delivers exactly the addressed cells"); sx_reach(wr ? "written" : "read"); }
// C03: one call on a large tensor; at one of the moments between its semaphore operations another party writes or reads the whole tensor
static Pair<int, RowMajor> Q; static Slot<Client<int>> other; static int when, seen, done_, R2, C2; static bool otherWrites; static uint32_t V0, V1, V2;
static bool all(const uint32_t *p, int n, uint32_t v) { uint32_t d = 0; for (int i = 0; i < n; i++) d |= p[i] ^ v; return d == 0; }
static void setall(uint32_t *p, int n, uint32_t v) { for (int i = 0; i < n; i++) p[i] = v; }
static Tensor<int> ot; static bool otOk;
static void interloper() { if (seen++ != when) return; done_ = 1; as(3, [&] { otOk = otherWrites ? other->write(ot, 0, 0) : other->read(ot, 0, 0); return 0; }); }
ENTRY big_torn() { R2 = sx_cfg("R", 96); C2 = sx_cfg("C", 48); int n = R2 * C2; Lock_ lk; Q.both(R2, C2, true, true); as(3, [&] { other.make(S_("nm"), S_("ns"), false, VL::V0, true); other->attach(); return 0; }); uint32_t *mem = (uint32_t *)lk.mem();
  V0 = sx_sym_u32("v0"); V1 = sx_sym_u32("v1"); V2 = sx_sym_u32("v2"); sx_assume((V0 != V1) & (V1 != V2) & (V0 != V2)); setall(mem, n, V0); int who = 1 + choose("endpoint", 2); bool wr = choose("write", 2), view = choose("view", 2); otherWrites = choose("other writes", 2); when = choose("moment", sx_cfg("moments", 6)); ot.resize(R2, C2); setall((uint32_t *)ot.data(), n, otherWrites ? V2 : 9);
  static Tensor<int> t; t.resize(R2, C2); uint32_t *d = (uint32_t *)t.data(); setall(d, n, wr ? V1 : 7); auto call = [&](auto &e) { if (!view) return wr ? e.write(t, 0, 0) : e.read(t, 0, 0); TensorView<int> v(t.data(), R2, C2, DStrides(C2, 1)); return wr ? e.write(v, 0, 0) : e.read(v, 0, 0); };
  mdl_on_sem(interloper); bool ok = who == 1 ? as(1, [&] { return call(*Q.s); }) : as(2, [&] { return call(*Q.c); }); mdl_on_sem(0); uint32_t *o = (uint32_t *)ot.data();
  if (!done_) sx_assert(ok, "a call nobody disturbs succeeds"); sx_assert(lk.free_() == 1, "the lock is free");
  if (wr) sx_assert(all(mem, n, ok ? V1 : V0) || (otherWrites && done_ && otOk && all(mem, n, V2)), "a large write is never interleaved with another write"); else sx_assert(all(mem, n, otherWrites && done_ && otOk ? V2 : V0), "reading leaves a large tensor as the writes left it");
  if (wr) sx_assert(all(d, n, V1), "a write leaves its source unchanged"); else sx_assert(all(d, n, ok ? V0 : 7) || (ok && otherWrites && done_ && otOk && all(d, n, V2)), "a large read never sees a partial write");
  if (done_ && !otherWrites) sx_assert(otOk ? all(o, n, V0) || (wr && all(o, n, V1)) : all(o, n, 9), "another party's large read never sees a partial write");
  if (done_) sx_reach(otOk ? "other succeeded" : "other refused"); else sx_reach("undisturbed"); sx_reach("end"); }
#define INST(n, T, L) ENTRY big_##n() { big<T, L>(); }
INST(fr, float, RowMajor) INST(fc, float, ColMajor) INST(dr, double, RowMajor) INST(dc, double, ColMajor) INST(ir, int, RowMajor) INST(ic, int, ColMajor) INST(br, bool, RowMajor) INST(bc, bool, ColMajor)
