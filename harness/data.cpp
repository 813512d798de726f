// Block reads and writes: exactness, bounds, lock discipline, inactive endpoints (C01, C02, C04, C10).
#include "tensors.hpp"
// A caller-side buffer with room around the block; the block is described by a reference or a strided view.
template <class T, int L> struct Buf {
  enum { MAXN = 96 }; alignas(16) T raw[MAXN]; T before[MAXN]; Tensor<T, L> own; int n = 0, os = 0, is = 1, off = 0, br, bc;
  bool isRef, whole;
  void setup(int ref, int br_, int bc_, int pattern) { // ref: 0 a view, 1 a block of a larger tensor, 2 a whole tensor
    br = br_; bc = bc_; isRef = ref; int in = L == RowMajor ? bc : br, out = L == RowMajor ? br : bc;
    if (ref == 2) { own.resize(br, bc); n = br * bc; os = in; is = 1; off = 0; symfill(own.data(), n, "buffer"); memcpy(before, own.data(), n * sizeof(T)); whole = true; return; }
    whole = false; if (ref) { own.resize(br + 2, bc + 2); n = (br + 2) * (bc + 2); os = L == RowMajor ? bc + 2 : br + 2; is = 1; off = os + 1; symfill(own.data(), n, "buffer"); memcpy(before, own.data(), n * sizeof(T)); return; }
    switch (pattern) {
      case 0: is = 1; os = in ? in : 1; off = 0; n = in * out; break;                                    // contiguous
      case 1: is = 2; os = 2 * in + 1; off = 1; n = out * os + 2; break;                                  // padded in both directions
      case 2: is = out + 1; os = 1; off = 1; n = in * is + out + 2; break;                                // transposed (inner stride larger than outer)
      case 3: is = -1; os = -(in + 1); n = out * (in + 1) + 3; off = n - 2; break;                        // reversed in both directions
      case 4: is = 1; os = in + 1; off = 1; n = out * os + 2; break;                                      // rows (columns) with padding between them
      case 5: is = -1; os = in + 1; off = in; n = out * os + 2; break;                                    // reversed in one direction
      default: is = 0; os = 0; off = 0; n = 2; break; }                                                   // broadcast (source only)
    if (n < 1) n = 1; symfill(raw, n, "buffer"); memcpy(before, raw, n * sizeof(T)); }
  T *data() { return isRef ? own.data() : raw; }
  int at(int i, int j) { int in = L == RowMajor ? j : i, out = L == RowMajor ? i : j; return off + out * os + in * is; }
  TensorView<T, L> view() { return TensorView<T, L>(raw + off, br, bc, DStrides(os, is)); }
  int unchanged() { return same_bytes(data(), before, n * sizeof(T)); }
  bool addressed(int k) { for (int i = 0; i < br; i++) for (int j = 0; j < bc; j++) if (at(i, j) == k) return true; return false; }
};
template <class Ep, class T, int L> static bool call(Ep &e, Buf<T, L> &b, bool wr, int row, int col) {
  if (b.isRef && b.whole) return wr ? e.write(b.own, row, col) : e.read(b.own, row, col);
  if (b.isRef) { auto blk = b.own.block(1, 1, b.br, b.bc); return wr ? e.write(blk, row, col) : e.read(blk, row, col); }
  auto v = b.view(); return wr ? e.write(v, row, col) : e.read(v, row, col); }
template <class T, int L> static bool op(Pair<T, L> &P, int who, Buf<T, L> &b, bool wr, int row, int col) { return who == 1 ? as(1, [&] { return call(*P.s, b, wr, row, col); }) : as(2, [&] { return call(*P.c, b, wr, row, col); }); }

static char snap[1024];
// C01 + C02: any block size, any 32-bit position, any contents
template <class T, int L> static void rw() {
  int R = sx_cfg("R", 2), C = sx_cfg("C", 3); static Pair<T, L> P; static Buf<T, L> B; bool safe = sx_cfg("safe", 1); Lock_ lk;
  P.both(R, C, safe, safe);
  sx_assert(lk.size() == (long)P.bytes(), "segment has the size of the tensor");
  char *mem = lk.mem(); symfill((T *)mem, R * C, "tensor"); memcpy(snap, mem, P.bytes());
  int who = 1 + choose("endpoint", 2); bool wr = choose("write", 2); int ref = choose("by_reference", 3);
  int lo = sx_cfg("minblk", 1), br = lo + choose("block_rows", R + 2 - lo), bc = lo + choose("block_cols", C + 2 - lo);
  int pat = ref ? 0 : choose("stride_pattern", wr ? 7 : 6); if (pat > sx_cfg("maxpat", 6) && pat != 4) sx_exit_thread();
  B.setup(ref, br, bc, pat);
  int row = (int)sx_sym_u32("row"), col = (int)sx_sym_u32("col");
  int fits = (row >= 0) & (col >= 0) & ((long)row + br <= R) & ((long)col + bc <= C) & (row < R) & (col < C);
  int ops0 = lk.ops();
  bool ok = op(P, who, B, wr, row, col);
  if (br > 0 && bc > 0) { if (ok) sx_assert(fits, "a block outside the tensor is refused"); else sx_assert(!fits, "a block inside the tensor is accepted"); }
  if (safe) sx_assert(lk.free_() == 1, "the data lock is free after the call"); else sx_assert(lk.ops() == ops0, "an unsafe endpoint does not touch the data lock");
  int r0 = ok ? (int)sx_concretize(row) : 0, c0 = ok ? (int)sx_concretize(col) : 0;
  if (!ok) { sx_assert(same_bytes(mem, snap, P.bytes()), "a refused call leaves the tensor unchanged"); sx_assert(B.unchanged(), "a refused call leaves the caller's memory unchanged"); sx_reach("refused"); }
  else if (wr) {
    int good = 1, rest = 1;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { size_t k = P.at(i, j) * sizeof(T); bool in = i >= r0 && i < r0 + br && j >= c0 && j < c0 + bc;
      if (in) good &= same_bytes(mem + k, B.before + B.at(i - r0, j - c0), sizeof(T)); else rest &= same_bytes(mem + k, snap + k, sizeof(T)); }
    sx_assert(good, "a successful write stores exactly the supplied values"); sx_assert(rest, "a write changes no cell outside the block"); sx_assert(B.unchanged(), "a write leaves its source unchanged"); sx_reach("written");
  } else {
    int good = 1, rest = 1; T *d = B.data();
    for (int i = 0; i < br; i++) for (int j = 0; j < bc; j++) good &= same_bytes(d + B.at(i, j), snap + P.at(r0 + i, c0 + j) * sizeof(T), sizeof(T));
    for (int k = 0; k < B.n; k++) if (!B.addressed(k)) rest &= same_bytes(d + k, B.before + k, sizeof(T));
    sx_assert(good, "a successful read delivers exactly the addressed cells"); sx_assert(rest, "a read changes nothing outside the destination block"); sx_assert(same_bytes(mem, snap, P.bytes()), "a read leaves the tensor unchanged"); sx_reach("read"); }
  // the endpoint keeps working
  if (!ok && sx_cfg("after", 1)) { static Buf<T, L> W; W.setup(true, R, C, 0); sx_assert(op(P, who, W, true, 0, 0), "a full write succeeds after a refusal"); int g = 1; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) g &= same_bytes(mem + P.at(i, j) * sizeof(T), W.before + W.at(i, j), sizeof(T)); sx_assert(g, "a full write is exact after a refusal"); }
}
// C04: another party holds the data lock
template <class T, int L> static void held() {
  int R = 2, C = 2; static Pair<T, L> P; static Buf<T, L> B; Lock_ lk; bool ssafe = choose("server_safe", 2), csafe = choose("client_safe", 2);
  P.both(R, C, ssafe, csafe); char *mem = lk.mem(); symfill((T *)mem, R * C, "tensor"); memcpy(snap, mem, P.bytes());
  int holder = 1 + choose("holder", 2), who = 1 + choose("endpoint", 2); bool wr = choose("write", 2), ref = choose("by_reference", 2);
  if (holder == 1) as(1, [&] { P.s->dataSemAcquire(); return 0; }); else as(2, [&] { P.c->dataSemAcquire(); return 0; });
  sx_assert(lk.free_() == 0, "a manual acquisition takes the data lock");
  int bw = mdl_blocked_waits(), ops0 = lk.ops();
  int row = (int)sx_sym_u32("row"), col = (int)sx_sym_u32("col"); bool full = choose("inside", 2); if (full) { sx_assume(row == 0 && col == 0); row = col = 0; }
  B.setup(ref, full ? R : 1, full ? C : 1, 1);
  bool ok = op(P, who, B, wr, row, col); bool safe = who == 1 ? ssafe : csafe;
  sx_assert(mdl_blocked_waits() == bw, "a read or write never waits");
  sx_assert(lk.free_() == 0, "a lock held by another party stays held");
  if (safe) {
    sx_assert(!ok, "a safe read or write fails while the lock is held"); sx_assert(same_bytes(mem, snap, P.bytes()), "a call refused because of the lock leaves the tensor unchanged"); sx_assert(B.unchanged(), "a call refused because of the lock leaves the caller's buffer unchanged"); sx_reach("refused while held");
  } else { sx_assert(lk.ops() == ops0, "an unsafe endpoint neither takes nor releases the lock"); if (full) { sx_assert(ok, "an unsafe call ignores the lock"); sx_reach("unsafe call went through"); } }
  if (holder == 1) as(1, [&] { P.s->dataSemRelease(); return 0; }); else as(2, [&] { P.c->dataSemRelease(); return 0; });
  sx_assert(lk.free_() == 1, "the lock is free after the manual release");
  B.setup(ref, R, C, 1); ops0 = lk.ops();
  sx_assert(op(P, who, B, wr, 0, 0), "the call succeeds once the lock is free"); sx_assert(lk.free_() == 1, "the call gives the lock back");
  if (!safe) sx_assert(lk.ops() == ops0, "an unsafe endpoint neither takes nor releases the lock (lock free)");
}
// C10: inactive endpoints
template <class T, int L> static void inactive() {
  int R = 2, C = 2; static Pair<T, L> P; static Buf<T, L> B; Lock_ lk; bool safe = choose("safe", 2), wr = choose("write", 2), ref = choose("by_reference", 2); int who = 1 + choose("endpoint", 2), st = choose("state", 4), times = choose("times", 2);
  if (who == 1) {
    P.server(R, C, safe);
    if (st >= 1) as(1, [&] { P.s->run(); return 0; });
    if (st == 1) for (int i = 0; i <= times; i++) as(1, [&] { P.s->stop(); return 0; });
    if (st >= 2) for (int i = 0; i <= times; i++) as(1, [&] { P.s->close(); return 0; });
    if (st == 3) { as(1, [&] { P.s->stop(); return 0; }); }
    if (st == 0 && times) as(1, [&] { P.s->stop(); return 0; });
    sx_assert(!P.s->isRunning(), "an inactive server says so");
  } else {
    P.server(R, C, safe); as(1, [&] { P.s->run(); return 0; }); P.client(safe);
    if (st >= 1) as(2, [&] { P.c->attach(); return 0; });
    if (st == 1) for (int i = 0; i <= times; i++) as(2, [&] { P.c->detach(); return 0; });
    if (st >= 2) for (int i = 0; i <= times; i++) as(2, [&] { P.c->close(); return 0; });
    if (st == 3) as(2, [&] { P.c->detach(); return 0; });
    if (st == 0 && times) as(2, [&] { P.c->detach(); return 0; });
    sx_assert(!P.c->isAttached(), "an inactive client says so");
    sx_assert(as(1, [&] { return P.s->getNClients(); }) == 0, "no client is counted after detach"); }
  char *mem = lk.mem(); bool there = mem && lk.size() == (long)P.bytes(); if (there) { symfill((T *)mem, R * C, "tensor"); memcpy(snap, mem, P.bytes()); }
  int row = (int)sx_sym_u32("row"), col = (int)sx_sym_u32("col"); int v0 = lk.free_();
  B.setup(ref, 1, 2, 1); bool ok = op(P, who, B, wr, row, col);
  sx_assert(!ok, "data operations are refused while inactive"); sx_assert(B.unchanged(), "refused operations leave the caller's memory unchanged"); if (there) sx_assert(same_bytes(mem, snap, P.bytes()), "refused operations leave the tensor unchanged");
  sx_assert(lk.free_() == v0, "refused operations leave the lock as it was");
  // everything may be closed and destroyed in every state
  if (P.c.live) { as(2, [&] { P.c->close(); return 0; }); as(2, [&] { P.c.destroy(); return 0; }); }
  as(1, [&] { P.s->close(); return 0; }); as(1, [&] { P.s.destroy(); return 0; });
  sx_assert(mdl_bad_closes() == 0, "nothing is closed twice"); sx_assert(mdl_any_sem_max() <= 1, "no lock is released more often than acquired"); sx_reach("end");
}
// C10: a client that never attached is detached, closed and destroyed without touching anything
template <class T, int L> static void unattached() {
  static Pair<T, L> P; Lock_ lk; mdl_foreign_fd(2); mdl_foreign_fd(2); bool srv = choose("server_present", 2);
  if (srv) { P.server(2, 2, true); as(1, [&] { P.s->run(); return 0; }); }
  P.client(choose("safe", 2));
  if (choose("detach", 2)) as(2, [&] { P.c->detach(); return 0; });
  int n = choose("closes", 3); for (int i = 0; i < n; i++) as(2, [&] { P.c->close(); return 0; });
  static Buf<T, L> B; B.setup(true, 1, 1, 0); sx_assert(!op(P, 2, B, choose("write", 2), 0, 0), "an unattached client refuses data operations");
  as(2, [&] { P.c.destroy(); return 0; });
  sx_assert(mdl_bad_closes() == 0, "closing an unattached client closes nothing it does not own"); sx_assert(mdl_unlinks_by(2) == 0, "a client removes no name");
  if (srv) { sx_assert(as(1, [&] { return P.s->getNClients(); }) == 0, "no client is counted"); sx_assert(lk.free_() == 1, "the lock is free"); }
  sx_reach("end");
}
#define INST(n, T, L) ENTRY rw_##n() { rw<T, L>(); } ENTRY held_##n() { held<T, L>(); } ENTRY inactive_##n() { inactive<T, L>(); } ENTRY unattached_##n() { unattached<T, L>(); }
INST(fr, float, RowMajor) INST(fc, float, ColMajor) INST(dr, double, RowMajor) INST(dc, double, ColMajor) INST(ir, int, RowMajor) INST(ic, int, ColMajor) INST(br, bool, RowMajor) INST(bc, bool, ColMajor)
