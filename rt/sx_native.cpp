// Native replay runtime: executes the same harness and repository code compiled to machine code (with shared accesses and
// model calls routed through the scheduler below), following a recorded schedule and recorded input values.
#include "sx.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <typeinfo>
using std::string; using std::vector;
enum St { TRun, TBlocked, TSleeping, TJoin, TDone, TCrashed };
struct Th { pthread_t h; pthread_cond_t cv; St st = TRun; bool known = false, granted = false, canCrash = false, dirty = false, started = false, inVis = false, stale = false, recheck = false; int pid = 0; uint64_t blockKey = 0, pkey = 0, plen = 1; vector<std::pair<uint64_t, uint64_t>> reads; void (*fn)(void *) = nullptr; void *arg = nullptr; };
static vector<Th *> th; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static int cur = 0; static thread_local int me = 0;
static vector<int> sched; static size_t spos; static int crashes, maxCrashes = 1; static bool multi = false;
static std::map<string, vector<vector<uint8_t>>> syms; static std::map<string, size_t> symPos; static std::map<string, long> cfg;
static int failures; static bool verbose;
static void say(const char *k, const char *l) { printf("SX %s %s\n", k, l); fflush(stdout); }
static void finish(int rc) { say("END", rc ? "bad" : "ok"); fflush(stdout); _exit(rc); }
static int live() { int n = 0; for (auto t : th) if (t->st != TDone && t->st != TCrashed) n++; return n; }
static bool ovl(uint64_t k1, uint64_t n1, uint64_t k2, uint64_t n2) { return k1 < k2 + n2 && k2 < k1 + n1; }
static void wrote(int by, uint64_t key, uint64_t len, bool write, bool wake = true) {
  auto &r = th[by]->reads; std::pair<uint64_t, uint64_t> k(key, len); if (std::find(r.begin(), r.end(), k) == r.end()) r.push_back(k);
  if (!write) return;
  for (size_t i = 0; i < th.size(); i++) { if ((int)i == by) continue; Th &t = *th[i];
    if (t.st == TBlocked && t.recheck) { if (wake && ovl(t.blockKey, 1, key, len)) { t.st = TRun; t.known = false; } continue; }
    if (t.st == TRun && t.inVis && t.known && !t.granted && ovl(t.pkey, t.plen, key, len)) { t.known = false; t.stale = true; }
    if (t.st == TBlocked) { if (wake && ovl(t.blockKey, 1, key, len)) { t.st = TRun; t.known = true; } continue; }
    bool hit = t.reads.empty(); for (auto &q : t.reads) if (ovl(q.first, q.second, key, len)) { hit = true; break; }
    if (hit) { t.dirty = true; if (t.st == TSleeping) { t.st = TRun; t.known = false; } } } }
static void pick() { // choose the next thread (mirrors the executor's scheduler)
  for (;;) {
    for (size_t i = 0; i < th.size(); i++) if (th[i]->st == TRun && !th[i]->known) { cur = i; pthread_cond_signal(&th[i]->cv); return; }
    bool any = false; for (auto t : th) if (t->st == TRun) any = true;
    if (!any) { for (size_t i = 0; i < th.size(); i++) if (th[i]->st == TJoin) { th[i]->st = TRun; th[i]->known = false; cur = i; pthread_cond_signal(&th[i]->cv); return; } say("FAIL", "deadlock"); finish(1); }
    int t = -1;
    if (spos < sched.size()) { t = sched[spos++]; if (t >= 1000) { for (auto x : th) if (x->pid == t - 1000 && x->canCrash && x->st != TDone) x->st = TCrashed; crashes++; continue; } }
    else { for (size_t i = 0; i < th.size(); i++) if (th[i]->st == TRun) { t = i; break; } }
    if (t < 0 || t >= (int)th.size() || th[t]->st != TRun) { say("DIVERGED", "schedule names a thread that cannot run"); finish(4); }
    th[t]->granted = true; cur = t; pthread_cond_signal(&th[t]->cv); return; } }
static void waitTurn() { while (cur != me || th[me]->st != TRun || (th[me]->known && !th[me]->granted)) pthread_cond_wait(&th[me]->cv, &mu); }
static void handoff() { pick(); waitTurn(); }
static void visible(uint64_t key, uint64_t len, bool write) {
  pthread_mutex_lock(&mu); Th &t = *th[me];
  if (!(live() == 1 && !(t.canCrash && crashes < maxCrashes))) { t.known = true; t.granted = false; t.pkey = key; handoff(); t.granted = false; t.known = false; }
  wrote(me, key, len, write); pthread_mutex_unlock(&mu); }
// ---- shared segments
static const size_t SEGCAP = 1 << 16; struct Seg { int fd; size_t size; char *base; }; static vector<Seg> segs; struct Al { char *va; size_t len; int seg; size_t off; bool alive; }; static vector<Al> als;
static char *mapSeg(int fd) { char *a = (char *)mmap(0, SEGCAP + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mmap(a + 4096, SEGCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); return a + 4096; }
static int inRt;
extern "C" {
static void memBad(const char *what) { say("FAIL", "memory-safety"); say("NOTE", what); finish(1); }
static void access_(void *p, size_t n, int w) {
  if (inRt) return; char *a = (char *)p;
  for (auto &x : als) if (a >= x.va - 4096 && a < x.va + SEGCAP + 4096) {
      size_t off = a - x.va; Seg &s = segs[x.seg]; size_t lim = x.off >= s.size ? 0 : std::min(x.len, s.size - x.off);
      if (!x.alive) memBad("access through a mapping that was removed");
      if (a < x.va || off + n > lim) memBad("access outside the shared mapping");
      if (multi) visible((1ull << 63) | ((uint64_t)x.seg << 32) | (x.off + off), n, w); return; } }
void __sxn_access(void *p, size_t n, int w) { access_(p, n, w); }
static bool isShared(void *p) { for (auto &x : als) if ((char *)p >= x.va && (char *)p < x.va + SEGCAP) return true; return false; }
void __sxn_memcpy(void *d, void *s, size_t n) { if (!n) return; if (!isShared(d) && !isShared(s)) { memmove(d, s, n); return; }
  if (!multi) { access_(s, n, 0); access_(d, n, 1); memmove(d, s, n); return; }
  for (size_t p = 0; p < n; p += 4) { size_t k = std::min<size_t>(4, n - p); access_((char *)s + p, k, 0); access_((char *)d + p, k, 1); memmove((char *)d + p, (char *)s + p, k); } }
void __sxn_memset(void *d, int c, size_t n) { if (!n) return; access_(d, n, 1); memset(d, c, n); }
void *sx_segment(size_t) { int fd = memfd_create("seg", 0); if (ftruncate(fd, SEGCAP)) abort(); segs.push_back({fd, 0, nullptr}); segs.back().base = mapSeg(fd); als.push_back({segs.back().base, SEGCAP, (int)segs.size() - 1, 0, true}); return segs.back().base; }
void sx_resize(void *p, size_t n) { for (auto &s : segs) if (s.base == p) { if (n < s.size) memset(s.base + n, 0, s.size - n); s.size = n; return; } abort(); }
void *sx_alias(void *p, size_t n) { for (size_t i = 0; i < segs.size(); i++) if (segs[i].base == p) { char *v = mapSeg(segs[i].fd); als.push_back({v, n, (int)i, 0, true}); return v; } abort(); }
int sx_unalias(void *p) { for (auto &x : als) if (x.va == p && x.alive) { x.alive = false; return 0; } return -1; }
size_t sx_objsize(void *) { return 0; }
int sx_fmt_double(char *b, size_t n, int conv, int prec, double v) { char f[5] = {'%', '.', '*', (char)conv, 0}; return snprintf(b, n, f, prec, v); }
// ---- values
static vector<uint8_t> *nextSym(const char *name) { string k = std::to_string(me) + ":" + name; size_t &p = symPos[k]; auto it = syms.find(k); if (it == syms.end() || p >= it->second.size()) { p++; return nullptr; } return &it->second[p++]; }
void sx_make_symbolic(void *p, size_t n, const char *name) { auto v = nextSym(name); for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = v && i < v->size() ? (*v)[i] : 0; }
uint64_t sx_sym_u64(const char *name) { auto v = nextSym(name); uint64_t r = 0; if (v) for (size_t i = 0; i < v->size() && i < 8; i++) r |= (uint64_t)(*v)[i] << (8 * i); return r; }
uint32_t sx_sym_u32(const char *name) { return (uint32_t)sx_sym_u64(name); }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_assume(int c) { if (!c) { say("DIVERGED", "assumption false"); finish(4); } }
void sx_assert(int c, const char *l) { if (!c) { failures++; say("FAIL", l); } else if (verbose) say("ok", l); }
int sx_possible(int c) { return c != 0; }
void sx_reach(const char *l) { say("REACH", l); }
void sx_observe(const char *l, uint64_t v) { char b[256]; snprintf(b, 256, "%s=%lld", l, (long long)v); say("OBS", b); }
int sx_cfg(const char *n, int d) { auto it = cfg.find(n); return it == cfg.end() ? d : (int)it->second; }
int sx_native(void) { return 1; } int sx_tid(void) { return me; } int sx_pid(void) { return th[me]->pid; } void sx_set_pid(int p) { th[me]->pid = p; } void sx_set_max_crashes(int n) { maxCrashes = n; }
void sx_log(const char *l, uint64_t v) { if (verbose) printf("LOG[%d] %s %lld\n", me, l, (long long)v); }
static void *boot(void *a) { Th *t = (Th *)a; for (size_t i = 0; i < th.size(); i++) if (th[i] == t) me = i; pthread_mutex_lock(&mu); waitTurn(); pthread_mutex_unlock(&mu); t->fn(t->arg); pthread_mutex_lock(&mu); t->st = TDone; t->known = false; pick(); pthread_mutex_unlock(&mu); return 0; }
int sx_spawn(void (*f)(void *), void *arg, int pid, int cc) { pthread_mutex_lock(&mu); Th *t = new Th(); pthread_cond_init(&t->cv, 0); t->fn = f; t->arg = arg; t->pid = pid; t->canCrash = cc; th.push_back(t); multi = true; int id = th.size() - 1; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); pthread_create(&t->h, &at, boot, t); pthread_mutex_unlock(&mu); return id; }
int sx_join(void) { pthread_mutex_lock(&mu); bool need = false; for (size_t i = 0; i < th.size(); i++) if ((int)i != me && (th[i]->st == TRun || th[i]->st == TSleeping || th[i]->st == TBlocked)) need = true; if (need) { th[me]->st = TJoin; th[me]->known = false; handoff(); } int stuck = 0; for (size_t i = 0; i < th.size(); i++) if ((int)i != me && (th[i]->st == TBlocked || th[i]->st == TSleeping)) stuck++; pthread_mutex_unlock(&mu); return stuck; }
int sx_thread_state(int i) { St s = th.at(i)->st; return s == TDone ? 0 : s == TCrashed ? 2 : s == TBlocked || s == TSleeping ? 1 : 3; }
void sx_kill(int p) { pthread_mutex_lock(&mu); for (size_t i = 0; i < th.size(); i++) if ((int)i != me && th[i]->pid == p && th[i]->st != TDone) th[i]->st = TCrashed; pthread_mutex_unlock(&mu); }
void sx_exit_thread(void) { pthread_mutex_lock(&mu); th[me]->st = TDone; if (me == 0) finish(failures ? 1 : 0); pick(); pthread_mutex_unlock(&mu); for (;;) pause(); }
int sx_visible(uint64_t k, int w) { pthread_mutex_lock(&mu); Th &t = *th[me];
  if (!(live() == 1 && !(t.canCrash && crashes < maxCrashes))) { t.known = true; t.granted = false; t.pkey = k; t.plen = 1; t.inVis = true; t.stale = false; handoff(); t.inVis = false; t.granted = false; t.known = false; if (t.stale) { t.stale = false; pthread_mutex_unlock(&mu); return 0; } }
  wrote(me, k, 1, w); pthread_mutex_unlock(&mu); return 1; }
void sx_await(uint64_t k) { pthread_mutex_lock(&mu); Th &t = *th[me]; t.st = TBlocked; t.recheck = true; t.blockKey = k; t.known = false; t.granted = false; handoff(); t.recheck = false; pthread_mutex_unlock(&mu); }
void sx_wrote(uint64_t k) { pthread_mutex_lock(&mu); wrote(me, k, 1, true); pthread_mutex_unlock(&mu); }
void sx_block(uint64_t k) { pthread_mutex_lock(&mu); Th &t = *th[me]; t.st = TBlocked; t.blockKey = k; t.known = false; t.granted = false; handoff(); t.granted = false; t.known = false; wrote(me, k, 1, true, false); pthread_mutex_unlock(&mu); }
void sx_sleep(void) { pthread_mutex_lock(&mu); Th &t = *th[me]; if (!t.dirty) { if (live() == 1) { say("FAIL", "hang"); finish(1); } t.st = TSleeping; t.known = false; handoff(); } t.dirty = false; t.reads.clear(); pthread_mutex_unlock(&mu); }
void sx_throw_std(const char *) { abort(); }
void sx_violation(const char *l, const char *d) { say("FAIL", l); say("NOTE", d); finish(1); }
void SX_ENTRY(void);
}
int main(int argc, char **argv) {
  if (argc > 2) verbose = true;
  std::ifstream f(argv[1]); string line;
  while (std::getline(f, line)) { std::istringstream is(line); string k; is >> k;
    if (k == "sched") { int t; while (is >> t) sched.push_back(t); }
    else if (k == "cfg") { string n; long v; is >> n >> v; cfg[n] = v; }
    else if (k == "crashes") is >> maxCrashes;
    else if (k == "sym") { string hex; is >> hex; string n; std::getline(is, n); n = n.substr(1); vector<uint8_t> b; for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back((uint8_t)strtoul(hex.substr(i, 2).c_str(), 0, 16)); syms[n].push_back(b); } }
  Th *t = new Th(); pthread_cond_init(&t->cv, 0); th.push_back(t);
  std::set_terminate([] { const char *n = "?"; if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (std::exception &e) { n = e.what(); } catch (...) {} } say("FAIL", "terminate"); say("NOTE", n); finish(1); });
  alarm(20); SX_ENTRY(); finish(failures ? 1 : 0); }
