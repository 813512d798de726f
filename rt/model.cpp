// OS model: POSIX shared memory, named semaphores, clocks and printf as seen by EigenIPC.
// Every sxm_X replaces the external X in the bitcode (engine and native replay alike).
// Semantics: POSIX/Linux; one scheduling point (sx_visible) in front of each operation that another process can observe.
#include "model.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <time.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <pthread.h>
#include "fmt.h"

#define NNAME 48
#define NINODE 48
#define NFD 40
#define NPID 6
#define NSEM 32
#define NHND 48
#define NLEN 112

struct Name { char n[NLEN]; int len; int inode; int sem; int isSem; int firstPid; };
struct Inode { int used; long size; char *data; int names, refs; };
struct Fd { int open; int inode; int cloexec; };
struct Sem { int used; int value; int max; int posts, waits; };
struct Hnd { int used; int sem; int pid; int refs; };   // a sem_t* is the address of the handle word
struct Map { int used; void *p; int pid; long len; int inode; };
static Name names[NNAME]; static int nNames;
static Inode inodes[NINODE]; static int nInodes;
static Fd fds[NPID][NFD];
static Sem sems[NSEM]; static int nSems;
static Hnd hnds[NHND]; static int nHnds; static char *hndObj[NHND];
static Map maps[160]; static int nMaps;
static int badCloses, unlinks, unlinksBy[NPID], blockedWaits, calls, frozen, faultBudget, faultMask, faultUsed;

static const uint64_t K_NAME = 0x10000, K_ISZ = 0x20000, K_SEM = 0x30000;

static void syscallMade(const char *what) { calls++; if (frozen) sx_violation("no-system-call", what); }
static int faultArmed(int kind) { return faultBudget > 0 && (faultMask & kind); }
static int fault(int kind, const char *name) {
  if (faultBudget <= 0 || !(faultMask & kind)) return 0;
  if (sx_sym_u32(name) & 1) { faultBudget--; faultUsed++; return 1; }
  return 0; }
static int cstrlen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static int same(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
static int nameIdx(const char *s, int isSem) {
  int n = cstrlen(s);
  if (n >= NLEN) sx_violation("model-limit", "object name longer than the model supports");
  for (int i = 0; i < nNames; i++) if (names[i].len == n && names[i].isSem == isSem && same(names[i].n, s, n)) return i;
  if (nNames == NNAME) sx_violation("model-limit", "too many names");
  Name &x = names[nNames]; for (int i = 0; i <= n; i++) x.n[i] = s[i]; x.len = n; x.inode = -1; x.sem = -1; x.isSem = isSem; x.firstPid = sx_pid(); return nNames++; }
static int badName(const char *s) { int n = cstrlen(s); if (n < 2 || s[0] != '/') return EINVAL; if (n > 250) return ENAMETOOLONG; for (int i = 1; i < n; i++) if (s[i] == '/') return EINVAL; return 0; }
static int findName(const char *s, int isSem) { int n = cstrlen(s); for (int i = 0; i < nNames; i++) if (names[i].len == n && names[i].isSem == isSem && same(names[i].n, s, n)) return i; return -1; }
static void dropInode(int i) { (void)i; }
static int newFd(int pid, int inode) { for (int f = 3; f < NFD; f++) if (!fds[pid][f].open) { fds[pid][f].open = 1; fds[pid][f].inode = inode; if (inode >= 0) inodes[inode].refs++; return f; } return -1; }

extern "C" {
int sxm_shm_open(const char *name, int oflag, mode_t) {
  syscallMade("shm_open"); if (int e = badName(name)) { errno = e; return -1; }
  int pid = sx_pid(), k = nameIdx(name, 0);
  // creating opens commute with each other; a non-creating open conflicts with creation; unlink conflicts with all
  while (!sx_visible(K_NAME + k, !(oflag & O_CREAT) || (oflag & (O_EXCL | O_TRUNC)))) {}
  if (fault(F_SHM_OPEN, "fault_shm_open")) { errno = EMFILE; return -1; }
  if (names[k].inode <= -2) { errno = EEXIST; return -1; } // a named condition variable lives there
  if (names[k].inode < 0) {
    if (!(oflag & O_CREAT)) { errno = ENOENT; return -1; }
    if (nInodes == NINODE) sx_violation("model-limit", "too many segments");
    int i = nInodes++; inodes[i].used = 1; inodes[i].size = 0; inodes[i].names = 1; inodes[i].refs = 0; inodes[i].data = (char *)sx_segment(1 << 16); names[k].inode = i;
  } else if ((oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return -1; }
  else if (oflag & O_TRUNC) { int i = names[k].inode; sx_resize(inodes[i].data, 0); inodes[i].size = 0; }
  int f = newFd(pid, names[k].inode); if (f < 0) { errno = EMFILE; return -1; }
  return f; }
int sxm_shm_unlink(const char *name) {
  syscallMade("shm_unlink"); if (int e = badName(name)) { errno = e; return -1; }
  int k = nameIdx(name, 0); while (!sx_visible(K_NAME + k, 1)) {}
  unlinks++; unlinksBy[sx_pid()]++;
  if (names[k].inode == -1) { errno = ENOENT; return -1; }
  if (names[k].inode <= -2) { names[k].inode = -1; return 0; }
  int i = names[k].inode; inodes[i].names--; names[k].inode = -1; dropInode(i); return 0; }
static int fdInode(int pid, int fd) { for (int f = 0; f < NFD; f++) if (fds[pid][f].open && fd == f) return f; return -1; }
int sxm_ftruncate(int fd, off_t len) {
  syscallMade("ftruncate"); int pid = sx_pid(); int f = fdInode(pid, fd); if (f < 0) { errno = EBADF; return -1; }
  int i = fds[pid][f].inode; if (i < 0) { errno = EINVAL; return -1; }
  if (len < 0) { errno = EINVAL; return -1; }
  if (len > (1 << 16)) { sx_assume(!sx_possible(len > (1l << 46)) || len > (1l << 46)); errno = len > (1l << 46) ? EFBIG : ENOSPC; return -1; }
  while (!sx_visible(K_ISZ + i, inodes[i].size != len)) {}
  if (fault(F_FTRUNCATE, "fault_ftruncate")) { errno = ENOSPC; return -1; }
  if (inodes[i].size != len) { long n = sx_concretize(len); sx_resize(inodes[i].data, n); inodes[i].size = n; }
  return 0; }
void *sxm_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
  syscallMade("mmap"); int pid = sx_pid(); int f = fdInode(pid, fd); if (f < 0) { errno = EBADF; return MAP_FAILED; }
  int i = fds[pid][f].inode; if (i < 0 || len == 0) { errno = EINVAL; return MAP_FAILED; }
  if (off) { errno = EINVAL; return MAP_FAILED; }
  if (!(prot & PROT_READ) || !(prot & PROT_WRITE) || !(flags & MAP_SHARED)) sx_violation("private-mapping", "a shared tensor was mapped without MAP_SHARED or read/write access");
  if (fault(F_MMAP, "fault_mmap")) { errno = ENOMEM; return MAP_FAILED; }
  if (len > (1 << 16)) { errno = ENOMEM; return MAP_FAILED; }
  long n = sx_concretize(len);
  void *p = sx_alias(inodes[i].data, n); inodes[i].refs++;
  if (nMaps == 160) sx_violation("model-limit", "too many mappings");
  maps[nMaps].used = 1; maps[nMaps].p = p; maps[nMaps].pid = pid; maps[nMaps].len = n; maps[nMaps].inode = i; nMaps++; return p; }
int sxm_fstat(int fd, struct stat *st) {
  syscallMade("fstat"); int pid = sx_pid(); int f = fdInode(pid, fd); if (f < 0) { errno = EBADF; return -1; }
  memset(st, 0, sizeof *st); int i = fds[pid][f].inode; st->st_mode = S_IFREG | 0600; st->st_nlink = 1; if (i >= 0) { while (!sx_visible(K_ISZ + i, 0)) {} st->st_size = inodes[i].size; st->st_nlink = inodes[i].names; } return 0; }
int sxm_fcntl(int fd, int, ...) { return fdInode(sx_pid(), fd) < 0 ? (errno = EBADF, -1) : 0; }
int sxm_fchmod(int fd, mode_t) { return fdInode(sx_pid(), fd) < 0 ? (errno = EBADF, -1) : 0; }
mode_t sxm_umask(mode_t) { return 022; }
int sxm_mlock(const void *, size_t) { return 0; } int sxm_munlock(const void *, size_t) { return 0; } int sxm_madvise(void *, size_t, int) { return 0; } int sxm_msync(void *, size_t, int) { return 0; }
int sxm_posix_fallocate(int fd, off_t, off_t) { return fdInode(sx_pid(), fd) < 0 ? EBADF : 0; }
long sxm_sysconf(int) { return 4096; } int sxm_getpagesize(void) { return 4096; }
int sxm_munmap(void *p, size_t len) {
  syscallMade("munmap"); (void)len;
  for (int i = 0; i < nMaps; i++) if (maps[i].used && maps[i].p == p) { maps[i].used = 0; inodes[maps[i].inode].refs--; sx_unalias(p); return 0; }
  badCloses++; errno = EINVAL; return -1; }
int sxm_close(int fd) {
  syscallMade("close"); int pid = sx_pid(); int f = fdInode(pid, fd); if (f < 0) { badCloses++; sx_observe("close of a descriptor that is not open: pid", pid); errno = EBADF; return -1; }
  if (fds[pid][f].inode == -2) { badCloses++; sx_observe("close of a foreign descriptor: pid", pid); }
  fds[pid][f].open = 0; int i = fds[pid][f].inode; if (i >= 0) { inodes[i].refs--; dropInode(i); } return 0; }

static int hndOf(const void *s) { for (int i = 0; i < nHnds; i++) if (hndObj[i] == (const char *)s && hnds[i].used) return i; return -1; }
static int hndPick(void *s, const char *what) { // s may be anything, including uninitialised
  for (int i = 0; i < nHnds; i++) if (hnds[i].used && hnds[i].pid == sx_pid() && (char *)s == hndObj[i]) return i;
  sx_violation("memory-safety", what); return -1; }
sem_t *sxm_sem_open(const char *name, int oflag, ...) {
  syscallMade("sem_open"); unsigned val = 0;
  if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); (void)va_arg(ap, int); val = va_arg(ap, unsigned); va_end(ap); }
  if (int e = badName(name)) { errno = e; return SEM_FAILED; }
  int k = nameIdx(name, 1), pid = sx_pid();
  while (!sx_visible(K_NAME + k, !(oflag & O_CREAT) || (oflag & O_EXCL))) {}
  if (fault(F_SEM_OPEN, "fault_sem_open")) { errno = ENFILE; return SEM_FAILED; }
  if (names[k].sem <= -2) sx_violation("name-collision", "a semaphore is opened under the name of a mutex");
  if (names[k].sem < 0) {
    if (!(oflag & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    if (nSems == NSEM) sx_violation("model-limit", "too many semaphores");
    int i = nSems++; sems[i].used = 1; sems[i].value = sems[i].max = (int)val; names[k].sem = i;
  } else if ((oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
  int sm = names[k].sem;
  for (int i = 0; i < nHnds; i++) if (hnds[i].used && hnds[i].sem == sm && hnds[i].pid == pid) { hnds[i].refs++; return (sem_t *)hndObj[i]; }
  if (nHnds == NHND) sx_violation("model-limit", "too many semaphore handles");
  int h = nHnds++; hnds[h].used = 1; hnds[h].sem = sm; hnds[h].pid = pid; hnds[h].refs = 1; hndObj[h] = new char[32]; return (sem_t *)hndObj[h]; }
int sxm_sem_close(sem_t *s) {
  syscallMade("sem_close");
  int h = -1; for (int i = 0; i < nHnds; i++) if (hnds[i].used && hnds[i].pid == sx_pid() && (char *)s == hndObj[i]) { h = i; break; }
  if (h < 0) { badCloses++; sx_observe("sem_close of something that is not an open semaphore: pid", sx_pid()); errno = EINVAL; return -1; }
  if (--hnds[h].refs == 0) hnds[h].used = 0; return 0; }
int sxm_sem_unlink(const char *name) {
  syscallMade("sem_unlink"); if (int e = badName(name)) { errno = e; return -1; }
  int k = nameIdx(name, 1); while (!sx_visible(K_NAME + k, 1)) {}
  unlinks++; unlinksBy[sx_pid()]++;
  if (names[k].sem == -1) { errno = ENOENT; return -1; }
  names[k].sem = -1; return 0; }
static void (*onSemFn)(void); // an interloper of the harness: runs at every moment around the semaphore operations of the running call
void mdl_on_sem(void (*f)(void)) { onSemFn = f; }
static void onSem() { if (onSemFn) { void (*f)(void) = onSemFn; onSemFn = 0; f(); onSemFn = f; } }
int sxm_sem_trywait(sem_t *s) {
  syscallMade("sem_trywait"); onSem(); int h = hndPick(s, "sem_trywait on an object that is not an open semaphore"); int i = hnds[h].sem;
  while (!sx_visible(K_SEM + i, sems[i].value > 0)) {}
  if (sems[i].value > 0) { sems[i].value--; sems[i].waits++; return 0; }
  errno = EAGAIN; return -1; }
int sxm_sem_wait(sem_t *s) {
  syscallMade("sem_wait"); onSem(); int h = hndPick(s, "sem_wait on an object that is not an open semaphore"); int i = hnds[h].sem;
  for (int waited = 0;;) {
    if (sems[i].value <= 0 && !faultArmed(F_SEM_WAIT_EINTR)) { if (!waited++) blockedWaits++; sx_await(K_SEM + i); continue; }
    if (!sx_visible(K_SEM + i, 1)) continue;
    if (fault(F_SEM_WAIT_EINTR, "fault_sem_wait_eintr")) { errno = EINTR; return -1; }
    if (sems[i].value > 0) break; }
  sems[i].value--; sems[i].waits++; return 0; }
// an absolute timeout: if the semaphore is not available now it either becomes available in time (covered by the
// schedules in which the release comes first) or the call times out
int sxm_sem_timedwait(sem_t *s, const struct timespec *ts) {
  syscallMade("sem_timedwait"); onSem(); int h = hndPick(s, "sem_timedwait on an object that is not an open semaphore"); int i = hnds[h].sem;
  long ns = ts->tv_nsec; 
  while (!sx_visible(K_SEM + i, sems[i].value > 0)) {}
  if (sems[i].value > 0) { sems[i].value--; sems[i].waits++; return 0; }
  if (ns < 0 || ns >= 1000000000) { errno = EINVAL; return -1; }
  if (fault(F_TIMED_EINTR, "fault_sem_timedwait_eintr")) { errno = EINTR; return -1; }
  errno = ETIMEDOUT; return -1; }
int sxm_sem_post(sem_t *s) {
  syscallMade("sem_post"); int h = hndPick(s, "sem_post on an object that is not an open semaphore"); int i = hnds[h].sem;
  while (!sx_visible(K_SEM + i, 1)) {}
  sems[i].value++; sems[i].posts++; if (sems[i].value > sems[i].max) sems[i].max = sems[i].value; onSem(); return 0; }
int sxm_sem_getvalue(sem_t *s, int *v) { int h = hndPick(s, "sem_getvalue on an object that is not an open semaphore"); int i = hnds[h].sem; while (!sx_visible(K_SEM + i, 0)) {} *v = sems[i].value; return 0; }

// ---- time
static long lastSec, lastNsec; static int sleepCalls, sleepValid = 1, recordSleep; static int64_t totSec, totNsec;
static long clockNow; // nanoseconds
static int afterN; static void (*afterFn)(void);
void mdl_after_sleeps(int n, void (*f)(void)) { afterN = n; afterFn = f; }
static void idle(void) { if (recordSleep) return; if (afterN > 0) { clockNow += 1000000000; if (--afterN == 0) afterFn(); return; } sx_sleep(); }
static void recSleep(const struct timespec *r) { lastSec = r->tv_sec; lastNsec = r->tv_nsec; sleepCalls++; sleepValid = sleepValid & (r->tv_sec >= 0) & (r->tv_nsec >= 0) & (r->tv_nsec < 1000000000); totSec += r->tv_sec; totNsec += r->tv_nsec; }
int sxm_nanosleep(const struct timespec *r, struct timespec *rem) { (void)rem; recSleep(r); idle(); return 0; }
int sxm_clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *rem) { (void)rem; if (flags & TIMER_ABSTIME) { // a deadline: what is left of it now
    struct timespec d; long sec = r->tv_sec - (1700000000 + clockNow / 1000000000), ns = r->tv_nsec - clockNow % 1000000000; sleepValid = sleepValid & (r->tv_nsec >= 0) & (r->tv_nsec < 1000000000);
    if (ns < 0) { sec--; ns += 1000000000; } d.tv_sec = sec; d.tv_nsec = ns; if (sec < 0) { d.tv_sec = 0; d.tv_nsec = 0; } recSleep(&d); idle(); return 0; }
  recSleep(r); idle(); return 0; }
int sxm_usleep(unsigned us) { struct timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000; recSleep(&t); idle(); return 0; }
unsigned sxm_sleep(unsigned s) { struct timespec t; t.tv_sec = s; t.tv_nsec = 0; recSleep(&t); idle(); return 0; }
int sxm_sched_yield(void) { idle(); return 0; }
int sxm_clock_gettime(clockid_t, struct timespec *t) { clockNow += 1000; t->tv_sec = 1700000000 + clockNow / 1000000000; t->tv_nsec = clockNow % 1000000000; return 0; }
int sxm_gettimeofday(struct timeval *t, void *) { clockNow += 1000; t->tv_sec = 1700000000 + clockNow / 1000000000; t->tv_usec = clockNow % 1000000000 / 1000; return 0; }
long sxm_time(long *t) { long v = 1700000000 + clockNow / 1000000000; if (t) *t = v; return v; }
int64_t sxm__ZNSt6chrono3_V212system_clock3nowEv(void) { clockNow += 1000; return 1700000000ll * 1000000000ll + clockNow; }
int64_t sxm__ZNSt6chrono3_V212steady_clock3nowEv(void) { clockNow += 1000; return clockNow; }
int sxm_getpid(void) { return 1000 + sx_pid(); }

// ---- locks between threads of one process
static uint64_t mkey(pthread_mutex_t *m) { return (1ull << 62) | ((uint64_t)m >> 3); }
int sxm_pthread_mutex_trylock(pthread_mutex_t *m) { while (!sx_visible(mkey(m), 1)) {} if (m->__data.__lock) { if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == sx_tid() + 1) { m->__data.__lock++; return 0; } return EBUSY; } m->__data.__lock = 1; m->__data.__owner = sx_tid() + 1; return 0; }
int sxm_pthread_mutex_lock(pthread_mutex_t *m) { for (;;) { if (m->__data.__lock && !(m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == sx_tid() + 1)) { sx_await(mkey(m)); continue; } if (sxm_pthread_mutex_trylock(m) == 0) return 0; } }
int sxm_pthread_mutex_unlock(pthread_mutex_t *m) { if (!m->__data.__lock) sx_violation("bad-unlock", "unlock of a mutex that is not locked"); if (--m->__data.__lock == 0) { m->__data.__owner = 0; sx_wrote(mkey(m)); } return 0; }
int sxm_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { m->__data.__lock = 0; m->__data.__owner = 0; return 0; }
int sxm_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

// ---- output
static int capOn, printfCalls; static char cap[4096]; static int capLen;
static void capc(char c) { if (capLen < (int)sizeof(cap) - 1) { cap[capLen++] = c; cap[capLen] = 0; } }
static void capput(void *, char c) { if (capOn) capc(c); }
static int vp(const char *f, va_list ap) { printfCalls++; int r = sx_vformat(capput, nullptr, f, ap); if (r < 0) sx_violation("format-string", "conversion specification the program does not intend"); return r; }
int sxm_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vp(f, ap); va_end(ap); return r; }
int sxm_puts(const char *s) { printfCalls++; if (capOn) { while (*s) capc(*s++); capc('\n'); } return 1; }
int sxm_putchar(int c) { if (capOn) capc((char)c); return c; }
int sxm_fflush(void *) { return 0; }
int sxm_fputs(const char *s, void *) { printfCalls++; if (capOn) while (*s) capc(*s++); return 1; }
int sxm_fputc(int c, void *) { if (capOn) capc((char)c); return c; }
int sxm_putc(int c, void *) { if (capOn) capc((char)c); return c; }
size_t sxm_fwrite(const void *p, size_t s, size_t n, void *) { printfCalls++; if (capOn) for (size_t i = 0; i < s * n; i++) capc(((const char *)p)[i]); return n; }
int sxm_fprintf(void *, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp(f, ap); va_end(ap); return r; }
int sxm_vprintf(const char *f, va_list ap) { return vp(f, ap); }
size_t sx_write_stdout(const char *p, size_t n) { printfCalls++; if (capOn) for (size_t i = 0; i < n; i++) capc(p[i]); return n; } // std::cout (shims/sxstream_impl.hpp)
int sxm_vfprintf(void *, const char *f, va_list ap) { return vp(f, ap); }
int sxm_dprintf(int, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp(f, ap); va_end(ap); return r; }
void sxm_perror(const char *s) { printfCalls++; if (capOn) { while (*s) capc(*s++); for (const char *e = ": error\n"; *e; e++) capc(*e); } }
long sxm_write(int fd, const void *p, size_t n) { if (fd != 1 && fd != 2) return -1; sx_write_stdout((const char *)p, n); return (long)n; }

// ---- Boost.Interprocess named mutex (a named POSIX semaphore of value 1) and named condition (a shared-memory object)
#define NBIP 24
struct Mtx { int name, held, locks; };
struct Cv { int name, n; int sig[32]; int state[32]; };   // state: 1 waiting, 0 done
static Mtx mtxs[NBIP]; static int nMtx; static Cv cvs[NBIP]; static int nCv; static long long lastDeadline; static int badUnlocks, deadlineCalls;
static const uint64_t K_MTX = 0x40000, K_CV = 0x50000;
static void slashName(char *b, const char *s) { int n = cstrlen(s); if (n > NLEN - 3) sx_violation("model-limit", "object name longer than the model supports"); int o = 0; if (s[0] != '/') b[o++] = '/'; for (int i = 0; i <= n; i++) b[o + i] = s[i]; }
int mdl_bip_open(const char *name, int isMutex, int mode) {
  syscallMade("named object"); char b[NLEN]; slashName(b, name); if (badName(b)) return -1;
  int k = nameIdx(b, isMutex); while (!sx_visible(K_NAME + k, 1)) {}
  if (fault(isMutex ? F_SEM_OPEN : F_SHM_OPEN, "fault_named_object")) return -1;
  if (isMutex) {
    if (names[k].sem <= -2) return mode == 0 ? -1 : -2 - names[k].sem;
    if (names[k].sem >= 0) return -1; // a plain semaphore of that name
    if (mode == 1) return -1;
    if (nMtx == NBIP) sx_violation("model-limit", "too many mutexes");
    int i = nMtx++; mtxs[i].name = k; mtxs[i].held = 0; names[k].sem = -2 - i; return i; }
  if (names[k].inode <= -2) return mode == 0 ? -1 : -2 - names[k].inode;
  if (names[k].inode >= 0) return -1;
  if (mode == 1) return -1;
  if (nCv == NBIP) sx_violation("model-limit", "too many conditions");
  int i = nCv++; cvs[i].name = k; cvs[i].n = 0; names[k].inode = -2 - i; return i; }
int mdl_bip_remove(const char *name, int isMutex) {
  syscallMade("named object removal"); char b[NLEN]; slashName(b, name); if (badName(b)) return 0; int k = nameIdx(b, isMutex); while (!sx_visible(K_NAME + k, 1)) {}
  unlinks++; unlinksBy[sx_pid()]++;
  int ok = isMutex ? names[k].sem != -1 : names[k].inode != -1;
  if (isMutex) names[k].sem = -1; else { if (names[k].inode >= 0) inodes[names[k].inode].names--; names[k].inode = -1; }
  return ok; }
// A lock is a step that exists only while the mutex is free; an unlock commutes to the left of everything else, so it is no step of its own.
void mdl_mtx_lock(int m) { syscallMade("mutex lock"); int waited = 0; for (;;) { if (mtxs[m].held) { if (!waited++) blockedWaits++; sx_await(K_MTX + m); continue; } if (!sx_visible(K_MTX + m, 1)) continue; if (!mtxs[m].held) break; } mtxs[m].held = 1; mtxs[m].locks++; }
int mdl_mtx_trylock(int m) { while (!sx_visible(K_MTX + m, 1)) {} if (mtxs[m].held) return 0; mtxs[m].held = 1; mtxs[m].locks++; return 1; }
void mdl_mtx_unlock(int m) { if (!mtxs[m].held) badUnlocks++; mtxs[m].held = 0; sx_wrote(K_MTX + m); }
int mdl_cv_enqueue(int c) { while (!sx_visible(K_CV + c, 1)) {} Cv &v = cvs[c]; if (v.n == 32) sx_violation("model-limit", "too many waits"); int s = v.n++; v.sig[s] = 0; v.state[s] = 1; return s; }
int mdl_cv_await(int c, int s, int timed) {
  Cv &v = cvs[c]; int spurious = fault(F_CV_SPURIOUS, "spurious_wakeup"); // decided when the wait starts, takes effect at any later step
  for (;;) {
    if (v.sig[s]) { v.state[s] = 0; return 1; }
    if (!timed && !spurious) { sx_await(K_CV + c); continue; }
    if (!sx_visible(K_CV + c, 1)) continue;
    if (v.sig[s]) continue;
    v.state[s] = 0; return spurious; } }      // a timed wait: not notified before its deadline in this schedule
void mdl_cv_notify(int c, int all) {
  while (!sx_visible(K_CV + c, 1)) {} Cv &v = cvs[c]; int k = 0; for (int i = 0; i < v.n; i++) k += v.state[i] && !v.sig[i];
  if (!k) return;
  if (all) { for (int i = 0; i < v.n; i++) if (v.state[i]) v.sig[i] = 1; return; }
  int pick = 0; if (k > 1) { unsigned x = sx_sym_u32("notified_waiter"); sx_assume(x < (unsigned)k); pick = (int)sx_concretize(x); }
  for (int i = 0; i < v.n; i++) if (v.state[i] && !v.sig[i] && !pick--) { v.sig[i] = 1; return; } }
void mdl_cv_deadline(long long us) { lastDeadline = us; deadlineCalls++; }
long long mdl_cv_last_deadline(void) { return lastDeadline; }
int mdl_cv_deadlines(void) { return deadlineCalls; }
long long mdl_utc_us(int adv) { (void)adv; return 1700000000ll * 1000000ll + clockNow / 1000; }
int mdl_mtx_held(const char *name) { char b[NLEN]; slashName(b, name); int k = findName(b, 1); return k >= 0 && names[k].sem <= -2 ? mtxs[-2 - names[k].sem].held : -1; }
int mdl_mtx_exists(const char *name) { return mdl_mtx_held(name) >= 0; }
int mdl_cv_exists(const char *name) { char b[NLEN]; slashName(b, name); int k = findName(b, 0); return k >= 0 && names[k].inode <= -2; }
int mdl_cv_waiters(const char *name) { char b[NLEN]; slashName(b, name); int k = findName(b, 0); if (k < 0 || names[k].inode > -2) return -1; Cv &v = cvs[-2 - names[k].inode]; int n = 0; for (int i = 0; i < v.n; i++) n += v.state[i]; return n; }
int mdl_bad_unlocks(void) { return badUnlocks; }
int mdl_mtx_any_held(void) { int n = 0; for (int i = 0; i < nMtx; i++) n += mtxs[i].held; return n; }

// ---- inspection
void mdl_faults(int b, int m) { faultBudget = b; faultMask = m; faultUsed = 0; }
int mdl_faults_used(void) { return faultUsed; }
int mdl_open_fds(int pid) { int n = 0; for (int f = 0; f < NFD; f++) n += fds[pid][f].open && fds[pid][f].inode >= 0; return n; }
int mdl_bad_closes(void) { return badCloses; }
int mdl_foreign_fd(int pid) { int f = newFd(pid, -2); return f; }
int mdl_fd_is_open(int pid, int fd) { return fds[pid][fd].open; }
int mdl_shm_exists(const char *n) { int k = findName(n, 0); return k >= 0 && names[k].inode >= 0; }
int mdl_sem_exists(const char *n) { int k = findName(n, 1); return k >= 0 && names[k].sem >= 0; }
int mdl_names(void) { int n = 0; for (int i = 0; i < nNames; i++) n += names[i].inode != -1 || names[i].sem != -1; return n; }
int mdl_sem_value(const char *n) { int k = findName(n, 1); return k >= 0 && names[k].sem >= 0 ? sems[names[k].sem].value : -1; }
int mdl_sem_max(const char *n) { int k = findName(n, 1); return k >= 0 && names[k].sem >= 0 ? sems[names[k].sem].max : -1; }
int mdl_sem_ops(const char *n) { int k = findName(n, 1); return k >= 0 && names[k].sem >= 0 ? sems[names[k].sem].waits + sems[names[k].sem].posts : -1; }
int mdl_any_sem_max(void) { int m = 0; for (int i = 0; i < nSems; i++) if (sems[i].max > m) m = sems[i].max; return m; }
int mdl_held(const char *n) { int k = findName(n, 1); return k >= 0 && names[k].sem >= 0 ? sems[names[k].sem].waits - sems[names[k].sem].posts : -1; }
int mdl_sem_handles(int pid) { int n = 0; for (int i = 0; i < nHnds; i++) if (hnds[i].used && hnds[i].pid == pid) n += hnds[i].refs; return n; }
int mdl_unlink_count(void) { return unlinks; }
int mdl_unlinks_by(int pid) { return unlinksBy[pid]; }
int mdl_blocked_waits(void) { return blockedWaits; }
int mdl_mappings(int pid) { int n = 0; for (int i = 0; i < nMaps; i++) n += maps[i].used && maps[i].pid == pid; return n; }
void mdl_process_exit(int pid) { sx_kill(pid);
  for (int f = 0; f < NFD; f++) if (fds[pid][f].open) { fds[pid][f].open = 0; if (fds[pid][f].inode >= 0) inodes[fds[pid][f].inode].refs--; }
  for (int i = 0; i < nHnds; i++) if (hnds[i].pid == pid) hnds[i].used = 0; 
  for (int i = 0; i < nMaps; i++) if (maps[i].used && maps[i].pid == pid) { maps[i].used = 0; sx_unalias(maps[i].p); } }
void *mdl_shm_data(const char *n) { int k = findName(n, 0); return k >= 0 && names[k].inode >= 0 ? inodes[names[k].inode].data : 0; }
long mdl_shm_size(const char *n) { int k = findName(n, 0); return k >= 0 && names[k].inode >= 0 ? inodes[names[k].inode].size : -1; }
int mdl_name_count_log(void) { return nNames; }
const char *mdl_name_log(int i) { return names[i].n; }
int mdl_name_log_pid(int i) { return names[i].firstPid; }
int mdl_name_log_sem(int i) { return names[i].isSem; }
void mdl_capture(int on) { capOn = on; capLen = 0; cap[0] = 0; printfCalls = 0; }
const char *mdl_captured(void) { return cap; }
int mdl_captured_len(void) { return capLen; }
int mdl_printf_calls(void) { return printfCalls; }
long mdl_sleep_sec(void) { return lastSec; } long mdl_sleep_nsec(void) { return lastNsec; } int mdl_sleep_calls(void) { return sleepCalls; } int mdl_sleep_valid(void) { return sleepValid; }
void mdl_sleep_total(int64_t *s, int64_t *n) { *s = totSec; *n = totNsec; }
void mdl_record_sleep(int on) { recordSleep = on; sleepCalls = 0; sleepValid = 1; totSec = totNsec = 0; }
int mdl_calls(void) { return calls; }
void mdl_freeze(int on) { frozen = on; }
}
