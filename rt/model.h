// OS model: inspection and control interface used by harnesses.
#pragma once
#include "sx.h"
#ifdef __cplusplus
extern "C" {
#endif
// faults: number of system calls that may fail (symbolically chosen); 0 = none. mask selects calls.
enum { F_SHM_OPEN = 1, F_FTRUNCATE = 2, F_MMAP = 4, F_SEM_OPEN = 8, F_SEM_WAIT_EINTR = 16, F_TIMED_EINTR = 32, F_CV_SPURIOUS = 64, F_CV_TIMEOUT = 128 };
void mdl_faults(int budget, int mask);
int mdl_faults_used(void);
int mdl_open_fds(int pid);             // descriptors open in a process
int mdl_bad_closes(void);              // close() of a descriptor not open, munmap/sem_close of a bad object
int mdl_foreign_fd(int pid);           // opens a descriptor the endpoint does not own
int mdl_fd_is_open(int pid, int fd);
int mdl_name_exists(const char *name); // shm or semaphore name ("/x" shm, sem:"s/x")
int mdl_names(void);                   // number of existing names (shm + sem)
int mdl_shm_exists(const char *name);
int mdl_sem_exists(const char *name);
int mdl_sem_value(const char *name);   // -1 if none
int mdl_sem_handles(int pid);          // semaphores opened and not closed by pid
int mdl_sem_max(const char *name);     // largest value ever reached by the semaphore
int mdl_any_sem_max(void);
int mdl_unlink_count(void);
int mdl_unlinks_by(int pid);
int mdl_blocked_waits(void);           // number of times a thread actually blocked in sem_wait
void mdl_process_exit(int pid);        // close everything as the kernel does at process death
int mdl_held(const char *name);        // acquisitions minus releases
int mdl_mappings(int pid);
int mdl_open_segments(void);
void *mdl_shm_data(const char *name);
long mdl_shm_size(const char *name);
int mdl_name_count_log(void);          // distinct names ever used
const char *mdl_name_log(int i);
int mdl_name_log_pid(int i);
int mdl_name_log_sem(int i);
void mdl_capture(int on);              // capture printf output
const char *mdl_captured(void);
int mdl_captured_len(void);
int mdl_printf_calls(void);
long mdl_sleep_sec(void); long mdl_sleep_nsec(void); int mdl_sleep_calls(void); int mdl_sleep_valid(void);
void mdl_sleep_total(int64_t *sec, int64_t *nsec);
void mdl_after_sleeps(int n, void (*f)(void)); // the next n sleeps return at once, a second each; f runs in the last
void mdl_record_sleep(int on);         // sleeps are recorded instead of waiting for a change
void mdl_sem_faults_on_blocking(int on);
int mdl_calls(void);                   // system calls issued so far
void mdl_freeze(int on);               // forbid all system calls (violation if one is made)
// condition-variable shim statistics
int mdl_cv_waiters(const char *name);
int mdl_mtx_held(const char *name); int mdl_mtx_exists(const char *name); int mdl_cv_exists(const char *name); int mdl_bad_unlocks(void); int mdl_mtx_any_held(void);
long long mdl_cv_last_deadline(void); int mdl_cv_deadlines(void);
void mdl_on_sem(void (*f)(void));      // f runs at every semaphore operation of the call under test (0: off)
int mdl_sem_ops(const char *name);     // number of acquisitions plus releases so far

#ifdef __cplusplus
}
#endif
