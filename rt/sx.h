// Interface between harnesses / OS model and the symbolic executor (engine/symx.cpp) or the native replay runtime (rt/sx_native.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_make_symbolic(void *p, size_t n, const char *name);
uint64_t sx_sym_u64(const char *name);
uint32_t sx_sym_u32(const char *name);
uint64_t sx_concretize(uint64_t v);
void sx_assume(int c);
void sx_assert(int c, const char *label);
int sx_possible(int c);
void sx_reach(const char *label);
void sx_observe(const char *label, uint64_t v);
int sx_cfg(const char *name, int dflt);
int sx_native(void);
int sx_tid(void);
int sx_pid(void);
void sx_set_pid(int);
void sx_set_max_crashes(int);
void sx_log(const char *, uint64_t);
int sx_spawn(void (*f)(void *), void *arg, int pid, int can_crash);
int sx_join(void);                 // runs the spawned threads; returns how many are stuck
int sx_thread_state(int tid);      // 0 done 1 stuck 2 crashed
void sx_kill(int pid);             // the threads of a process (other than the caller) never run again
void sx_exit_thread(void) __attribute__((noreturn));
int sx_visible(uint64_t key, int write);   // 0: footprint stale, recompute
void sx_block(uint64_t key);
void sx_await(uint64_t key);         // blocked until another thread writes key, without a step of its own
void sx_wrote(uint64_t key);
void sx_sleep(void);
void *sx_alias(void *p, size_t n);
int sx_unalias(void *p);
void *sx_segment(size_t cap);              // resizable object, initially of size 0
void sx_resize(void *p, size_t n);
size_t sx_objsize(void *p);
void sx_throw_std(const char *ti);
void sx_violation(const char *label, const char *detail);
#ifdef __cplusplus
}
#endif
