/* stands in for the graphics and window system in a demonstration */
#ifndef GLSHIM_H
#define GLSHIM_H
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
enum { F_INPUT_EVENT, F_CREATE_FAIL, S_FAULT };
static __thread int shim_id_; static int shim_n_;
static inline int sim_self_id(void) { if (!shim_id_) shim_id_ = __atomic_add_fetch(&shim_n_, 1, __ATOMIC_SEQ_CST); return shim_id_; }
static inline int sim_thread_alive(int id) { (void)id; return 1; }
static inline void sim_violation(const char *c, const char *f, ...) { va_list a; va_start(a, f); fprintf(stderr, "%s: ", c); vfprintf(stderr, f, a); fprintf(stderr, "\n"); va_end(a); _exit(1); }
static inline void sim_yield(void) {}
static inline void sim_check_range(const void *p, size_t n, int w) { (void)p; (void)n; (void)w; }
static inline int sim_fault(int f) { (void)f; return 0; }
static inline void sim_fault_note(int f) { (void)f; }
static inline uint32_t sim_choose(int s, uint32_t n) { (void)s; (void)n; return 0; }
static inline int64_t sim_now_ns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
static inline void sim_sleep_ns(int64_t ns) { if (ns <= 0) return; struct timespec t = {ns / 1000000000, ns % 1000000000}; nanosleep(&t, NULL); }
#endif
