/* simrt: a deterministic simulation runtime for amino.
 *
 * One forked child process = one simulated run.  Every thread of the program
 * under test is a real pthread that runs only when the simulator hands it the
 * token; every scheduling decision, clock reading, fault and workload choice
 * is drawn from recorded choice streams that a single seed determines.
 */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- choice streams -------------------------------------------------- */
enum { S_CFG = 0, S_OP = 1, S_SCHED = 2, S_FAULT = 3, S_NSTREAM = 4 };

/* Uniform draw in [0,n).  0 is always the "simplest" answer. */
uint32_t sim_choose(int stream, uint32_t n);
/* 0 with probability (den-num)/den, 1 with num/den */
int sim_chance(int stream, uint32_t num, uint32_t den);
static inline uint32_t op_choose(uint32_t n) { return sim_choose(S_OP, n); }
static inline int op_range(int lo, int hi) { return lo + (int)sim_choose(S_OP, (uint32_t)(hi - lo + 1)); }
static inline int op_chance(uint32_t num, uint32_t den) { return sim_chance(S_OP, num, den); }
static inline uint32_t cfg_choose(uint32_t n) { return sim_choose(S_CFG, n); }
/* a double in [-1,1] on a coarse grid (so that traces shrink well) */
double op_unit(void);

/* ---- faults ----------------------------------------------------------- */
enum {
    F_ALLOC_FAIL, F_READ_SHORT, F_READ_EINTR, F_READ_EIO, F_READ_EOF, F_OPEN_FAIL,
    F_WRITE_SHORT, F_WRITE_ERR, F_SLEEP_EINTR, F_SPURIOUS_WAKE, F_STALL, F_CLOCK_JUMP,
    F_THREAD_KILL, F_DLOPEN_FAIL, F_DLSYM_FAIL, F_GL_ERR, F_INPUT_EVENT, F_TIMEOUT, F_MOVED_BLOCK,
    F_CREATE_FAIL, F_TRUNCATE, F_CORRUPT, F_BAD_ARG, F_N
};
extern const char *sim_fault_names[F_N];
/* Should fault f fire here?  Fires only if enabled for this run. */
int  sim_fault(int f);
void sim_fault_enable(int f, uint32_t num, uint32_t den);
void sim_fault_disable(int f);
void sim_fault_note(int f);           /* count a fault the scenario injected itself */
unsigned sim_fault_fired(int f);

/* ---- reporting ------------------------------------------------------------ */
void sim_violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* A finding that is listed in known-findings: the run ends, is counted, and is not a violation. */
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_hash(const void *p, size_t n);
static inline void sim_hash_u64(uint64_t v) { sim_hash(&v, sizeof v); }
void sim_state(uint64_t h);           /* record a reached abstract state */
void sim_probe_(const char *name);
#define sim_probe(name) sim_probe_(name)
#define SIM_CHECK(c, cls, ...) do { if (!(c)) sim_violation(cls, __VA_ARGS__); } while (0)

/* ---- threads / time -------------------------------------------------------- */
typedef struct sim_thread *sim_tid;
sim_tid sim_spawn(const char *name, void *(*fn)(void *), void *arg);
void sim_join(sim_tid t);
int  sim_self_id(void);
void sim_yield(void);                 /* explicit preemption point */
void sim_sleep_ns(int64_t ns);
int64_t sim_now_ns(void);
void sim_advance_ns(int64_t ns);
unsigned sim_thread_count(void);      /* live threads */
int sim_thread_alive(int id);
void sim_set_daemon(sim_tid t);       /* may stay blocked at the end */
void sim_set_step_limit(uint64_t n);
uint64_t sim_steps(void);
int sim_block_until(int (*pred)(void *), void *cx, const char *what); /* scheduler-level wait */
/* Do all threads other than the caller need something that will never come? */
void sim_atomic_begin(void);          /* no preemption at instrumented accesses */
void sim_atomic_end(void);
void sim_set_races(int on);           /* happens-before race oracle */
void sim_set_sched(int strategy);
void sim_sched_swarm(int multithreaded);

/* ---- heap ---------------------------------------------------------------------- */
size_t sim_heap_live(void);           /* bytes live, allocated by simulated threads */
size_t sim_heap_live_blocks(void);
uint64_t sim_heap_mark(void);         /* allocation sequence number */
/* count blocks allocated since mark, from the program's own text, still live */
size_t sim_heap_leaks(uint64_t mark, char *buf, size_t nbuf);
int  sim_heap_addressable(const void *p, size_t n); /* 1 yes, 0 no, -1 not heap */
size_t sim_heap_block_size(const void *p);
void sim_heap_alloc_limit(size_t max_bytes);  /* malloc beyond this total -> violation */
void sim_check_range(const void *p, size_t n, int write);
void sim_heap_reuse(int mode);
void sim_heap_fill(int byte);
void sim_no_heapcheck(int on);

/* ---- simulated files ------------------------------------------------------------- */
void simfs_put(const char *path, const void *data, size_t n);
const void *simfs_get(const char *path, size_t *n);  /* written contents */
/* bytes handed to readers before the first read error; *err: a read error was delivered */
size_t simfs_delivered(const char *path, int *err);
int  simfs_exists(const char *path);
int  simfs_open_count(void);          /* descriptors open */
void simfs_remove(const char *path);
void simfs_set_chunk(size_t max);     /* upper bound of one read() */
int  simfs_fd(const char *path);      /* raw descriptor for read() */
void simfs_fd_close(int fd);

/* ---- dynamic loader: what the library calls instead of dlopen() and so on; the real one unless a scenario provides its own ---- */
struct sim_loader { void *(*open)(const char *, int); void *(*sym)(void *, const char *); int (*close)(void *); char *(*error)(void); };
extern const struct sim_loader *sim_dl;

/* ---- scenario table ------------------------------------------------------------------ */
struct sim_scenario {
    const char *property;
    const char *name;
    void (*run)(void);
    int weight;
};
extern const struct sim_scenario __start_simscen[], __stop_simscen[];
#define sim_scenarios __start_simscen
#define sim_n_scenarios ((int)(__stop_simscen - __start_simscen))
#define SIM_SCENARIO(prop, nm, fn, w) \
    static const struct sim_scenario scen_##nm __attribute__((section("simscen"), used, aligned(8))) = {prop, #nm, fn, w}

#ifdef __cplusplus
}
#endif
#endif
