/* simrt core: choice streams, scheduler, clock, heap, race oracle, worker loop. */
#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define PC() ((uintptr_t)__builtin_return_address(0))

/* ------------------------------------------------------------------ layout */
#define ARENA_BASE 0x200000000000ULL
#define ARENA_SIZE (1ULL << 30)
#define STACK_BASE 0x210000000000ULL
#define STACK_SZ   (8ULL << 20)
#define MAXT       32
#define ASH_BASE   0x220000000000ULL /* 1 byte per 8 */
#define RSH_BASE   0x230000000000ULL /* 4 x 8 bytes per 8 */
#define RPC_BASE   0x250000000000ULL /* 4 x 4 bytes per 8 */
#define BOOT_SIZE  (96ULL << 20)

extern char __executable_start, etext, edata, end, __data_start;

/* ------------------------------------------------------------------ shared result */
#define MAXCH (1u << 20)
#define MAXLOG (256u << 10)
#define NPROBE 192
struct result {
    int status; /* 0 running, 1 ok, 2 violation, 3 discard */
    int sig;
    char cls[48];
    char msg[2048];
    uint64_t hash, ilv, state_n;
    uint64_t steps, switches, allocs;
    int64_t simtime;
    uint32_t fault[F_N];
    uint32_t nprobe;
    char probe[NPROBE][40];
    uint32_t probec[NPROBE];
    uint32_t nch[S_NSTREAM];
    uint32_t overflow;
    uint32_t threads;
    uint32_t nlog;
    uint32_t nstates;
    uint64_t states[1024];
    char log[MAXLOG];
    uint32_t ch[S_NSTREAM][MAXCH];
};
static struct result *R;

const char *sim_fault_names[F_N] = {
    "alloc-fail", "short-read", "read-EINTR", "read-EIO", "early-EOF", "open-fail",
    "short-write", "write-error", "sleep-EINTR", "spurious-wakeup", "thread-stall", "clock-jump",
    "thread-exit", "dlopen-fail", "dlsym-fail", "gl-error", "input-event", "timeout", "realloc-moves",
    "thread-create-fail", "truncated-file", "corrupt-input", "invalid-request"};

/* ------------------------------------------------------------------ state */
enum tstate { T_FREE, T_RUN, T_BLOCK, T_SLEEP, T_PRED, T_DONE };
struct tlsdtor { void (*fn)(void *); void *obj; };
#define NKEYS 64
struct sim_thread {
    int id;
    volatile int futex;
    int state;
    const char *why;
    void *wobj;
    int64_t deadline; /* <0: none */
    int timedout;
    int woken;
    int prio;
    int daemon, detached, in_real, nopre, nocheck;
    void *(*fn)(void *);
    void *arg, *ret;
    int (*pred)(void *);
    void *predcx;
    char name[24];
    void *keys[NKEYS];
    struct tlsdtor td[32];
    int ntd;
    uint64_t runsteps;
    pthread_t real;
    uint32_t vc[MAXT];
};

static struct sim_thread T[MAXT];
static int nT;
static int nLive;
static __thread struct sim_thread *self;
static volatile int sim_on;
static int cur;

static uint64_t steps, step_limit = 30000000, switches;
static int64_t vtime;
static int64_t preempt_cd = INT64_MAX;
static uint32_t preempt_mean;
static int strat; /* 0 run-to-block, 1 random, 2 pct */
static uint32_t sync_num = 1, sync_den = 2;
static int race_on;
static int heap_check = 1;
static uint64_t g_hash = 1469598103934665603ULL, g_ilv = 1469598103934665603ULL;

static struct { uint32_t num, den; } faultcfg[F_N];

static int verbose;

/* real functions */
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static FILE *(*real_fopen)(const char *, const char *);
static ssize_t (*real_read)(int, void *, size_t);
static int (*real_fileno)(FILE *);
static int (*real_clock_gettime)(clockid_t, struct timespec *);
static int (*real_key_create)(pthread_key_t *, void (*)(void *));
static void *(*real_getspecific)(pthread_key_t);
static int (*real_setspecific)(pthread_key_t, const void *);
static int (*real_nanosleep)(const struct timespec *, struct timespec *);

static inline int in_sim(void) { return sim_on && self && !self->in_real; }

/* ------------------------------------------------------------------ hash/log */
static inline uint64_t fnv(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
    return h;
}
void sim_hash(const void *p, size_t n) { g_hash = fnv(g_hash, p, n); }
static inline void ilv(uint64_t v) { g_ilv = (g_ilv ^ v) * 1099511628211ULL; g_ilv ^= g_ilv >> 29; }

void sim_log(const char *fmt, ...) {
    if (!R) return;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int k = snprintf(b, sizeof b, "[t%d %llu] ", self ? self->id : -1, (unsigned long long)steps);
    int n = vsnprintf(b + k, sizeof b - (size_t)k - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - k - 3) n = (int)sizeof b - k - 3;
    b[k + n] = '\n';
    sim_hash(b + k, (size_t)n);
    if (R->nlog + (uint32_t)(k + n + 1) < MAXLOG) {
        memcpy(R->log + R->nlog, b, (size_t)(k + n + 1));
        R->nlog += (uint32_t)(k + n + 1);
    }
}

static void finish_result(int status) {
    R->hash = g_hash;
    R->ilv = g_ilv;
    R->steps = steps;
    R->switches = switches;
    R->simtime = sim_now_ns();
    R->threads = (uint32_t)nT;
    __sync_synchronize();
    R->status = status;
}

void sim_violation(const char *cls, const char *fmt, ...) {
    if (R && R->status == 0) {
        va_list ap;
        va_start(ap, fmt);
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        va_end(ap);
        sim_hash(R->cls, strlen(R->cls));
        sim_hash(R->msg, strlen(R->msg));
        finish_result(2);
    }
    _exit(77);
}

void sim_probe_(const char *name) {
    if (!R) return;
    for (uint32_t i = 0; i < R->nprobe; i++)
        if (!strncmp(R->probe[i], name, 39)) { R->probec[i]++; return; }
    if (R->nprobe < NPROBE) {
        snprintf(R->probe[R->nprobe], 40, "%s", name);
        R->probec[R->nprobe++] = 1;
    }
}
void sim_state(uint64_t h) {
    for (uint32_t i = 0; i < R->nstates; i++) if (R->states[i] == h) return;
    if (R->nstates < 1024) R->states[R->nstates++] = h;
}

/* ------------------------------------------------------------------ choices */
static uint64_t rng[S_NSTREAM];
static int replaying;
static uint32_t *rp[S_NSTREAM];
static uint32_t rpn[S_NSTREAM];

static inline uint64_t smix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint32_t sim_choose(int st, uint32_t n) {
    if (n <= 1) return 0;
    uint32_t k = R->nch[st], v;
    if (replaying) {
        v = k < rpn[st] ? rp[st][k] : 0;
        if (v >= n) v = v % n;
    } else
        v = (uint32_t)((smix(&rng[st]) >> 32) * (uint64_t)n >> 32);
    if (k < MAXCH) R->ch[st][k] = v; else R->overflow = 1;
    R->nch[st]++;
    if (st == S_OP) g_hash = (g_hash ^ v) * 1099511628211ULL;
    return v;
}
int sim_chance(int st, uint32_t num, uint32_t den) {
    if (num == 0) return 0;
    /* 0 must mean "no": map the top num values to 1, keep recorded value 0/1 */
    uint32_t k = R->nch[st], v;
    if (replaying) v = (k < rpn[st] && rp[st][k]) ? 1 : 0;
    else v = ((smix(&rng[st]) >> 32) * (uint64_t)den >> 32) < num;
    if (k < MAXCH) R->ch[st][k] = v; else R->overflow = 1;
    R->nch[st]++;
    return (int)v;
}
double op_unit(void) {
    uint32_t v = op_choose(129); /* 0 -> 0.0 */
    int s = (v & 1) ? -(int)((v + 1) / 2) : (int)(v / 2);
    return (double)s / 64.0;
}

void sim_fault_enable(int f, uint32_t num, uint32_t den) { faultcfg[f].num = num; faultcfg[f].den = den; }
void sim_fault_disable(int f) { faultcfg[f].num = 0; }
void sim_fault_note(int f) { R->fault[f]++; }
unsigned sim_fault_fired(int f) { return R->fault[f]; }
int sim_fault(int f) {
    if (!faultcfg[f].num) return 0;
    if (sim_chance(S_FAULT, faultcfg[f].num, faultcfg[f].den)) {
        R->fault[f]++;
        sim_log("FAULT %s", sim_fault_names[f]);
        return 1;
    }
    return 0;
}

/* ------------------------------------------------------------------ futex token */
static inline void fwait(volatile int *a) {
    while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static inline void fwake(volatile int *a) {
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

/* ------------------------------------------------------------------ time */
static int64_t clock_skew;
int64_t sim_now_ns(void) { return vtime + (int64_t)(steps * 10); }
void sim_advance_ns(int64_t ns) { vtime += ns; }

/* ------------------------------------------------------------------ scheduler */
static void deadlock(void) {
    char b[1500];
    size_t k = 0;
    b[0] = 0;
    for (int i = 0; i < nT && k < sizeof b - 120; i++)
        if (T[i].state != T_DONE && T[i].state != T_FREE)
            k += (size_t)snprintf(b + k, sizeof b - k, " t%d(%s)=%s", i, T[i].name, T[i].why ? T[i].why : "?");
    sim_violation("deadlock", "no thread can make progress:%s", b);
}

static int refresh(int *cand) {
    int n = 0;
    int64_t now = sim_now_ns();
    for (int i = 0; i < nT; i++) {
        struct sim_thread *t = &T[i];
        switch (t->state) {
        case T_RUN: cand[n++] = i; break;
        case T_BLOCK: case T_SLEEP:
            if (t->deadline >= 0 && t->deadline <= now) {
                t->timedout = 1;
                cand[n++] = i;
            }
            break;
        case T_PRED:
            if (t->pred(t->predcx)) cand[n++] = i;
            break;
        default: break;
        }
    }
    return n;
}

static struct sim_thread *pick(int must_switch) {
    int cand[MAXT];
    for (;;) {
        int n = refresh(cand);
        if (n == 0) {
            int64_t d = -1;
            for (int i = 0; i < nT; i++)
                if ((T[i].state == T_BLOCK || T[i].state == T_SLEEP) && T[i].deadline >= 0 && (d < 0 || T[i].deadline < d))
                    d = T[i].deadline;
            if (d < 0) deadlock();
            int64_t now = sim_now_ns();
            if (d > now) vtime += d - now;
            continue;
        }
        if (n == 1) return &T[cand[0]];
        /* order: current first, then ids ascending (rotated from the current) */
        int c2[MAXT], m = 0, havecur = 0;
        for (int i = 0; i < n; i++) if (cand[i] == cur) havecur = 1;
        if (havecur) c2[m++] = cur;
        for (int k = 1; k < nT + 1; k++) {
            int id = (cur + k) % nT;
            if (id == cur) continue;
            for (int i = 0; i < n; i++) if (cand[i] == id) { c2[m++] = id; break; }
        }
        (void)must_switch;
        if (strat == 2) {
            int b = c2[0];
            for (int i = 1; i < m; i++) if (T[c2[i]].prio > T[b].prio) b = c2[i];
            return &T[b];
        }
        if (strat == 0) return &T[c2[0]];
        if (havecur) {
            if (!sim_chance(S_SCHED, sync_num, sync_den)) return &T[cur];
            return &T[c2[1 + sim_choose(S_SCHED, (uint32_t)(m - 1))]];
        }
        return &T[c2[sim_choose(S_SCHED, (uint32_t)m)]];
    }
}

static void arm(void) {
    if (!preempt_mean) { preempt_cd = INT64_MAX; return; }
    uint32_t v = sim_choose(S_SCHED, 2 * preempt_mean);
    preempt_cd = v ? (int64_t)v : INT64_MAX;
}

static void run_thread(struct sim_thread *n) {
    struct sim_thread *me = self;
    if (n->state != T_RUN) { n->state = T_RUN; n->woken = 1; }
    if (n == me) return;
    switches++;
    n->runsteps = 0;
    vtime += 1000;
    ilv(((uint64_t)n->id << 48) ^ steps);
    cur = n->id;
    if (preempt_mean && preempt_cd == INT64_MAX) arm();
    fwake(&n->futex);
    if (me->state != T_DONE) fwait(&me->futex);
}

static void sched_point(void) {
    if (!in_sim() || self->nopre) return;
    steps++;
    if (nLive > 1) {
        if (faultcfg[F_STALL].num && sim_fault(F_STALL)) {
            /* stall: this thread is not scheduled for a while */
            self->state = T_SLEEP; self->why = "stalled";
            self->deadline = sim_now_ns() + 1000000LL * (1 + (int64_t)sim_choose(S_FAULT, 2000));
            run_thread(pick(1));
            self->deadline = -1;
            return;
        }
        run_thread(pick(0));
    }
    if (unlikely(steps > step_limit)) sim_violation("no-progress", "step limit %llu exceeded in t%d", (unsigned long long)step_limit, self->id);
}
void sim_yield(void) { sched_point(); }
static void block(const char *why, void *obj, int64_t deadline) {
    struct sim_thread *me = self;
    me->state = T_BLOCK;
    me->why = why;
    me->wobj = obj;
    me->deadline = deadline;
    me->timedout = 0;
    me->woken = 0;
    steps++;
    run_thread(pick(1));
    me->deadline = -1;
    me->wobj = NULL;
}
static void unblock(struct sim_thread *t) { if (t->state == T_BLOCK) { t->state = T_RUN; t->woken = 1; t->timedout = 0; } }

static void __attribute__((noinline)) preempt(void) {
    preempt_cd = INT64_MAX;
    if (self->nopre) { preempt_cd = 1; return; }
    if (nLive <= 1) return;
    if (strat == 2) {
        int lo = 0;
        for (int i = 0; i < nT; i++) if (T[i].prio < lo) lo = T[i].prio;
        self->prio = lo - 1;
        run_thread(pick(0));
    } else {
        int cand[MAXT];
        int n = refresh(cand);
        if (n > 1) {
            int c2[MAXT], m = 0;
            for (int k = 1; k < nT; k++) {
                int id = (cur + k) % nT;
                for (int i = 0; i < n; i++) if (cand[i] == id) { c2[m++] = id; break; }
            }
            if (m) { arm(); run_thread(&T[c2[sim_choose(S_SCHED, (uint32_t)m)]]); return; }
        }
    }
    arm();
}

static void __attribute__((noinline)) limit(void) {
    if (steps > step_limit) sim_violation("no-progress", "step limit %llu exceeded in t%d(%s)", (unsigned long long)step_limit, self->id, self->name);
    if (++self->runsteps > 200000) {
        self->runsteps = 0;
        if (nLive > 1 && !self->nopre) {
            int lo = 0;
            for (int i = 0; i < nT; i++) if (T[i].prio < lo) lo = T[i].prio;
            self->prio = lo - 1;
            int cand[MAXT]; int n = refresh(cand);
            for (int i = 0; i < n; i++) if (cand[i] > cur) { run_thread(&T[cand[i]]); return; }
            if (n && cand[0] != cur) run_thread(&T[cand[0]]);
        }
    }
}

void sim_set_step_limit(uint64_t n) { step_limit = n; }
uint64_t sim_steps(void) { return steps; }
int sim_self_id(void) { return self ? self->id : -1; }
unsigned sim_thread_count(void) { return (unsigned)nLive; }
int sim_thread_alive(int id) { for (int i = 0; i < nT; i++) if (T[i].id == id) return T[i].state != T_DONE && T[i].state != T_FREE; return 0; }
void sim_set_daemon(sim_tid t) { t->daemon = 1; }
void sim_atomic_begin(void) { self->nopre++; }
void sim_atomic_end(void) { self->nopre--; }
void sim_set_races(int on) { race_on = on; }
void sim_no_heapcheck(int on) { heap_check = !on; }
void sim_set_sched(int s) { strat = s; }

/* Draw a scheduling strategy for this run (swarm). */
void sim_sched_swarm(int mt) {
    static const uint32_t means[] = {0, 300, 60, 15, 4, 1500};
    if (!mt) { strat = 0; return; }
    uint32_t s = cfg_choose(8);
    strat = s == 0 ? 0 : (s <= 5 ? 1 : 2);
    preempt_mean = means[cfg_choose(6)];
    static const uint32_t dens[] = {2, 3, 8, 30};
    sync_num = 1;
    sync_den = dens[cfg_choose(4)];
    if (strat == 2 && !preempt_mean) preempt_mean = 400;
    if (strat == 2) for (int i = 0; i < nT; i++) T[i].prio = (int)sim_choose(S_SCHED, 1000);
    preempt_cd = INT64_MAX;
    arm();
}

int sim_block_until(int (*pred)(void *), void *cx, const char *what) {
    if (pred(cx)) { sched_point(); return 0; }
    self->state = T_PRED;
    self->why = what;
    self->pred = pred;
    self->predcx = cx;
    self->deadline = -1;
    run_thread(pick(1));
    return 0;
}

void sim_sleep_ns(int64_t ns) {
    self->state = T_SLEEP;
    self->why = "sleeping";
    self->deadline = sim_now_ns() + (ns < 0 ? 0 : ns);
    steps++;
    run_thread(pick(1));
    self->deadline = -1;
}

/* ------------------------------------------------------------------ vector clocks */
static inline void vjoin(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

enum { SO_MUTEX = 1, SO_COND, SO_ATOMIC, SO_ONCE, SO_RW };
struct sobj { uintptr_t addr; int used; int owner, count, kind, readers; uint32_t vc[MAXT]; };
#define NSO (1 << 14)
static struct sobj *SO;
static struct sobj *sobj(const void *a) {
    uintptr_t x = (uintptr_t)a;
    uint32_t h = (uint32_t)((x >> 3) * 2654435761u) & (NSO - 1);
    for (uint32_t i = 0; i < NSO; i++) {
        struct sobj *s = &SO[(h + i) & (NSO - 1)];
        if (!s->used) { s->used = 1; s->addr = x; s->owner = -1; return s; }
        if (s->addr == x) return s;
    }
    sim_violation("sim-limit", "too many synchronisation objects");
}
static void sobj_reset(const void *a) {
    struct sobj *s = sobj(a);
    s->owner = -1; s->count = 0; s->readers = 0;
    memset(s->vc, 0, sizeof s->vc);
}
static inline void acq(struct sobj *s) { vjoin(self->vc, s->vc); }
static inline void rel(struct sobj *s) { vjoin(s->vc, self->vc); self->vc[self->id]++; }

/* ------------------------------------------------------------------ race oracle */
static uintptr_t data_lo, data_hi;
static inline uint64_t *rcell(uintptr_t a, uint32_t **pcs) {
    uint64_t off;
    if (a - ARENA_BASE < ARENA_SIZE) off = a - ARENA_BASE;
    else if (a - STACK_BASE < STACK_SZ * MAXT) off = ARENA_SIZE + (a - STACK_BASE);
    else if (a >= data_lo && a < data_hi) off = ARENA_SIZE + STACK_SZ * MAXT + (a - data_lo);
    else return NULL;
    off >>= 3;
    *pcs = (uint32_t *)(RPC_BASE + off * 16);
    return (uint64_t *)(RSH_BASE + off * 32);
}
/* slot: clk 32 | tid 6 | off 3 | len 4 | w 1 | at 1 | used 1 */
static void __attribute__((noinline)) race_acc(uintptr_t a, unsigned n, int w, int at, uintptr_t pc) {
    while (n) {
        unsigned off = (unsigned)(a & 7), m = 8 - off < n ? 8 - off : n;
        uint32_t *pcs;
        uint64_t *c = rcell(a, &pcs);
        if (!c) return;
        int me = self->id;
        int place = -1, freeslot = -1, dead = -1;
        for (int i = 0; i < 4; i++) {
            uint64_t s = c[i];
            if (!(s >> 47 & 1)) { if (freeslot < 0) freeslot = i; continue; }
            uint32_t clk = (uint32_t)s;
            int tid = (int)(s >> 32 & 63), so = (int)(s >> 38 & 7), sl = (int)(s >> 41 & 15), sw = (int)(s >> 45 & 1), sa = (int)(s >> 46 & 1);
            int hb = tid == me || self->vc[tid] >= clk;
            if (tid == me && so == (int)off && sl == (int)m && sa == at && (sw == w || w)) { place = i; continue; }
            int overlap = so < (int)(off + m) && (int)off < so + sl;
            if (!hb && overlap && (w || sw) && !(at && sa))
                sim_violation("data-race", "%s by t%d at pc=0x%lx conflicts with %s by t%d at pc=0x%x (addr %p, %u bytes)",
                              w ? (at == 2 ? "free" : "write") : "read", me, (unsigned long)pc, sw ? "write" : "read", tid, pcs[i], (void *)a, m);
            if (hb && (w || !sw) && so >= (int)off && so + sl <= (int)(off + m)) dead = i;
        }
        int k = place >= 0 ? place : freeslot >= 0 ? freeslot : dead >= 0 ? dead : (int)(steps & 3);
        c[k] = (uint64_t)self->vc[me] | (uint64_t)me << 32 | (uint64_t)off << 38 | (uint64_t)m << 41 | (uint64_t)(w != 0) << 45 | (uint64_t)(at == 1) << 46 | 1ULL << 47;
        pcs[k] = (uint32_t)pc;
        a += m;
        n -= m;
    }
}
static void race_reset(uintptr_t a, size_t n) {
    uint32_t *pcs;
    uint64_t *c = rcell(a, &pcs);
    if (c) memset(c, 0, (n + 7) / 8 * 32);
}

/* ------------------------------------------------------------------ heap */
struct hdr { uint32_t magic, tid; uint64_t size, seq, caller, base, total; struct hdr *next; uint64_t cls; };
#define HSZ 64
#define MAG 0x51A10C8Du
#define MAGF 0xDEADF4EEu
#define RZ 0xC7
static char *arena_top = (char *)ARENA_BASE;
static uint64_t heap_seq;
static size_t heap_live, heap_blocks, heap_limit = 768u << 20;
#define NCLS 96
static struct hdr *freel[NCLS];
static struct hdr *qhead, *qtail;
static size_t qbytes, qcap = 256u << 20;
static int fill_byte = 0xA9;
static char *boot, *boot_top;
static volatile int boot_lock;
struct bhdr { uint64_t size, pad; };

void sim_heap_fill(int b) { fill_byte = b; }
void sim_heap_reuse(int mode) { qcap = mode == 0 ? 256u << 20 : mode == 1 ? 0 : 4096; }
void sim_heap_alloc_limit(size_t n) { heap_limit = n; }
size_t sim_heap_live(void) { return heap_live; }
size_t sim_heap_live_blocks(void) { return heap_blocks; }
uint64_t sim_heap_mark(void) { return heap_seq; }

static void boot_init(void) {
    boot = mmap(NULL, BOOT_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    boot_top = boot;
}
static void *boot_alloc(size_t n, size_t al) {
    while (__sync_lock_test_and_set(&boot_lock, 1)) sched_yield();
    if (!boot) boot_init();
    uintptr_t p = ((uintptr_t)boot_top + sizeof(struct bhdr) + al - 1) & ~(al - 1);
    struct bhdr *h = (struct bhdr *)(p - sizeof(struct bhdr));
    boot_top = (char *)(p + ((n + 15) & ~15ULL));
    if (boot_top > boot + BOOT_SIZE) { static const char m[] = "simrt: boot arena exhausted\n"; if (write(2, m, sizeof m)) {} _exit(78); }
    h->size = n;
    __sync_lock_release(&boot_lock);
    return (void *)p;
}
static inline int is_boot(const void *p) { return boot && (char *)p >= boot && (char *)p < boot + BOOT_SIZE; }
static inline int is_arena(const void *p) { return (uintptr_t)p - ARENA_BASE < ARENA_SIZE; }
static inline uint8_t *ash(uintptr_t a) { return (uint8_t *)(ASH_BASE + ((a - ARENA_BASE) >> 3)); }

static unsigned cls_of(size_t tot, size_t *out) {
    if (tot <= 1024) { unsigned c = (unsigned)((tot + 31) / 32); *out = c * 32u; return c; } /* 0..32 */
    unsigned c = 33;
    size_t s = 1280;
    while (s < tot && c < NCLS - 1) { s += s / 4; s = (s + 63) & ~63ULL; c++; }
    if (s < tot) { *out = (tot + 4095) & ~4095ULL; return 0; }
    *out = s;
    return c;
}
static void qevict(void) {
    while (qhead && qbytes > qcap) {
        struct hdr *h = qhead;
        qhead = h->next;
        if (!qhead) qtail = NULL;
        qbytes -= h->total;
        if (h->cls) { h->next = freel[h->cls]; freel[h->cls] = h; }
        else madvise((void *)((h->base + 4096 + 4095) & ~4095ULL), h->total > 16384 ? (h->total - 16384) & ~4095ULL : 0, MADV_DONTNEED);
    }
}
static void *halloc(size_t n, size_t al, uintptr_t pc) {
    if (n > (1ULL << 40)) { errno = ENOMEM; return NULL; }
    if (faultcfg[F_ALLOC_FAIL].num && pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext && sim_fault(F_ALLOC_FAIL)) { errno = ENOMEM; return NULL; }
    size_t pad = al > 16 ? al : 0;
    size_t tot = HSZ + pad + ((n + 15) & ~15ULL) + 16, ct;
    unsigned c = cls_of(tot, &ct);
    if (heap_live + n > heap_limit) sim_violation("memory-growth", "live heap would exceed %zu bytes (request of %zu at pc=0x%lx)", heap_limit, n, (unsigned long)pc);
    uint64_t base;
    if (c && freel[c]) {
        struct hdr *h = freel[c];
        freel[c] = h->next;
        base = h->base;
        ct = h->total;
    } else {
        if (arena_top + ct > (char *)ARENA_BASE + ARENA_SIZE) {
            if (qcap) { qcap = 0; qevict(); return halloc(n, al, pc); }
            sim_violation("sim-limit", "arena exhausted");
        }
        base = (uint64_t)arena_top;
        arena_top += ct;
    }
    uintptr_t u = base + HSZ;
    if (pad) u = (u + al - 1) & ~(al - 1);
    struct hdr *h = (struct hdr *)(u - HSZ);
    h->magic = MAG; h->tid = (uint32_t)self->id; h->size = n; h->seq = ++heap_seq; h->caller = pc; h->base = base; h->total = ct; h->cls = c; h->next = NULL;
    heap_live += n; heap_blocks++;
    R->allocs++;
    uint8_t *s = ash(u);
    memset(s, 8, n / 8);
    if (n & 7) s[n / 8] = (uint8_t)(n & 7);
    memset((void *)u, fill_byte, n);
    size_t tail = base + ct - (u + n);
    memset((void *)(u + n), RZ, tail < 32 ? tail : 32);
    if (race_on) race_reset(u, n);
    return (void *)u;
}
/* block registry (for leak listing): a simple growing table of headers */
static struct hdr **reg;
static size_t nreg, capreg;
static void reg_add(struct hdr *h) {
    if (nreg == capreg) {
        size_t nc = capreg ? capreg * 2 : 4096;
        struct hdr **r = mmap(NULL, nc * sizeof *r, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (reg) { memcpy(r, reg, nreg * sizeof *r); munmap(reg, capreg * sizeof *r); }
        reg = r; capreg = nc;
    }
    reg[nreg++] = h;
}
static void check_rz(struct hdr *h, uintptr_t pc) {
    uintptr_t u = (uintptr_t)h + HSZ;
    size_t tail = h->base + h->total - (u + h->size);
    if (tail > 32) tail = 32;
    const uint8_t *p = (const uint8_t *)(u + h->size);
    for (size_t i = 0; i < tail; i++)
        if (p[i] != RZ) sim_violation("heap-overflow", "bytes past a %zu-byte block (allocated at pc=0x%lx) were overwritten (noticed at pc=0x%lx)", (size_t)h->size, (unsigned long)h->caller, (unsigned long)pc);
}
static void check_freed(struct hdr *h) {
    const uint8_t *p = (const uint8_t *)h + HSZ;
    size_t n = h->size < 128 ? h->size : 128;
    for (size_t i = 0; i < n; i++)
        if (p[i] != 0xDF) sim_violation("use-after-free", "freed %zu-byte block (allocated at pc=0x%lx) was written", (size_t)h->size, (unsigned long)h->caller);
}
static void hfree(void *p, uintptr_t pc) {
    struct hdr *h = (struct hdr *)((uintptr_t)p - HSZ);
    if ((uintptr_t)h < ARENA_BASE || ((uintptr_t)p & 15)) sim_violation("bad-free", "free of invalid pointer at pc=0x%lx", (unsigned long)pc);
    if (h->magic == MAGF) sim_violation("double-free", "double free at pc=0x%lx of a %zu-byte block (allocated at pc=0x%lx)", (unsigned long)pc, (size_t)h->size, (unsigned long)h->caller);
    if (h->magic != MAG) sim_violation("bad-free", "free of a pointer that is not the start of a block at pc=0x%lx", (unsigned long)pc);
    check_rz(h, pc);
    if (race_on && h->size <= 4096 && pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext) race_acc((uintptr_t)p, (unsigned)h->size, 1, 2, pc);
    h->magic = MAGF;
    heap_live -= h->size; heap_blocks--;
    memset(ash((uintptr_t)p), 0xfd, (h->size + 7) / 8);
    memset(p, 0xDF, h->size);
    h->next = NULL;
    if (qtail) qtail->next = h; else qhead = h;
    qtail = h;
    qbytes += h->total;
    if (qbytes > qcap) qevict();
}
static void *xmalloc(size_t n, size_t al, uintptr_t pc) {
    if (!in_sim()) return boot_alloc(n, al < 16 ? 16 : al);
    void *p = halloc(n, al, pc);
    if (p) reg_add((struct hdr *)((uintptr_t)p - HSZ));
    return p;
}
static void xfree(void *p, uintptr_t pc) {
    if (!p || is_boot(p)) return;
    if (is_arena(p)) {
        if (!in_sim()) return; /* outside the simulation: leak it */
        hfree(p, pc);
        return;
    }
    if (in_sim()) sim_violation("bad-free", "free of a non-heap pointer %p at pc=0x%lx", p, (unsigned long)pc);
}
void *sim_malloc_pc(size_t n, size_t al, uintptr_t pc) { return xmalloc(n, al, pc); }
void sim_free_pc(void *p, uintptr_t pc) { xfree(p, pc); }
void *malloc(size_t n) { return xmalloc(n, 16, PC()); }
void free(void *p) { xfree(p, PC()); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void *p = xmalloc(n, 16, PC());
    if (p) memset(p, 0, n);
    return p;
}
static size_t bsize(void *p) { return is_boot(p) ? ((struct bhdr *)p - 1)->size : ((struct hdr *)((uintptr_t)p - HSZ))->size; }
void *realloc(void *p, size_t n) {
    uintptr_t pc = PC();
    if (!p) return xmalloc(n, 16, pc);
    if (n == 0) { xfree(p, pc); return NULL; }
    if (in_sim() && is_arena(p)) {
        struct hdr *h = (struct hdr *)((uintptr_t)p - HSZ);
        if (h->magic == MAGF) sim_violation("use-after-free", "realloc of a freed block at pc=0x%lx", (unsigned long)pc);
        if (h->magic != MAG) sim_violation("bad-free", "realloc of a pointer that is not the start of a block at pc=0x%lx", (unsigned long)pc);
        R->fault[F_MOVED_BLOCK]++;
    }
    size_t o = bsize(p);
    void *q = xmalloc(n, 16, pc);
    if (!q) return NULL;
    memcpy(q, p, o < n ? o : n);
    xfree(p, pc);
    return q;
}
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = xmalloc(n, al, PC()); if (!p) return ENOMEM; *r = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return xmalloc(n, al, PC()); }
void *memalign(size_t al, size_t n) { return xmalloc(n, al, PC()); }
void *valloc(size_t n) { return xmalloc(n, 4096, PC()); }
size_t malloc_usable_size(void *p) { return p ? bsize(p) : 0; }
char *strdup(const char *s) {
    size_t n = strlen(s) + 1;
    if (in_sim()) sim_check_range(s, n, 0);
    char *p = xmalloc(n, 16, PC());
    return p ? memcpy(p, s, n) : NULL;
}
char *strndup(const char *s, size_t k) {
    size_t n = strnlen(s, k);
    char *p = xmalloc(n + 1, 16, PC());
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
size_t sim_heap_leaks(uint64_t mark, char *buf, size_t nbuf) {
    size_t k = 0, w = 0;
    if (nbuf) buf[0] = 0;
    for (size_t i = 0; i < nreg; i++) {
        struct hdr *h = reg[i];
        if (h->magic != MAG || h->seq <= mark) continue;
        if (h->caller < (uintptr_t)&__executable_start || h->caller >= (uintptr_t)&etext) continue;
        int dup = 0;
        for (size_t j = 0; j < i; j++) if (reg[j] == h) dup = 1; /* reused slot registered twice */
        if (dup) continue;
        k++;
        if (w + 64 < nbuf && k <= 6) w += (size_t)snprintf(buf + w, nbuf - w, " [%zu bytes at pc=0x%lx]", (size_t)h->size, (unsigned long)h->caller);
    }
    return k;
}
size_t sim_heap_block_size(const void *p) { return is_arena(p) ? bsize((void *)p) : 0; }
int sim_heap_addressable(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!is_arena(p)) return -1;
    while (n) {
        uint8_t s = *ash(a);
        unsigned off = (unsigned)(a & 7), m = 8 - off < n ? 8 - off : (unsigned)n;
        if (s > 8 || s < off + m) return 0;
        a += m; n -= m;
    }
    return 1;
}
static void __attribute__((noinline)) bad_access(uintptr_t a, size_t n, int w, uintptr_t pc) {
    uint8_t s = *ash(a & ~7ULL);
    for (size_t i = 0; i < n && s == 8; i += 8) s = *ash((a + i) & ~7ULL);
    /* find the block */
    struct hdr *best = NULL;
    for (size_t i = 0; i < nreg; i++) {
        struct hdr *h = reg[i];
        uintptr_t u = (uintptr_t)h + HSZ;
        if (a >= u - HSZ && a < u + h->size + 64 && (!best || h > best)) best = h;
    }
    if (s == 0xfd)
        sim_violation("use-after-free", "%s of %zu bytes in freed memory at pc=0x%lx (block of %zu bytes allocated at pc=0x%lx)", w ? "write" : "read", n, (unsigned long)pc, best ? (size_t)best->size : 0, best ? (unsigned long)best->caller : 0);
    sim_violation("heap-overflow", "%s of %zu bytes outside any live block at pc=0x%lx (nearest block %zu bytes allocated at pc=0x%lx)", w ? "write" : "read", n, (unsigned long)pc, best ? (size_t)best->size : 0, best ? (unsigned long)best->caller : 0);
}
static inline void check_heap(uintptr_t a, size_t n, int w, uintptr_t pc) {
    if (a - ARENA_BASE < ARENA_SIZE && heap_check) {
        uint8_t s = *ash(a);
        unsigned off = (unsigned)(a & 7);
        if (likely(n <= 8 - off)) { if (unlikely(s > 8 || s < off + n)) bad_access(a, n, w, pc); }
        else if (sim_heap_addressable((void *)a, n) == 0) bad_access(a, n, w, pc);
    } else if (unlikely(a < 4096)) sim_violation("null-deref", "%s near NULL (0x%lx) at pc=0x%lx", w ? "write" : "read", (unsigned long)a, (unsigned long)pc);
}
static inline __attribute__((always_inline)) void acc(uintptr_t a, size_t n, int w, uintptr_t pc) {
    if (unlikely(!sim_on) || unlikely(!self)) return;
    if (unlikely(self->nocheck)) return;
    steps++;
    if (unlikely(--preempt_cd <= 0)) preempt();
    if (unlikely((steps & 0xfff) == 0)) { self->runsteps += 0x1000; limit(); }
    check_heap(a, n, w, pc);
    if (race_on && nT > 1) race_acc(a, (unsigned)n, w, 0, pc);
}
void sim_check_range(const void *p, size_t n, int w) {
    if (n == 0 || !in_sim()) return;
    check_heap((uintptr_t)p, n, w, PC());
}

/* memory intrinsics called by instrumented objects (ld --wrap) */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
static inline void racc_range(const void *p, size_t n, int w, uintptr_t pc) {
    if (n == 0 || !in_sim() || self->nocheck) return;
    steps += 1 + n / 64;
    if (unlikely(--preempt_cd <= 0)) preempt();
    check_heap((uintptr_t)p, n, w, pc);
    if (race_on && nT > 1) race_acc((uintptr_t)p, (unsigned)n, w, 0, pc);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    racc_range(s, n, 0, PC());
    racc_range(d, n, 1, PC());
    if (n && in_sim() && d != s && (char *)d < (char *)s + n && (char *)s < (char *)d + n && !self->nocheck)
        sim_violation("memcpy-overlap", "memcpy of %zu bytes between overlapping blocks at pc=0x%lx", n, (unsigned long)PC());
    return __real_memmove(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) { racc_range(s, n, 0, PC()); racc_range(d, n, 1, PC()); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { racc_range(d, n, 1, PC()); return __real_memset(d, c, n); }
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    va_list c;
    va_copy(c, ap);
    char tmp[1];
    int r = vsnprintf(tmp, 0, f, c);
    va_end(c);
    if (n && r >= 0) racc_range(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, 1, PC());
    return vsnprintf(b, n, f, ap);
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}

/* ------------------------------------------------------------------ tsan ABI */
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define RW(sz) \
    void __tsan_read##sz(void *p) { acc((uintptr_t)p, sz, 0, PC()); } \
    void __tsan_write##sz(void *p) { acc((uintptr_t)p, sz, 1, PC()); } \
    void __tsan_unaligned_read##sz(void *p) { acc((uintptr_t)p, sz, 0, PC()); } \
    void __tsan_unaligned_write##sz(void *p) { acc((uintptr_t)p, sz, 1, PC()); } \
    void __tsan_volatile_read##sz(void *p) { acc((uintptr_t)p, sz, 0, PC()); } \
    void __tsan_volatile_write##sz(void *p) { acc((uintptr_t)p, sz, 1, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) acc((uintptr_t)p, n, 0, PC()); }
void __tsan_write_range(void *p, size_t n) { if (n) acc((uintptr_t)p, n, 1, PC()); }
void __tsan_vptr_read(void **p) { acc((uintptr_t)p, 8, 0, PC()); }
void __tsan_vptr_update(void **p, void *v) { (void)v; acc((uintptr_t)p, 8, 1, PC()); }

static inline void atomic_acc(uintptr_t a, unsigned n, int w, int mo, uintptr_t pc) {
    if (!sim_on || !self) return;
    check_heap(a, n, w, pc);
    sched_point();
    if (race_on && nT > 1) {
        race_acc(a, n, w, 1, pc);
        struct sobj *s = sobj((void *)a);
        if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acq(s);
        if (w && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) rel(s);
    }
}
#define AT(bits, ty, nb) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { atomic_acc((uintptr_t)a, nb, 0, mo, PC()); return *a; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); *a = v; } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = v; return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = (ty)(o + v); return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = (ty)(o - v); return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = (ty)(o & v); return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = (ty)(o | v); return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = (ty)(o ^ v); return o; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; *a = (ty)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int fmo) { \
        (void)fmo; atomic_acc((uintptr_t)a, nb, 1, mo, PC()); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fmo) { \
        (void)fmo; atomic_acc((uintptr_t)a, nb, 1, mo, PC()); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int fmo) { \
        (void)fmo; atomic_acc((uintptr_t)a, nb, 1, mo, PC()); ty o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t, 1) AT(16, uint16_t, 2) AT(32, uint32_t, 4) AT(64, uint64_t, 8)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ pthread */
struct keydef { int used; void (*dtor)(void *); };
static struct keydef keydefs[NKEYS];
#define KEYBASE 100000u
static void thread_end(void) {
    /* C++ thread_local destructors, then POSIX TSD destructors */
    struct sim_thread *me = self;
    while (me->ntd) { me->ntd--; me->td[me->ntd].fn(me->td[me->ntd].obj); }
    for (int it = 0; it < 4; it++) {
        int any = 0;
        for (int k = 0; k < NKEYS; k++)
            if (me->keys[k] && keydefs[k].used && keydefs[k].dtor) {
                void *v = me->keys[k];
                me->keys[k] = NULL;
                any = 1;
                keydefs[k].dtor(v);
            }
        if (!any) break;
    }
}
static void *tramp(void *a) {
    struct sim_thread *me = a;
    fwait(&me->futex);
    self = me;
    me->ret = me->fn(me->arg);
    thread_end();
    sched_point();
    me->vc[me->id]++;
    me->state = T_DONE;
    nLive--;
    for (int i = 0; i < nT; i++)
        if (T[i].state == T_BLOCK && T[i].wobj == me) unblock(&T[i]);
    struct sim_thread *n = pick(1);
    run_thread(n); /* does not wait: we are done */
    self = NULL;
    return NULL;
}
static struct sim_thread *new_thread(const char *name, void *(*fn)(void *), void *arg) {
    if (nT == MAXT) sim_violation("sim-limit", "too many threads");
    struct sim_thread *t = &T[nT];
    memset(t, 0, sizeof *t);
    t->id = nT++;
    nLive++;
    t->fn = fn;
    t->arg = arg;
    t->deadline = -1;
    snprintf(t->name, sizeof t->name, "%s", name);
    if (self) { memcpy(t->vc, self->vc, sizeof t->vc); self->vc[self->id]++; }
    t->vc[t->id] = 1;
    if (strat == 2) t->prio = (int)sim_choose(S_SCHED, 1000);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)(STACK_BASE + (uint64_t)t->id * STACK_SZ), STACK_SZ);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (self) self->in_real++;
    int r = real_pthread_create(&t->real, &at, tramp, t);
    if (self) self->in_real--;
    if (r) sim_violation("sim-limit", "pthread_create failed: %d", r);
    t->state = T_RUN;
    return t;
}
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!in_sim()) return real_pthread_create(th, a, fn, arg);
    if (sim_fault(F_CREATE_FAIL)) return EAGAIN;
    struct sim_thread *t = new_thread("pthread", fn, arg);
    if (a) { int d; if (!pthread_attr_getdetachstate(a, &d) && d == PTHREAD_CREATE_DETACHED) t->detached = 1; }
    *th = t->real;
    sched_point();
    return 0;
}
static void join_t(struct sim_thread *t) {
    sched_point();
    while (t->state != T_DONE) block("joining a thread", t, -1);
    vjoin(self->vc, t->vc);
}
int pthread_join(pthread_t th, void **ret) {
    for (int i = 0; i < nT; i++)
        if (T[i].real == th && !T[i].detached) {
            join_t(&T[i]);
            if (ret) *ret = T[i].ret;
            return 0;
        }
    return ESRCH;
}
int pthread_detach(pthread_t th) { for (int i = 0; i < nT; i++) if (T[i].real == th) { T[i].detached = 1; return 0; } return ESRCH; }
sim_tid sim_spawn(const char *name, void *(*fn)(void *), void *arg) {
    struct sim_thread *t = new_thread(name, fn, arg);
    sched_point();
    return t;
}
void sim_join(sim_tid t) { join_t(t); }

static struct sobj *mtx(pthread_mutex_t *m) {
    struct sobj *s = sobj(m);
    s->kind = m->__data.__kind & 3;
    return s;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    int k = PTHREAD_MUTEX_NORMAL;
    if (a) pthread_mutexattr_gettype(a, &k);
    memset(m, 0, sizeof *m);
    m->__data.__kind = k;
    if (in_sim()) sobj_reset(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (in_sim()) {
        struct sobj *s = mtx(m);
        if (s->owner >= 0) sim_violation("mutex-misuse", "mutex destroyed while locked by t%d at pc=0x%lx", s->owner, (unsigned long)PC());
        sobj_reset(m);
    }
    return 0;
}
static int mtx_lock_(pthread_mutex_t *m, int64_t deadline, int try_, uintptr_t pc) {
    if (!in_sim()) return 0;
    check_heap((uintptr_t)m, sizeof *m, 1, pc);
    sched_point();
    struct sobj *s = mtx(m);
    if (s->owner == self->id) {
        if (s->kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
        if (s->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try_) return EBUSY;
    }
    while (s->owner >= 0) {
        if (try_) return EBUSY;
        block("waiting for a mutex", s, deadline);
        if (self->timedout) return ETIMEDOUT;
    }
    s->owner = self->id;
    s->count = 1;
    acq(s);
    return 0;
}
static int mtx_unlock_(pthread_mutex_t *m, uintptr_t pc) {
    if (!in_sim()) return 0;
    check_heap((uintptr_t)m, sizeof *m, 1, pc);
    struct sobj *s = mtx(m);
    if (s->owner != self->id) {
        if (s->kind != PTHREAD_MUTEX_NORMAL) return EPERM;
        sim_violation("mutex-misuse", "unlock of a mutex the thread does not hold at pc=0x%lx", (unsigned long)pc);
    }
    if (--s->count > 0) return 0;
    rel(s);
    s->owner = -1;
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == s) unblock(&T[i]);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mtx_lock_(m, -1, 0, PC()); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mtx_lock_(m, -1, 1, PC()); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = mtx_unlock_(m, PC());
    if (in_sim()) sched_point();
    return r;
}
static int64_t ts2ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }
#define EPOCH_NS 1700000000000000000LL
static int64_t abs_deadline(clockid_t c, const struct timespec *t) {
    int64_t d = ts2ns(t);
    if (c == CLOCK_REALTIME) d -= EPOCH_NS + clock_skew;
    else d -= 1000000000000LL;
    return d < 0 ? 0 : d;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return mtx_lock_(m, abs_deadline(CLOCK_REALTIME, t), 0, PC()); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return mtx_lock_(m, abs_deadline(c, t), 0, PC()); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); if (in_sim()) sobj_reset(c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline, uintptr_t pc) {
    if (!in_sim()) return 0;
    check_heap((uintptr_t)c, sizeof *c, 1, pc);
    struct sobj *cs = sobj(c);
    struct sobj *ms = mtx(m);
    if (ms->owner != self->id) sim_violation("mutex-misuse", "condition wait without holding the mutex at pc=0x%lx", (unsigned long)pc);
    int save = ms->count;
    int r = 0;
    if (sim_fault(F_SPURIOUS_WAKE)) {
        rel(ms); ms->owner = -1; ms->count = 0;
        for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == ms) unblock(&T[i]);
        sched_point();
    } else {
        rel(ms); ms->owner = -1; ms->count = 0;
        for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == ms) unblock(&T[i]);
        block("waiting on a condition variable", cs, deadline);
        if (self->timedout) r = ETIMEDOUT;
        acq(cs);
    }
    while (ms->owner >= 0) block("re-acquiring a mutex after a condition wait", ms, -1);
    ms->owner = self->id;
    ms->count = save;
    acq(ms);
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1, PC()); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, abs_deadline(CLOCK_REALTIME, t), PC()); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return cwait(c, m, abs_deadline(k, t), PC()); }
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!in_sim()) return 0;
    check_heap((uintptr_t)c, sizeof *c, 1, PC());
    sched_point();
    struct sobj *s = sobj(c);
    rel(s);
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == s) unblock(&T[i]);
    sched_point();
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!in_sim()) return 0;
    check_heap((uintptr_t)c, sizeof *c, 1, PC());
    sched_point();
    struct sobj *s = sobj(c);
    rel(s);
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == s) w[n++] = i;
    if (n) unblock(&T[w[sim_choose(S_SCHED, (uint32_t)n)]]);
    sched_point();
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void)a; memset(l, 0, sizeof *l); if (in_sim()) sobj_reset(l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { (void)l; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!in_sim()) return 0;
    sched_point();
    struct sobj *s = sobj(l);
    while (s->owner >= 0) block("waiting for a read lock", s, -1);
    s->readers++; acq(s);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!in_sim()) return 0;
    sched_point();
    struct sobj *s = sobj(l);
    while (s->owner >= 0 || s->readers) block("waiting for a write lock", s, -1);
    s->owner = self->id; acq(s);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!in_sim()) return 0;
    struct sobj *s = sobj(l);
    rel(s);
    if (s->owner == self->id) s->owner = -1; else if (s->readers) s->readers--;
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == s) unblock(&T[i]);
    sched_point();
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!in_sim()) { if (*o == 0) { *o = 1; fn(); *o = 2; } return 0; }
    sched_point();
    struct sobj *s = sobj(o);
    if (*o == 2) { acq(s); return 0; }
    while (*o == 1) block("waiting for one-time initialisation", s, -1);
    if (*o == 2) { acq(s); return 0; }
    *o = 1;
    fn();
    *o = 2;
    rel(s);
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == s) unblock(&T[i]);
    return 0;
}
/* C++ function-local statics */
int __cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *)g;
    if (!in_sim()) { if (b[0]) return 0; b[1] = 1; return 1; }
    struct sobj *s = sobj(g);
    sched_point();
    for (;;) {
        if (b[0]) { acq(s); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        block("waiting for a static initialiser", s, -1);
    }
}
void __cxa_guard_release(uint64_t *g) {
    uint8_t *b = (uint8_t *)g;
    b[0] = 1; b[1] = 0;
    if (!in_sim()) return;
    struct sobj *s = sobj(g);
    rel(s);
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].wobj == s) unblock(&T[i]);
}
void __cxa_guard_abort(uint64_t *g) { uint8_t *b = (uint8_t *)g; b[1] = 0; }
int __cxa_thread_atexit_impl(void (*fn)(void *), void *obj, void *dso) {
    (void)dso;
    if (!in_sim() || self->ntd >= 32) return 0;
    self->td[self->ntd].fn = fn;
    self->td[self->ntd++].obj = obj;
    return 0;
}
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
    if (!in_sim()) { if (!real_key_create) *(void **)&real_key_create = dlsym(RTLD_NEXT, "pthread_key_create"); return real_key_create(k, d); }
    for (unsigned i = 0; i < NKEYS; i++)
        if (!keydefs[i].used) { keydefs[i].used = 1; keydefs[i].dtor = d; *k = KEYBASE + i; return 0; }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) { if (k >= KEYBASE) keydefs[k - KEYBASE].used = 0; return 0; }
void *pthread_getspecific(pthread_key_t k) {
    if (k >= KEYBASE) return self && k - KEYBASE < NKEYS ? self->keys[k - KEYBASE] : NULL;
    if (!real_getspecific) *(void **)&real_getspecific = dlsym(RTLD_NEXT, "pthread_getspecific");
    return real_getspecific(k);
}
int pthread_setspecific(pthread_key_t k, const void *v) {
    if (k >= KEYBASE) { if (!self || k - KEYBASE >= NKEYS || !keydefs[k - KEYBASE].used) return EINVAL; self->keys[k - KEYBASE] = (void *)v; return 0; }
    if (!real_setspecific) *(void **)&real_setspecific = dlsym(RTLD_NEXT, "pthread_setspecific");
    return real_setspecific(k, v);
}
int sched_yield(void) { if (in_sim()) sched_point(); return 0; }

/* ------------------------------------------------------------------ clocks */
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!in_sim()) { if (!real_clock_gettime) *(void **)&real_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime"); return real_clock_gettime(c, t); }
    steps++;
    vtime += 200;
    if (faultcfg[F_CLOCK_JUMP].num && sim_fault(F_CLOCK_JUMP)) clock_skew += ((int64_t)sim_choose(S_FAULT, 2001) - 1000) * 10000000LL;
    int64_t n = sim_now_ns();
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += EPOCH_NS + clock_skew;
    else n += 1000000000000LL;
    t->tv_sec = n / 1000000000LL;
    t->tv_nsec = n % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int nanosleep(const struct timespec *q, struct timespec *rem) {
    if (!in_sim()) { if (!real_nanosleep) *(void **)&real_nanosleep = dlsym(RTLD_NEXT, "nanosleep"); return real_nanosleep(q, rem); }
    if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000L || q->tv_sec < 0) { errno = EINVAL; return -1; }
    int64_t n = ts2ns(q);
    if (n > 0 && sim_fault(F_SLEEP_EINTR)) {
        int64_t part = n / 1000 * (int64_t)sim_choose(S_FAULT, 1000);
        sim_sleep_ns(part);
        if (rem) { int64_t left = n - part; rem->tv_sec = left / 1000000000LL; rem->tv_nsec = left % 1000000000LL; }
        errno = EINTR;
        return -1;
    }
    /* oversleep a little: never less than asked */
    sim_sleep_ns(n + (int64_t)sim_choose(S_FAULT, 4) * 50000);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem) {
    if (fl & TIMER_ABSTIME) {
        int64_t d = abs_deadline(c, q) - sim_now_ns();
        if (d > 0) sim_sleep_ns(d);
        return 0;
    }
    return nanosleep(q, rem) ? errno : 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }

/* ------------------------------------------------------------------ simulated files */
struct simfile { char path[96]; uint8_t *data; size_t n, cap; int used, exists; size_t delivered; int errored, eofed; };
#define NFILE 32
static struct simfile files[NFILE];
#define FDBASE 1000000
struct simfd { int used; struct simfile *f; size_t pos; int write, err; FILE *fp; };
#define NFD 32
static struct simfd fds[NFD];
static size_t fs_chunk = SIZE_MAX;
void simfs_set_chunk(size_t m) { fs_chunk = m; }
static void *xmap(size_t n) { return mmap(NULL, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static struct simfile *ffind(const char *p, int create) {
    for (int i = 0; i < NFILE; i++) if (files[i].used && !strcmp(files[i].path, p)) return &files[i];
    if (create) for (int i = 0; i < NFILE; i++) if (!files[i].used) { files[i].used = 1; snprintf(files[i].path, sizeof files[i].path, "%s", p); return &files[i]; }
    return NULL;
}
void simfs_put(const char *p, const void *d, size_t n) {
    struct simfile *f = ffind(p, 1);
    f->exists = 1;
    f->delivered = 0; f->errored = f->eofed = 0;
    f->cap = n + 65536;
    f->data = xmap(f->cap);
    memcpy(f->data, d, n);
    f->n = n;
}
const void *simfs_get(const char *p, size_t *n) { struct simfile *f = ffind(p, 0); if (!f || !f->exists) return NULL; *n = f->n; return f->data; }
size_t simfs_delivered(const char *p, int *err) { struct simfile *f = ffind(p, 0); if (err) *err = f ? f->errored : 0; return f ? f->delivered : 0; }
int simfs_exists(const char *p) { struct simfile *f = ffind(p, 0); return f && f->exists; }
void simfs_remove(const char *p) { struct simfile *f = ffind(p, 0); if (f) f->exists = 0; }
int simfs_open_count(void) { int n = 0; for (int i = 0; i < NFD; i++) n += fds[i].used; return n; }
static ssize_t fd_read(struct simfd *d, char *b, size_t n) {
    sched_point();
    if (d->err) { errno = EIO; return -1; }
    if (sim_fault(F_READ_EINTR)) { errno = EINTR; return -1; }
    if (sim_fault(F_READ_EIO)) { d->err = sim_chance(S_FAULT, 1, 2); d->f->errored = 1; errno = EIO; return -1; }
    if (sim_fault(F_READ_EOF)) { d->pos = d->f->n; d->f->eofed = 1; return 0; }
    size_t left = d->f->n - d->pos;
    size_t k = n < left ? n : left;
    if (k > fs_chunk) k = fs_chunk;
    if (k > 1 && sim_fault(F_READ_SHORT)) k = 1 + sim_choose(S_FAULT, (uint32_t)(k > 64 ? 64 : k));
    if (k > left) k = left;
    memcpy(b, d->f->data + d->pos, k);
    d->pos += k;
    if (!d->f->errored) d->f->delivered += k;
    return (ssize_t)k;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
    ssize_t r;
    /* stdio does not restart EINTR: glibc reports it as a stream error, so the
       simulated device only raises it for raw read() callers */
    r = fd_read(c, b, n);
    return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    struct simfd *d = c;
    sched_point();
    if (d->err || sim_fault(F_WRITE_ERR)) { d->err = 1; errno = ENOSPC; return 0; }
    struct simfile *f = d->f;
    if (f->n + n > f->cap) {
        size_t nc = (f->n + n) * 2 + 65536;
        uint8_t *q = xmap(nc);
        if (f->data) memcpy(q, f->data, f->n);
        f->data = q; f->cap = nc;
    }
    memcpy(f->data + f->n, b, n);
    f->n += n;
    return (ssize_t)n;
}
static int ck_close(void *c) { struct simfd *d = c; d->used = 0; return 0; }
static int fd_open(const char *path, int wr) {
    struct simfile *f = ffind(path, wr);
    if (sim_fault(F_OPEN_FAIL)) { errno = EACCES; return -1; }
    if (!f || (!wr && !f->exists)) { errno = ENOENT; return -1; }
    if (wr) { f->exists = 1; f->n = 0; }
    for (int i = 0; i < NFD; i++)
        if (!fds[i].used) {
            memset(&fds[i], 0, sizeof fds[i]);
            fds[i].used = 1; fds[i].f = f; fds[i].write = wr;
            return i;
        }
    errno = EMFILE;
    return -1;
}
FILE *fopen(const char *p, const char *m) {
    if (!in_sim() || strncmp(p, "/simfs/", 7)) {
        if (!real_fopen) *(void **)&real_fopen = dlsym(RTLD_NEXT, "fopen");
        return real_fopen(p, m);
    }
    int i = fd_open(p, m[0] != 'r');
    if (i < 0) return NULL;
    cookie_io_functions_t io = {ck_read, ck_write, NULL, ck_close};
    FILE *fp = fopencookie(&fds[i], m, io);
    fds[i].fp = fp;
    return fp;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fileno(FILE *fp) {
    for (int i = 0; i < NFD; i++) if (fds[i].used && fds[i].fp == fp) return FDBASE + i;
    if (!real_fileno) *(void **)&real_fileno = dlsym(RTLD_NEXT, "fileno");
    return real_fileno(fp);
}
int isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
int simfs_fd(const char *path) { int i = fd_open(path, 0); return i < 0 ? -1 : FDBASE + i; }
void simfs_fd_close(int fd) { if (fd >= FDBASE) fds[fd - FDBASE].used = 0; }
ssize_t read(int fd, void *b, size_t n) {
    if (fd >= FDBASE && in_sim()) { racc_range(b, n, 1, PC()); return fd_read(&fds[fd - FDBASE], b, n); }
    if (!real_read) *(void **)&real_read = dlsym(RTLD_NEXT, "read");
    return real_read(fd, b, n);
}
FILE *popen(const char *cmd, const char *m) { (void)cmd; (void)m; errno = ENOSYS; return NULL; }

/* ------------------------------------------------------------------ process ends */
static void crash(int sig, siginfo_t *si, void *uc) {
    ucontext_t *u = uc;
    uintptr_t pc = (uintptr_t)u->uc_mcontext.gregs[REG_RIP];
    /* nearest caller in our own text, from the stack */
    uintptr_t *sp = (uintptr_t *)u->uc_mcontext.gregs[REG_RSP], own = pc;
    if (!(pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext))
        for (int i = 0; i < 400 && (uintptr_t)(sp + i) < STACK_BASE + STACK_SZ * MAXT && (uintptr_t)sp >= STACK_BASE; i++)
            if (sp[i] >= (uintptr_t)&__executable_start && sp[i] < (uintptr_t)&etext) { own = sp[i]; break; }
    if (sig == SIGALRM) sim_violation("hang", "wall-clock limit in t%d at pc=0x%lx", self ? self->id : -1, (unsigned long)own);
    sim_violation("crash", "signal %d (%s) near pc=0x%lx", sig, strsignal(sig), (unsigned long)own);
    (void)si;
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (in_sim()) {
        const char *b = strrchr(f, '/');
        (void)l;
        sim_violation("assertion", "assertion `%s' failed in %s (%s)", e, fn, b ? b + 1 : f);
    }
    fprintf(stderr, "assert %s %s:%u\n", e, f, l);
    _exit(78);
}
void abort(void) {
    if (in_sim()) sim_violation("abort", "abort() called near pc=0x%lx", (unsigned long)PC());
    _exit(78);
}
const struct sim_loader *sim_dl;
void *sim_dlopen(const char *f, int m) { return sim_dl ? sim_dl->open(f, m) : dlopen(f, m); }
void *sim_dlsym(void *h, const char *s) { return sim_dl ? sim_dl->sym(h, s) : dlsym(h, s); }
int sim_dlclose(void *h) { return sim_dl ? sim_dl->close(h) : dlclose(h); }
char *sim_dlerror(void) { return sim_dl ? sim_dl->error() : dlerror(); }
void __wrap_exit(int c) {
    if (in_sim()) sim_violation("exit", "library ended the process with exit(%d) at pc=0x%lx", c, (unsigned long)PC());
    _exit(c);
}
#define FATAL(...) do { fprintf(stderr, __VA_ARGS__); _exit(79); } while (0)

/* ------------------------------------------------------------------ runs */
static const struct sim_scenario *the_scen;
static void end_checks(void) {
    for (int i = 0; i < nT; i++)
        if (T[i].id && T[i].state != T_DONE && !T[i].daemon && T[i].state != T_FREE)
            sim_violation("thread-left", "t%d(%s) still %s at the end of the run", i, T[i].name, T[i].why ? T[i].why : "running");
    for (size_t i = 0; i < nreg; i++) {
        if (reg[i]->magic == MAG) check_rz(reg[i], 0);
    }
    for (struct hdr *h = qhead; h; h = h->next) check_freed(h);
}
static void *main_thread(void *a) {
    (void)a;
    the_scen->run();
    race_on = 0;
    sim_log("end");
    /* let threads that merely need CPU finish */
    for (int k = 0; k < 10000; k++) {
        int busy = 0;
        for (int i = 1; i < nT; i++) if (T[i].state == T_RUN) busy = 1;
        if (!busy) break;
        struct sim_thread *n = NULL;
        for (int i = 1; i < nT; i++) if (T[i].state == T_RUN) { n = &T[i]; break; }
        run_thread(n);
    }
    end_checks();
    finish_result(1);
    _exit(0);
}
static void child(void) {
    static char alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    (void)ss;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
    alarm(60);
    if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
    srand(1);
    struct sim_thread *t;
    sim_on = 1;
    t = new_thread("main", main_thread, NULL);
    cur = 0;
    fwake(&t->futex);
    for (;;) pause();
}

static void map_at(uint64_t base, uint64_t n) {
    void *p = mmap((void *)base, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)base) FATAL("simrt: cannot map 0x%lx\n", (unsigned long)base);
}
static __attribute__((constructor(101))) void sim_boot(void) {
    if (!boot) boot_init();
    *(void **)&real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    *(void **)&real_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    *(void **)&real_getspecific = dlsym(RTLD_NEXT, "pthread_getspecific");
    *(void **)&real_setspecific = dlsym(RTLD_NEXT, "pthread_setspecific");
    *(void **)&real_key_create = dlsym(RTLD_NEXT, "pthread_key_create");
    *(void **)&real_read = dlsym(RTLD_NEXT, "read");
    *(void **)&real_fopen = dlsym(RTLD_NEXT, "fopen");
    *(void **)&real_fileno = dlsym(RTLD_NEXT, "fileno");
    *(void **)&real_nanosleep = dlsym(RTLD_NEXT, "nanosleep");
    map_at(ARENA_BASE, ARENA_SIZE);
    map_at(STACK_BASE, STACK_SZ * MAXT);
    map_at(ASH_BASE, ARENA_SIZE / 8);
    data_lo = (uintptr_t)&__data_start & ~7ULL;
    data_hi = ((uintptr_t)&end + 7) & ~7ULL;
    uint64_t tot = ARENA_SIZE + STACK_SZ * MAXT + (data_hi - data_lo);
    map_at(RSH_BASE, tot * 4);
    map_at(RPC_BASE, tot * 2);
    SO = xmap(sizeof(struct sobj) * NSO);
}

static uint64_t str_hash(const char *s) { return fnv(1469598103934665603ULL, s, strlen(s)); }
static uint64_t run_seed(uint64_t seed, const char *prop, uint64_t i) {
    uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ str_hash(prop);
    smix(&s);
    s ^= i * 0xd1342543de82ef95ULL;
    return smix(&s);
}
static const struct sim_scenario *scen_for(const char *prop, const char *name, uint64_t i) {
    int tot = 0;
    for (int k = 0; k < sim_n_scenarios; k++)
        if (!strcmp(sim_scenarios[k].property, prop) && (!name || !strcmp(sim_scenarios[k].name, name))) tot += sim_scenarios[k].weight;
    if (!tot) return NULL;
    int w = (int)(i % (uint64_t)tot);
    for (int k = 0; k < sim_n_scenarios; k++)
        if (!strcmp(sim_scenarios[k].property, prop) && (!name || !strcmp(sim_scenarios[k].name, name))) {
            if (w < sim_scenarios[k].weight) return &sim_scenarios[k];
            w -= sim_scenarios[k].weight;
        }
    return NULL;
}
/* one run; returns status */
static int one(const struct sim_scenario *sc, uint64_t seed) {
    size_t logical = offsetof(struct result, log);
    memset(R, 0, logical);
    for (int s = 0; s < S_NSTREAM; s++) { uint64_t z = seed + (uint64_t)s * 0x632be59bd9b4e019ULL; rng[s] = smix(&z); }
    the_scen = sc;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) FATAL("fork failed\n");
    if (p == 0) child();
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == 0) {
        R->status = 2;
        if (WIFSIGNALED(st)) { snprintf(R->cls, sizeof R->cls, "crash"); snprintf(R->msg, sizeof R->msg, "killed by signal %d", WTERMSIG(st)); }
        else { snprintf(R->cls, sizeof R->cls, "crash"); snprintf(R->msg, sizeof R->msg, "process ended with status %d", WEXITSTATUS(st)); }
    }
    return R->status;
}
static void jstr(FILE *f, const char *s, size_t n) {
    fputc('"', f);
    for (size_t i = 0; i < n && s[i]; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fprintf(f, "\\n");
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void dump(FILE *f, const char *prop, const char *scen, uint64_t seed, uint64_t idx) {
    fprintf(f, "{\"property\":\"%s\",\"scenario\":\"%s\",\"run_seed\":\"%llu\",\"run\":%llu,\"status\":%d,\"class\":", prop, scen, (unsigned long long)seed, (unsigned long long)idx, R->status);
    jstr(f, R->cls, sizeof R->cls);
    fprintf(f, ",\"message\":");
    jstr(f, R->msg, sizeof R->msg);
    fprintf(f, ",\"hash\":\"%016llx\",\"interleaving\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"threads\":%u,\"overflow\":%u", (unsigned long long)R->hash, (unsigned long long)R->ilv, (unsigned long long)R->steps, (unsigned long long)R->switches, R->threads, R->overflow);
    static const char *sn[] = {"cfg", "op", "sched", "fault"};
    for (int s = 0; s < S_NSTREAM; s++) {
        uint32_t n = R->nch[s] < MAXCH ? R->nch[s] : MAXCH;
        while (n && R->ch[s][n - 1] == 0) n--;
        fprintf(f, ",\"%s\":[", sn[s]);
        for (uint32_t i = 0; i < n; i++) fprintf(f, "%s%u", i ? "," : "", R->ch[s][i]);
        fprintf(f, "]");
    }
    fprintf(f, ",\"trace\":");
    jstr(f, R->log, R->nlog);
    fprintf(f, "}\n");
}
static int parse_list(const char *js, const char *key, uint32_t **out, uint32_t *n) {
    char k[32];
    snprintf(k, sizeof k, "\"%s\":[", key);
    const char *p = strstr(js, k);
    *n = 0;
    *out = NULL;
    if (!p) return -1;
    p += strlen(k);
    uint32_t cap = 16;
    for (const char *q = p; *q && *q != ']'; q++) cap += *q == ',';
    *out = xmap(cap * sizeof(uint32_t));
    while (*p && *p != ']') {
        (*out)[(*n)++] = (uint32_t)strtoul(p, (char **)&p, 10);
        while (*p == ',' || *p == ' ') p++;
    }
    return 0;
}
static char *slurp(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) FATAL("cannot open %s\n", path);
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    rewind(f);
    char *b = xmap((size_t)n + 1);
    if (fread(b, 1, (size_t)n, f) != (size_t)n) FATAL("short read\n");
    fclose(f);
    return b;
}
static int cmpu64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }

#include <sys/personality.h>
int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    static char outbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);   /* a run must not see whether stdio has its buffer yet */
    const char *prop = NULL, *replay = NULL, *outdir = ".", *only = NULL, *dumpf = NULL;
    uint64_t seed = 1, from = 0, to = 1, stride = 1;
    double maxs = 1e9;
    int hashes = 0, maxviol = 3, serve = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop = argv[++i];
        else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--to")) to = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--stride")) stride = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--max-seconds")) maxs = atof(argv[++i]);
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--out")) outdir = argv[++i];
        else if (!strcmp(argv[i], "--dump")) dumpf = argv[++i];
        else if (!strcmp(argv[i], "--hashes")) hashes = 1;
        else if (!strcmp(argv[i], "--serve")) serve = 1;
        else if (!strcmp(argv[i], "--max-viol")) maxviol = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-v")) verbose = 1;
        else if (!strcmp(argv[i], "--list")) {
            for (int k = 0; k < sim_n_scenarios; k++) printf("%s %s %d\n", sim_scenarios[k].property, sim_scenarios[k].name, sim_scenarios[k].weight);
            return 0;
        } else FATAL("unknown argument %s\n", argv[i]);
    }
    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (R == MAP_FAILED) FATAL("mmap result\n");
    static const char *sn[] = {"cfg", "op", "sched", "fault"};
    if (serve) {
        /* read replay-file paths on stdin, answer one line each (used by the minimiser) */
        char line[4096];
        replaying = 1;
        while (fgets(line, sizeof line, stdin)) {
            line[strcspn(line, "\n")] = 0;
            char *js = slurp(line);
            char pr[32] = "", sc[64] = "";
            char *q = strstr(js, "\"property\":\""); if (q) sscanf(q + 12, "%31[^\"]", pr);
            q = strstr(js, "\"scenario\":\""); if (q) sscanf(q + 12, "%63[^\"]", sc);
            for (int s = 0; s < S_NSTREAM; s++) parse_list(js, sn[s], &rp[s], &rpn[s]);
            const struct sim_scenario *S = scen_for(pr, sc, 0);
            if (!S) FATAL("no scenario %s/%s\n", pr, sc);
            one(S, 0);
            dump(stdout, pr, sc, 0, 0);
            fflush(stdout);
        }
        return 0;
    }
    if (replay) {
        char *js = slurp(replay);
        char pr[32] = "", sc[64] = "";
        char *q = strstr(js, "\"property\":\""); if (q) sscanf(q + 12, "%31[^\"]", pr);
        q = strstr(js, "\"scenario\":\""); if (q) sscanf(q + 12, "%63[^\"]", sc);
        for (int s = 0; s < S_NSTREAM; s++) parse_list(js, sn[s], &rp[s], &rpn[s]);
        replaying = 1;
        const struct sim_scenario *S = scen_for(pr, sc, 0);
        if (!S) FATAL("no scenario %s/%s\n", pr, sc);
        int st = one(S, 0);
        dump(stdout, pr, sc, 0, 0);
        return st == 2 ? 1 : 0;
    }
    if (!prop) FATAL("usage: --prop P --seed S --from A --to B\n");
    struct timespec t0, t1;
    real_clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t runs = 0, nviol = 0, tsteps = 0, tsw = 0, tall = 0, maxthreads = 0;
    int64_t tsim = 0;
    uint64_t fc[F_N] = {0}, fruns[F_N] = {0}, faultfree = 0;
    static char pn[NPROBE][40];
    static uint64_t pcnt[NPROBE], prun[NPROBE];
    unsigned npn = 0;
    size_t cap = (to - from) / stride + 2;
    uint64_t *H = xmap(cap * 8), *I = xmap(cap * 8);
    size_t scap = 1 << 20, nS = 0;
    uint64_t *SS = xmap(scap * 8);
    uint64_t scr[256] = {0};
    uint64_t mt = 0;
    for (uint64_t i = from; i < to; i += stride) {
        real_clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9 > maxs) break;
        const struct sim_scenario *S = scen_for(prop, only, i);
        if (!S) FATAL("no scenario for %s\n", prop);
        uint64_t rs = run_seed(seed, prop, i);
        int st = one(S, rs);
        H[runs] = R->hash; I[runs] = R->ilv;
        runs++;
        scr[S - sim_scenarios]++;
        tsteps += R->steps; tsw += R->switches; tsim += R->simtime; tall += R->allocs;
        if (R->threads > maxthreads) maxthreads = R->threads;
        if (R->switches) mt++;
        int anyf = 0;
        for (int f = 0; f < F_N; f++) if (R->fault[f]) { fc[f] += R->fault[f]; fruns[f]++; if (f != F_MOVED_BLOCK) anyf = 1; }
        if (!anyf) faultfree++;
        for (uint32_t k = 0; k < R->nstates && nS < scap; k++) SS[nS++] = R->states[k];
        if (nS > scap - 2048) { qsort(SS, nS, 8, cmpu64); size_t w = 0; for (size_t k = 0; k < nS; k++) if (!w || SS[w - 1] != SS[k]) SS[w++] = SS[k]; nS = w; if (nS > scap - 2048) nS = scap / 2; }
        for (uint32_t k = 0; k < R->nprobe; k++) {
            unsigned j = 0;
            for (; j < npn; j++) if (!strcmp(pn[j], R->probe[k])) break;
            if (j == npn && npn < NPROBE) { memcpy(pn[npn], R->probe[k], 40); npn++; }
            if (j < NPROBE) { pcnt[j] += R->probec[k]; prun[j]++; }
        }
        if (dumpf) { FILE *df = fopen(dumpf, "w"); if (df) { dump(df, prop, S->name, rs, i); fclose(df); } }
        if (hashes) printf("H %llu %d %016llx %016llx\n", (unsigned long long)i, st, (unsigned long long)R->hash, (unsigned long long)R->ilv);
        if (st == 2) {
            char path[512];
            snprintf(path, sizeof path, "%s/viol-%s-%llu.json", outdir, prop, (unsigned long long)i);
            FILE *f = fopen(path, "w");
            if (f) { dump(f, prop, S->name, rs, i); fclose(f); }
            printf("V %llu %s %s %s\n", (unsigned long long)i, S->name, R->cls, path);
            fflush(stdout);
            nviol++;
            /* same seed again: the run must repeat exactly */
            uint64_t h1 = R->hash;
            one(S, rs);
            printf("D %llu %d\n", (unsigned long long)i, R->hash == h1);
            if ((int)nviol >= maxviol) break;
        }
    }
    real_clock_gettime(CLOCK_MONOTONIC, &t1);
    qsort(H, runs, 8, cmpu64);
    qsort(I, runs, 8, cmpu64);
    char path[512];
    snprintf(path, sizeof path, "%s/hist-%s-%llu.bin", outdir, prop, (unsigned long long)from);
    FILE *f = fopen(path, "w");
    if (f) {
        qsort(SS, nS, 8, cmpu64);
        uint64_t n3[3] = {runs, runs, nS};
        fwrite(n3, 8, 3, f); fwrite(H, 8, runs, f); fwrite(I, 8, runs, f); fwrite(SS, 8, nS, f);
        fclose(f);
    }
    printf("S {\"runs\":%llu,\"violations\":%llu,\"steps\":%llu,\"switches\":%llu,\"allocs\":%llu,\"sim_ns\":%lld,\"max_threads\":%llu,\"mt_runs\":%llu,\"fault_free_runs\":%llu,\"wall\":%.3f,\"faults\":{", (unsigned long long)runs, (unsigned long long)nviol, (unsigned long long)tsteps, (unsigned long long)tsw, (unsigned long long)tall, (long long)tsim, (unsigned long long)maxthreads, (unsigned long long)mt, (unsigned long long)faultfree, (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9);
    int first = 1;
    for (int k = 0; k < F_N; k++) if (fc[k]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", sim_fault_names[k], (unsigned long long)fc[k], (unsigned long long)fruns[k]); first = 0; }
    printf("},\"probes\":{");
    for (unsigned k = 0; k < npn; k++) printf("%s\"%s\":[%llu,%llu]", k ? "," : "", pn[k], (unsigned long long)pcnt[k], (unsigned long long)prun[k]);
    printf("},\"scenarios\":{");
    first = 1;
    for (int k = 0; k < sim_n_scenarios && k < 256; k++) if (scr[k]) { printf("%s\"%s\":%llu", first ? "" : ",", sim_scenarios[k].name, (unsigned long long)scr[k]); first = 0; }
    printf("},\"hist\":\"%s\"}\n", path);
    return nviol ? 1 : 0;
}
