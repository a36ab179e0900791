/* Put before the instrumented libraries: simulated clocks, fixed random seeds, and an account of every block amino's own code allocates. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <sys/time.h>
#include <ompl/util/RandomNumbers.h>
#include <ompl/util/Console.h>
#include <ompl/base/SpaceInformation.h>
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/tools/config/SelfConfig.h>
#include <nlopt.h>

static int64_t now_ns = 1000000000000LL, step_ns = 20000;
static uint64_t clock_calls;
extern "C" int clock_gettime(clockid_t, struct timespec *t) { clock_calls++; now_ns += step_ns; t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) { struct timespec s; clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t *p) { struct timespec s; clock_gettime(0, &s); if (p) *p = s.tv_sec; return s.tv_sec; }

/* ---- blocks allocated by amino's code and not freed yet */
struct blk { void *p; size_t n; void *ra; unsigned gen; };
static unsigned gen_now;
static int64_t live_gen;
enum { CAP = 1 << 18 };
static struct blk tab[CAP];
static uint64_t live, total;
static size_t slot(void *p) { uint64_t h = (uint64_t)p >> 4; h *= 0x9E3779B97F4A7C15ull; return (size_t)(h >> 46) & (CAP - 1); }
static void add(void *p, size_t n, void *ra) {
    if (!p) return;
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
    if (!tab[i].p) { live++; live_gen++; }
    else if (tab[i].gen != gen_now) live_gen++;
    tab[i].p = p; tab[i].n = n; tab[i].ra = ra; tab[i].gen = gen_now; total++;
}
static void del(const volatile void *vp) {
    void *p = (void *)vp;
    if (!p || !live) return;
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
    if (!tab[i].p) return;
    live--;
    if (tab[i].gen == gen_now) live_gen--;
    size_t j = i;
    for (;;) {
        tab[i].p = NULL;
        for (;;) {
            j = (j + 1) & (CAP - 1);
            if (!tab[j].p) return;
            size_t k = slot(tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i = j;
    }
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void on_malloc(const volatile void *, size_t) {}
#define RA __builtin_return_address(0)
extern "C" void *__wrap_malloc(size_t n) { void *p = malloc(n); add(p, n, RA); return p; }
extern "C" void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); add(p, a * b, RA); return p; }
extern "C" void *__wrap_realloc(void *o, size_t n) { void *p = realloc(o, n); add(p, n, RA); return p; }
extern "C" int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = posix_memalign(p, a, n); if (!r) add(*p, n, RA); return r; }
extern "C" char *__wrap_strdup(const char *s) { char *p = strdup(s); add(p, strlen(s) + 1, RA); return p; }
extern "C" void *__wrap__Znwm(size_t n) { void *p = ::operator new(n); add(p, n, RA); return p; }
extern "C" void *__wrap__Znam(size_t n) { void *p = ::operator new[](n); add(p, n, RA); return p; }

extern "C" void pysim_init(void) {
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, del);
    ompl::msg::noOutputHandler();
}
extern "C" void pysim_reset(unsigned seed, long long step) {
    now_ns = 1000000000000LL; step_ns = step; clock_calls = 0; total = 0;
    srand(seed); srand48((long)seed); nlopt_srand(seed);
    ompl::RNG::setSeed(seed ? seed : 1);
}
extern "C" void pysim_jump(long long ns) { now_ns += ns; }
extern "C" long long pysim_elapsed(void) { return now_ns - 1000000000000LL; }
extern "C" unsigned long long pysim_total(void) { return total; }
extern "C" unsigned long long pysim_live(void) { return live; }
extern "C" void pysim_flush(void) {
    static ompl::base::SpaceInformationPtr si(new ompl::base::SpaceInformation(ompl::base::StateSpacePtr(new ompl::base::RealVectorStateSpace(1))));
    ompl::tools::SelfConfig c(si, "flush");
}
extern "C" void pysim_begin(void) { gen_now++; live_gen = 0; }
extern "C" long long pysim_live_new(void) { return live_gen; }
/* the blocks of this run that are still there */
extern "C" int pysim_leaks(char *buf, size_t cap) {
    int n = 0;
    size_t w = 0;
    buf[0] = 0;
    for (size_t i = 0; i < CAP; i++)
        if (tab[i].p && tab[i].gen == gen_now) {
            Dl_info d;
            const char *nm = dladdr(tab[i].ra, &d) && d.dli_sname ? d.dli_sname : "?";
            n++;
            if (w + 100 < cap) w += (size_t)snprintf(buf + w, cap - w, "%.80s:%zu\n", nm, tab[i].n);
        }
    return n;
}
