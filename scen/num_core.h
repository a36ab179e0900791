/* Operations on array arguments: each is given inputs among guard elements, run in seeded states of the scratch
 * region, by one or several threads, and must give the same results for the same arguments. The including file
 * defines its operations and, with OPS_SCENARIOS, the scenarios that run them. */
#include "util.h"
#include <amino.h>
#include <amino/mat.h>
#include <amino/mem.h>
#include <math.h>
#include <setjmp.h>
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#pragma GCC diagnostic ignored "-Wunused-variable"
#pragma GCC diagnostic ignored "-Wclobbered"
#define MAXG 90
#define MAXREF 1500
static volatile double zero __attribute__((unused));
/* an array argument: strided, with poison between the elements and around them */
typedef struct { unsigned char *base, *d; int m, n, ld, es, in, reuse, loose; size_t tot; unsigned char *orig; } gm;
struct nx;
struct opdef { const char *name; void (*fn)(struct nx *); };
struct opinst { const struct opdef *def; uint64_t seed; gm ins[MAXG]; int nins, have; double *ref; int nref; };
struct nx { uint64_t s; struct opinst *o; const char *name; char why[200]; gm *live[MAXG]; gm gs[MAXG]; int ng, nin, dense; double *got; int ngot; double tol; };
#define PAD 16
#define POISON 0xff /* a NaN in either precision */
static uint64_t nrnd(struct nx *c) { uint64_t z = (c->s += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
static int nint(struct nx *c, int lo, int hi) { return lo + (int)(nrnd(c) % (uint64_t)(hi - lo + 1)); }
static double nun(struct nx *c) { return (double)(int64_t)(nrnd(c) >> 11) / 4503599627370496.0 - 1; } /* [-1,1) */
/* kinds of values: 0 any, 1 small integers (ties), 2 any, shifted, 3 any with zeros */
static double nval(struct nx *c, int kind) { double v = 3 * nun(c); int k = nint(c, 0, 7); switch (kind) { case 1: return floor(v * 1.4); case 2: return v + (nrnd(c) & 1 ? 5 : -5) * 0; case 3: return k < 1 ? 0 : v; default: return v; } }
static gm *g_add(struct nx *c, int m, int n, int ld, int es, int in) {
    SIM_CHECK(c->ng < MAXG, "harness", "too many arrays"); int k = c->nin;
    if (in && c->o->have) { gm *g = &c->gs[c->ng++]; *g = c->o->ins[k]; g->reuse = 1; c->nin++; return g; }
    gm *g = &c->gs[c->ng++]; memset(g, 0, sizeof *g); g->m = m; g->n = n; g->ld = ld; g->es = es; g->in = in;
    g->tot = (size_t)es * ((size_t)(n - 1) * (size_t)ld + (size_t)m);
    g->base = (unsigned char *)malloc(g->tot + 2 * PAD * (size_t)es); memset(g->base, POISON, g->tot + 2 * PAD * (size_t)es); g->d = g->base + PAD * es;
    if (in) { c->o->ins[c->nin++] = *g; c->o->nins = c->nin; }
    return g;
}
static gm g_new(struct nx *c, int m, int n, int es, int in) { int extra = nint(c, 0, 3); return *g_add(c, m, n, c->dense || extra > 2 ? m : m + extra, es, in); }
static gm g_vec(struct nx *c, int n, int es, int in) { int inc = nint(c, 1, 4); return *g_add(c, 1, n, c->dense || inc > 3 ? 1 : inc, es, in); }
/* are the bytes outside the elements still poison? */
static void g_gaps(struct nx *c, gm *g) {
    size_t es = (size_t)g->es, all = g->tot + 2 * PAD * es;
    for (size_t i = 0; i < all / es; i++) {
        size_t k = i - PAD; int el = i >= PAD && i < PAD + g->tot / es && (int)(k % (size_t)g->ld) < g->m;
        if (el) continue;
        for (size_t b = 0; b < es; b++) SIM_CHECK(g->base[i * es + b] == POISON, "writes-outside", "%s: something is written %ld elements from the start of a %d x %d array with leading dimension %d", c->name, (long)i - PAD, g->m, g->n, g->ld);
    }
}
/* the input arguments hold what they are to hold: keep a copy */
static void seal(struct nx *c) { for (int k = 0; k < c->o->nins; k++) { gm *g = &c->o->ins[k]; if (c->o->have) return; free(g->orig); g->orig = (unsigned char *)malloc(g->tot); memcpy(g->orig, g->d, g->tot); } }
static void put(struct nx *c, double v) { if (c->ngot < MAXREF) c->got[c->ngot++] = v; }
static __thread jmp_buf n_jmp; static __thread int n_armed, n_err;
static void n_fail(const char *msg) { (void)msg; n_err++; if (n_armed) { n_armed = 0; longjmp(n_jmp, 1); } sim_violation("size-error", "sizes that agree are reported as an error: %s", msg); }
#define MUSTFAIL(what, call) do { n_err = 0; n_armed = 1; if (!setjmp(n_jmp)) { call; n_armed = 0; sim_violation("size-error", "%s: sizes that do not agree are accepted", what); } } while (0)

/* ---- running an operation in a given state of the scratch region */
static void op_begin(struct opinst *o, const struct opdef *d) { memset(o, 0, sizeof *o); o->def = d; o->seed = ((uint64_t)op_choose(1u << 20) << 20 | op_choose(1u << 20)) * 2654435761u + 12345; }
static void op_call(struct opinst *o) {
    struct nx *c = (struct nx *)calloc(1, sizeof *c); c->s = o->seed; c->o = o; c->name = o->def->name; c->tol = 1e-9; c->got = (double *)malloc(sizeof(double) * MAXREF);
    n_armed = 0; o->def->fn(c);
    for (int i = 0; i < c->ng; i++) {
        gm *g = &c->gs[i]; g_gaps(c, g);
        if (!g->in) free(g->base);
    }
    int first = !o->have; o->have = 1;
    if (first) { o->ref = c->got; o->nref = c->ngot; }
    else {
        SIM_CHECK(c->ngot == o->nref, "harness", "%s recorded %d values, then %d", c->name, o->nref, c->ngot);
        for (int i = 0; i < c->ngot; i++) { double a = c->got[i], b = o->ref[i]; SIM_CHECK((a != a && b != b) || a == b || fabs(a - b) <= c->tol * (1 + fabs(b)), "not-a-function", "%s: value %d is %.17g, for the same arguments it was %.17g", c->name, i, a, b); }
        free(c->got);
    }
    free(c);
}
/* the arguments of the first call, whose contents are checked against what they were when the operation wrote its results */
static void op_inputs(struct opinst *o) { for (int k = 0; k < o->nins; k++) { gm *g = &o->ins[k]; if (g->orig) SIM_CHECK(!memcmp(g->orig, g->d, g->tot), "input-changed", "%s: an input argument changed", o->def->name); } }
static void op_end(struct opinst *o) { op_inputs(o); for (int k = 0; k < o->nins; k++) { free(o->ins[k].base); free(o->ins[k].orig); } free(o->ref); }
static void scratch_run(struct opinst *o) {
    int mode = op_choose(5), fill = op_choose(3), guard = 0; unsigned char *gp = NULL; struct aa_mem_region *reg; size_t gn = 0;
    if (mode == 1 || mode == 2) { aa_mem_region_local_destroy(); aa_mem_region_local_init(mode == 1 ? (size_t)op_range(16, 3000) : (size_t)1 << 20); sim_probe(mode == 1 ? "scratch region starts small" : "scratch region starts big"); }
    reg = aa_mem_region_local_get();
    if (mode == 3) { guard = 1; gn = (size_t)op_range(1, 700); gp = (unsigned char *)aa_mem_region_local_alloc(gn); pat_fill(gp, gn, 5); sim_probe("scratch memory in use"); }
    size_t fs = aa_mem_region_freesize(reg); if (fill && fs > 64) { size_t n = fs - 32; if (n > 300000) n = 300000; memset(aa_mem_region_tmpalloc(reg, n), fill == 1 ? 0xff : 0, n); sim_probe(fill == 1 ? "scratch memory dirty" : "scratch memory zero"); }
    sim_log("%s mode %d fill %d", o->def->name, mode, fill);
    void *top = aa_mem_region_ptr(reg); int big = fs > 500000 && aa_mem_region_chunk_count(reg) == 1;
    op_call(o); op_inputs(o);
    SIM_CHECK(aa_mem_region_local_get() == reg, "scratch", "%s replaced the thread's region", o->def->name);
    if (big) SIM_CHECK(aa_mem_region_ptr(reg) == top, "scratch", "%s: %ld bytes of scratch memory are not given back", o->def->name, (long)((char *)aa_mem_region_ptr(reg) - (char *)top));
    if (guard) { SIM_CHECK(sim_heap_addressable(gp, gn) == 1 && pat_bad(gp, gn, 5) < 0, "scratch", "%s: the caller's scratch memory is damaged", o->def->name); aa_mem_region_local_pop(gp); }
}
static void ops_pure(const struct opdef *ops, int nops) {
    sim_set_step_limit(400000000); sim_heap_fill(op_choose(2) ? 0xff : 0x5a); aa_la_set_err(n_fail); aa_mem_region_local_get(); aa_mem_region_local_destroy(); uint64_t mark = sim_heap_mark(); aa_mem_region_local_init((size_t)op_range(64, 4096));
    struct opinst o[4]; int n = op_range(1, 3); uint64_t h = 0;
    for (int i = 0; i < n; i++) { int k = (int)op_choose((uint32_t)nops); h = mixh(h, (uint64_t)k); op_begin(&o[i], &ops[k]); scratch_run(&o[i]); }
    int more = op_range(1, 5); for (int i = 0; i < more; i++) scratch_run(&o[op_choose((uint32_t)n)]);
    for (int i = 0; i < n; i++) { for (int k = 0; k < o[i].nref; k++) sim_hash(&o[i].ref[k], 8); op_end(&o[i]); }
    sim_state(h); aa_mem_region_local_destroy(); LEAKCHECK(mark, "memory");
}
struct nth { struct opinst *o[4]; int n; };
static void *num_worker(void *p) { struct nth *t = (struct nth *)p; for (int i = 0; i < t->n; i++) { if (op_choose(2)) scratch_run(t->o[i]); else op_call(t->o[i]); } return NULL; }
static void ops_threads(const struct opdef *ops, int nops) {
    sim_sched_swarm(1); sim_set_races(1); sim_set_step_limit(400000000); sim_heap_fill(0xff); aa_la_set_err(n_fail); aa_mem_region_local_get(); aa_mem_region_local_destroy(); uint64_t mark = sim_heap_mark(); aa_mem_region_local_init((size_t)op_range(64, 4096));
    struct opinst o[4]; int n = op_range(1, 4), nt = op_range(2, 3); uint64_t h = 1; for (int i = 0; i < n; i++) { int k = (int)op_choose((uint32_t)nops); h = mixh(h, (uint64_t)k); op_begin(&o[i], &ops[k]); op_call(&o[i]); }
    struct nth t[3]; sim_tid id[3]; for (int i = 0; i < nt; i++) { t[i].n = op_range(1, 3); for (int k = 0; k < t[i].n; k++) t[i].o[k] = &o[op_choose((uint32_t)n)]; }
    for (int i = 0; i < nt; i++) id[i] = sim_spawn("solver", num_worker, &t[i]);
    for (int i = 0; i < nt; i++) sim_join(id[i]);
    for (int i = 0; i < n; i++) { for (int k = 0; k < o[i].nref; k++) sim_hash(&o[i].ref[k], 8); op_end(&o[i]); }
    sim_state(h); aa_mem_region_local_destroy(); LEAKCHECK(mark, "memory");
}
