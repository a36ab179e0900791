/* Region allocator, thread-local regions, pools and region lists. */
#include <amino.h>
#include <amino/mem.h>
#include "util.h"

/* ---------------------------------------------------------------- model of one region */
#define MAXB 96
struct blk { uint8_t *p; size_t n; uint32_t seed; int mark; };
struct model {
    aa_mem_region_t *reg;
    struct blk b[MAXB];
    int n;
    uint32_t seq;
    uint8_t *tmp; size_t ntmp; uint32_t tmpseed;   /* live temporary allocation */
    size_t peak;
};

static void m_verify(struct model *m) {
    for (int i = 0; i < m->n; i++) {
        struct blk *b = &m->b[i];
        if (b->mark || !b->n) continue;
        SIM_CHECK(sim_heap_addressable(b->p, b->n) == 1, "live-block-freed", "block #%d of %zu bytes is no longer valid memory while still allocated", i, b->n);
        long k = pat_bad(b->p, b->n, b->seed);
        SIM_CHECK(k < 0, "content-lost", "live block #%d (%zu bytes) changed at byte %ld", i, b->n, k);
    }
}
static void m_new(struct model *m, void *pv, size_t n, int fill) {
    uint8_t *p = pv;
    SIM_CHECK(p != NULL, "null-block", "allocation of %zu bytes returned NULL", n);
    SIM_CHECK(((uintptr_t)p & 15) == 0, "misaligned", "allocation of %zu bytes at offset %u from 16-byte alignment", n, (unsigned)((uintptr_t)p & 15));
    if (n) SIM_CHECK(sim_heap_addressable(p, n) == 1, "out-of-chunk", "allocation of %zu bytes reaches outside the region's memory", n);
    for (int i = 0; i < m->n; i++) {
        struct blk *b = &m->b[i];
        if (b->mark || !b->n || !n) continue;
        SIM_CHECK(p + n <= b->p || b->p + b->n <= p, "overlap", "new block of %zu bytes overlaps live block #%d (%zu bytes)", n, i, b->n);
    }
    struct blk *b = &m->b[m->n++];
    b->p = p; b->n = n; b->seed = ++m->seq; b->mark = 0;
    if (fill) pat_fill(p, n, b->seed);
}
static size_t live_bytes(struct model *m) { size_t t = 0; for (int i = 0; i < m->n; i++) t += m->b[i].n + 16; return t; }

/* a size that likes boundaries */
static size_t pick_size(aa_mem_region_t *reg) {
    size_t fs = aa_mem_region_freesize(reg);
    if (fs > 12000 && !(fs < 300000 && op_choose(8) == 7)) return (size_t)op_range(0, 900);
    switch (op_choose(6)) {
    case 0: return (size_t)op_range(0, 40);
    case 1: return (size_t)op_range(0, 7) * 16;
    case 2: { long v = (long)fs + op_range(-17, 17); return v < 0 ? 0 : (size_t)v; }
    case 3: return fs;
    case 4: return (size_t)op_range(1, 600);
    default: { size_t t = fs * 2 + (size_t)op_range(0, 200); return t > 20000 ? 20000 : t; }
    }
}
static void fill_str(char *s, size_t n, uint32_t seed) { for (size_t i = 0; i < n; i++) s[i] = (char)('a' + pat(seed, i) % 26); s[n] = 0; }

/* one operation on the region; returns a small code of what happened */
static int m_step(struct model *m, int allow_release) {
    aa_mem_region_t *reg = m->reg;
    int op = op_choose(14);
    if (m->n >= MAXB - 1) op = 9;
    switch (op) {
    default: case 0: case 1: {
        size_t n = pick_size(reg), fs = aa_mem_region_freesize(reg), cc = aa_mem_region_chunk_count(reg);
        void *head = aa_mem_region_ptr(reg);
        sim_log("alloc %zu (free %zu, chunks %zu)", n, fs, cc);
        if (n > fs) sim_probe("region.grow"); else if (n == fs) sim_probe("region.exact_fit");
        void *p = aa_mem_region_alloc(reg, n);
        if (n <= fs && fs) {
            SIM_CHECK(aa_mem_region_chunk_count(reg) == cc, "needless-chunk", "allocating %zu of %zu free bytes created a chunk", n, fs);
            SIM_CHECK(p == head, "not-head", "allocation that fits did not return the head of the free space");
        }
        m_new(m, p, n, 1);
        break;
    }
    case 2: {
        size_t n = pick_size(reg);
        sim_log("zalloc %zu", n);
        uint8_t *p = aa_mem_region_zalloc(reg, n);
        m_new(m, p, n, 0);
        for (size_t i = 0; i < n; i++) SIM_CHECK(!p[i], "not-zero", "zero-allocated byte %zu of %zu is %u", i, n, p[i]);
        pat_fill(p, n, m->b[m->n - 1].seed);
        break;
    }
    case 3: {
        size_t n = pick_size(reg) + 1;
        char *s = malloc(n + 1);
        uint32_t sd = m->seq + 77;
        fill_str(s, n, sd);
        int k = op_choose(3);
        char *q;
        sim_log("dup kind %d len %zu (free %zu)", k, n, aa_mem_region_freesize(reg));
        if (k == 0) q = aa_mem_region_dup(reg, s, n + 1);
        else if (k == 1) q = aa_mem_region_strdup(reg, s);
        else q = aa_mem_region_printf(reg, "%s", s);
        m_new(m, q, n + 1, 0);
        SIM_CHECK(!memcmp(q, s, n + 1), "bad-copy", "duplicate of %zu bytes differs from its source (kind %d)", n + 1, k);
        pat_fill(q, n + 1, m->b[m->n - 1].seed);
        free(s);
        break;
    }
    case 4: {
        size_t n = pick_size(reg);
        sim_log("tmpalloc %zu", n);
        uint8_t *p = aa_mem_region_tmpalloc(reg, n);
        m_new(m, p, n, 1);
        /* still temporary: same pointer again if it fits */
        m_verify(m);
        size_t fs = aa_mem_region_freesize(reg);
        SIM_CHECK(fs >= n, "tmp-too-small", "temporary allocation of %zu bytes has only %zu bytes", n, fs);
        size_t n2 = fs ? (size_t)op_choose((uint32_t)(n + 1)) : 0;
        uint8_t *q;
        if (op_choose(2)) { q = aa_mem_region_alloc(reg, n2); SIM_CHECK(q == p || !fs, "tmp-moved", "allocation after temporary allocation moved although %zu bytes fit", n2); m->n--; if (q == p) { struct blk *b = &m->b[m->n++]; b->p = q; b->n = n2; } else m_new(m, q, n2, 1); }
        else { q = aa_mem_region_tmpalloc(reg, n2); SIM_CHECK(q == p || !fs, "tmp-moved", "repeated temporary allocation moved"); m->n--; }
        break;
    }
    case 5: {
        /* grow a temporary buffer: what was written must survive */
        size_t n = (size_t)op_range(0, 100), n2 = 0;
        uint8_t *p;
        if (op_choose(4) == 1) { n = 0; p = aa_mem_region_ptr(reg); sim_log("tmprealloc from nothing"); }   /* no temporary yet */
        else p = aa_mem_region_tmpalloc(reg, n);
        m_new(m, p, n, 1);
        struct blk *b = &m->b[m->n - 1];
        int rounds = op_range(1, 4);
        for (int r = 0; r < rounds; r++) {
            size_t fs = aa_mem_region_freesize(reg);
            switch (op_choose(3)) {
            case 0: n2 = n + (size_t)op_range(0, 64); break;
            case 1: n2 = (fs < 12000 ? fs : n) + (size_t)op_range(0, 40); break;
            default: n2 = n * 2 + (size_t)op_range(0, 2000); break;
            }
            if (n2 < n) n2 = n;
            sim_log("tmprealloc %zu -> %zu (free %zu)", n, n2, fs);
            p = aa_mem_region_tmprealloc(reg, n2);
            if (n2 > fs) sim_probe("region.tmprealloc_moves");
            SIM_CHECK(sim_heap_addressable(p, n2 ? n2 : 1) == 1 || !n2, "out-of-chunk", "reallocated temporary of %zu bytes reaches outside the region", n2);
            long k = pat_bad(p, n, b->seed);
            SIM_CHECK(k < 0, "content-lost", "temporary buffer of %zu bytes lost byte %ld when grown to %zu", n, k, n2);
            uint32_t sd = b->seed;
            m->n--;
            m_new(m, p, n2, 0);
            b = &m->b[m->n - 1];
            b->seed = sd;
            pat_fill(p, n2, sd);
            n = n2;
        }
        m_verify(m);
        if (op_choose(2)) { uint8_t *q = aa_mem_region_alloc(reg, n); SIM_CHECK(q == p, "tmp-moved", "committing the grown temporary moved it"); }
        else m->n--;
        break;
    }
    case 6: case 7: {
        sim_log("mark (free %zu)", aa_mem_region_freesize(reg));
        if (!aa_mem_region_freesize(reg)) sim_probe("region.mark_at_end");
        struct blk *b = &m->b[m->n++];
        b->p = aa_mem_region_ptr(reg); b->n = 0; b->mark = 1;
        break;
    }
    case 8: case 9: case 10: {
        if (!m->n) break;
        int k = (int)op_choose((uint32_t)m->n);
        struct blk *b = &m->b[k];
        size_t cc = aa_mem_region_chunk_count(reg);
        sim_log("pop to #%d of %d (%s, chunks %zu)", k, m->n, b->mark ? "mark" : "block", cc);
        aa_mem_region_pop(reg, b->p);
        if (aa_mem_region_chunk_count(reg) < cc) sim_probe("region.pop_across_chunks");
        /* entries below k stay; a zero-size neighbour may share the address */
        m->n = k;
        break;
    }
    case 11:
        if (!allow_release || op_choose(3)) break;
        sim_log("release");
        aa_mem_region_release(reg);
        SIM_CHECK(aa_mem_region_chunk_count(reg) == 1, "not-merged", "%zu chunks after release", aa_mem_region_chunk_count(reg));
        m->n = 0;
        break;
    case 12: {
        double v = op_unit() * 1000;
        int w = op_range(1, 60), z = op_range(0, 3000);
        char ref[4096];
        char *pad = malloc((size_t)z + 1);
        fill_str(pad, (size_t)z, 5);
        int rn = snprintf(ref, sizeof ref, "%*.3f|%s|%d", w, v, pad, z);
        sim_log("printf %d chars (free %zu)", rn, aa_mem_region_freesize(reg));
        if ((size_t)rn >= aa_mem_region_freesize(reg)) sim_probe("region.printf_grows");
        char *s = aa_mem_region_printf(reg, "%*.3f|%s|%d", w, v, pad, z);
        m_new(m, s, (size_t)rn + 1, 0);
        SIM_CHECK(!strcmp(s, ref), "bad-printf", "formatted string of %d characters is wrong", rn);
        pat_fill(s, (size_t)rn + 1, m->b[m->n - 1].seed);
        free(pad);
        break;
    }
    case 13: {
        /* nested scope, as library code does */
        void *ptr = aa_mem_region_ptr(reg);
        int k = op_range(1, 4), base = m->n;
        sim_log("scope %d", k);
        for (int i = 0; i < k && m->n < MAXB - 2; i++) m_new(m, aa_mem_region_alloc(reg, pick_size(reg)), 0, 0);
        m->n = base;
        aa_mem_region_pop(reg, ptr);
        break;
    }
    }
    m_verify(m);
    size_t lb = live_bytes(m);
    if (lb > m->peak) m->peak = lb;
    uint64_t h = mixh(1, (uint64_t)m->n);
    h = mixh(h, aa_mem_region_chunk_count(reg));
    h = mixh(h, aa_mem_region_freesize(reg) < 17 ? aa_mem_region_freesize(reg) : 99);
    sim_state(h);
    return op;
}
static void region_history(void) {
    uint64_t mk = sim_heap_mark();
    sim_heap_reuse((int)cfg_choose(3));
    struct model *m = calloc(1, sizeof *m);
    static const size_t isz[] = {256, 0, 1, 16, 40, 1024, 4096};
    size_t is = isz[cfg_choose(7)];
    aa_mem_region_t stackreg;
    int heap = (int)cfg_choose(2);
    if (heap) m->reg = aa_mem_region_create(is); else { m->reg = &stackreg; aa_mem_region_init(m->reg, is); }
    int n = op_range(4, 60);
    for (int i = 0; i < n; i++) m_step(m, 1);
    aa_mem_region_destroy(m->reg);
    free(m);
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P01", region_history, region_history, 6);

/* A bounded workload repeated from the same mark must not consume ever more memory. */
static void region_steady(void) {
    sim_heap_reuse((int)cfg_choose(3));
    aa_mem_region_t *reg = aa_mem_region_create((size_t)op_range(0, 300));
    int npre = op_range(0, 3), nper = op_range(1, 5), ndeep = (int)op_choose(3);
    size_t sz[8]; int pops[8];
    for (int i = 0; i < npre; i++) aa_mem_region_alloc(reg, (size_t)op_range(1, 400));
    for (int i = 0; i < nper; i++) { sz[i] = (size_t)op_range(1, 1500); pops[i] = (int)op_choose(3); }
    void *mark = aa_mem_region_ptr(reg);
    size_t hi[2] = {0, 0};
    uint8_t *live = NULL; size_t nl = 0;
    if (ndeep == 2) { nl = (size_t)op_range(1, 100); live = aa_mem_region_alloc(reg, nl); pat_fill(live, nl, 9); mark = aa_mem_region_ptr(reg); }
    for (int k = 0; k < 96; k++) {
        void *inner = NULL;
        for (int i = 0; i < nper; i++) {
            if (pops[i] == 1) inner = aa_mem_region_ptr(reg);
            uint8_t *p = aa_mem_region_alloc(reg, sz[i]);
            memset(p, k, sz[i]);
            if (pops[i] == 2 && inner) { aa_mem_region_pop(reg, inner); inner = NULL; }
        }
        if (ndeep == 1) aa_mem_region_release(reg), mark = aa_mem_region_ptr(reg);
        else aa_mem_region_pop(reg, mark);
        size_t h = sim_heap_live();
        int half = k >= 48;
        if (h > hi[half]) hi[half] = h;
        if (live) { long b = pat_bad(live, nl, 9); SIM_CHECK(b < 0, "content-lost", "block below the mark changed at byte %ld in repetition %d", b, k); }
    }
    sim_log("steady %d allocs, peak %zu then %zu", nper, hi[0], hi[1]);
    SIM_CHECK(hi[1] <= hi[0], "unbounded-growth", "a workload repeated from the same mark keeps growing: %zu bytes in repetitions 0-47, %zu in 48-95", hi[0], hi[1]);
    aa_mem_region_destroy(reg);
}
SIM_SCENARIO("P01", region_steady, region_steady, 2);

/* ---------------------------------------------------------------- P02 thread-local regions */
struct tl { int id, nops; struct model *m; uint8_t *lo; int ended; };
static aa_mem_region_t *volatile tl_regs[8];
static void *tl_body(void *v) {
    struct tl *t = v;
    t->m = calloc(1, sizeof *t->m);
    if (op_choose(2)) { size_t n = (size_t)op_range(0, 600); sim_log("local_init %zu", n); aa_mem_region_local_init(n); }
    t->m->reg = aa_mem_region_local_get();
    tl_regs[t->id] = t->m->reg;
    for (int i = 0; i < 8; i++) if (i != t->id) SIM_CHECK(tl_regs[i] != t->m->reg, "shared-region", "threads %d and %d were given the same thread-local region", i, t->id);
    for (int k = 0; k < t->nops; k++) {
        int a = (int)op_choose(12);
        SIM_CHECK(aa_mem_region_local_get() == t->m->reg, "region-changed", "thread-local region changed under its thread");
        if (a == 0 && t->m->n < MAXB - 2) {
            size_t n = pick_size(t->m->reg);
            m_new(t->m, aa_mem_region_local_alloc(n), n, 1);
        } else if (a == 1 && t->m->n) {
            int i = (int)op_choose((uint32_t)t->m->n);
            aa_mem_region_local_pop(t->m->b[i].p);
            t->m->n = i;
        } else if (a == 2) {
            size_t n = pick_size(t->m->reg);
            uint8_t *p = aa_mem_region_local_tmpalloc(n);
            memset(p, 7, n);
        } else if (a == 3 && !op_choose(3)) {
            if (op_choose(2)) aa_mem_region_local_release();
            else { tl_regs[t->id] = NULL; if (op_choose(2)) { aa_mem_region_local_destroy(); sim_probe("local.destroy_recreate"); } else { aa_mem_region_local_init((size_t)op_range(0, 300)); sim_probe("local.reinit"); } t->m->reg = aa_mem_region_local_get(); tl_regs[t->id] = t->m->reg; }
            t->m->n = 0;
        } else if (a < 8) m_step(t->m, 1);
        else if (a == 8) sim_yield();
        else if (a == 9 && !op_choose(4)) { sim_fault_note(F_THREAD_KILL); break; }
        m_verify(t->m);
    }
    m_verify(t->m);
    tl_regs[t->id] = NULL;
    t->ended = 1;
    if (op_choose(3) == 1) { sim_probe("local.explicit_destroy"); aa_mem_region_local_destroy(); }
    free(t->m);
    return NULL;
}
static void tls_history(void) {
    uint64_t mk = sim_heap_mark();
    sim_heap_reuse((int)cfg_choose(3));
    sim_sched_swarm(1);
    sim_set_races(1);
    int nt = op_range(2, 4);
    struct tl *t = calloc((size_t)nt * 2, sizeof *t);
    sim_tid id[8];
    for (int i = 0; i < nt; i++) { t[i].id = i; t[i].nops = op_range(1, 14); id[i] = sim_spawn("worker", tl_body, &t[i]); }
    int more = (int)op_choose(3);
    for (int i = 0; i < nt; i++) sim_join(id[i]);
    /* threads that start after others ended reuse nothing of theirs */
    for (int i = 0; i < more; i++) { t[nt + i].id = i; t[nt + i].nops = op_range(1, 8); id[i] = sim_spawn("later", tl_body, &t[nt + i]); }
    for (int i = 0; i < more; i++) sim_join(id[i]);
    free(t);
    LEAKCHECK(mk, "leak-at-thread-exit");
}
SIM_SCENARIO("P02", tls_history, tls_history, 1);

/* ---------------------------------------------------------------- P03 pools and lists */
static void pool_history(void) {
    uint64_t mk = sim_heap_mark();
    sim_heap_reuse((int)cfg_choose(3));
    aa_mem_pool_t pool;
    size_t sz = (size_t)op_range(0, 72);
    aa_mem_pool_init(&pool, sz, (size_t)op_range(0, 9));
    struct blk b[64]; int n = 0; uint32_t seq = 0;
    int ops = op_range(5, 80), maxlive = 0;
    size_t h0 = 0;
    for (int k = 0; k < ops; k++) {
        uint32_t a = op_choose(12);
        if (a < 6 && n < 64) {
            uint8_t *p = aa_mem_pool_alloc(&pool);
            sim_log("pool alloc #%d", n);
            SIM_CHECK(p && !((uintptr_t)p & 15), "misaligned", "pool object at offset %u from 16-byte alignment", (unsigned)((uintptr_t)p & 15));
            if (sz) SIM_CHECK(sim_heap_addressable(p, sz) == 1, "out-of-chunk", "pool object of %zu bytes outside the pool's memory", sz);
            for (int i = 0; i < n; i++) SIM_CHECK(p != b[i].p && (p + sz <= b[i].p || b[i].p + sz <= p), "overlap", "pool gave out memory of live object #%d again", i);
            b[n].p = p; b[n].seed = ++seq; pat_fill(p, sz, seq); n++;
            if (n > maxlive) maxlive = n;
        } else if (a < 11 && n) {
            int i = (int)op_choose((uint32_t)n);
            sim_log("pool free #%d", i);
            aa_mem_pool_free(&pool, b[i].p);
            b[i] = b[--n];
        } else if (a == 11 && !op_choose(4)) {
            sim_log("pool release");
            aa_mem_pool_release(&pool);
            n = 0; maxlive = 0;
            sim_probe("pool.release");
        }
        for (int i = 0; i < n; i++) { long q = pat_bad(b[i].p, sz, b[i].seed); SIM_CHECK(q < 0, "content-lost", "live pool object changed at byte %ld", q); }
        sim_state(mixh((uint64_t)n, (uint64_t)maxlive));
    }
    /* freed objects are reused: memory is bounded by the largest live population */
    while (n) aa_mem_pool_free(&pool, b[--n].p);
    h0 = sim_heap_live();
    for (int r = 0; r < 3; r++) {
        for (int i = 0; i < maxlive; i++) { b[i].p = aa_mem_pool_alloc(&pool); for (int j = 0; j < i; j++) SIM_CHECK(b[i].p != b[j].p, "overlap", "pool gave out one object twice"); }
        for (int i = 0; i < maxlive; i++) aa_mem_pool_free(&pool, b[i].p);
    }
    SIM_CHECK(sim_heap_live() == h0, "unbounded-growth", "pool grew from %zu to %zu bytes re-allocating %d freed objects", h0, sim_heap_live(), maxlive);
    aa_mem_pool_destroy(&pool);
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P03", pool_history, pool_history, 2);

struct mapcx { int i, n; uint32_t *seed; size_t *len; void **ptr; const char *what; };
static void map_fn(void *cxv, void *el) {
    struct mapcx *c = cxv;
    SIM_CHECK(c->i < c->n, "list-order", "%s: map visited more than the %d elements of the list", c->what, c->n);
    if (c->ptr[c->i]) SIM_CHECK(el == c->ptr[c->i], "list-order", "%s: element %d is not the pointer stored there", c->what, c->i);
    else { long q = pat_bad(el, c->len[c->i], c->seed[c->i]); SIM_CHECK(q < 0, "list-order", "%s: element %d differs from what was stored (byte %ld)", c->what, c->i, q); }
    c->i++;
}
static void rlist_history(void) {
    uint64_t mk = sim_heap_mark();
    aa_mem_region_t *reg = aa_mem_region_create((size_t)op_range(0, 500));
    enum { N = 256 };
    uint32_t seed[N]; size_t len[N]; void *ptr[N]; int lo = 128, hi = 128;
    struct aa_mem_rlist *l = aa_mem_rlist_alloc(reg);
    uint32_t seq = 0;
    static char cell[200];
    int ops = op_range(3, 60);
    for (int k = 0; k < ops; k++) {
        uint32_t a = op_choose(7);
        uint8_t buf[64]; size_t n = (size_t)op_range(0, 64);
        if (a == 0 && lo > 0) { seq++; pat_fill(buf, n, seq); aa_mem_rlist_push_cpy(l, buf, n); lo--; seed[lo] = seq; len[lo] = n; ptr[lo] = NULL; sim_log("push copy %zu", n); }
        else if (a == 1 && lo > 0) { lo--; ptr[lo] = &cell[seq++ % 200]; aa_mem_rlist_push_ptr(l, ptr[lo]); sim_log("push ptr"); }
        else if (a == 2 && hi < N) { seq++; pat_fill(buf, n, seq); aa_mem_rlist_enqueue_cpy(l, buf, n); seed[hi] = seq; len[hi] = n; ptr[hi++] = NULL; sim_log("enqueue copy %zu", n); }
        else if (a == 3 && hi < N) { ptr[hi] = &cell[seq++ % 200]; aa_mem_rlist_enqueue_ptr(l, ptr[hi++]); sim_log("enqueue ptr"); }
        else if (a == 4) {
            void *e = aa_mem_rlist_pop(l);
            sim_log("pop of %d", hi - lo);
            if (lo == hi) { SIM_CHECK(!e, "list-order", "pop of an empty list returned an element"); sim_probe("rlist.pop_empty"); }
            else {
                SIM_CHECK(e, "list-order", "pop of a list with %d elements returned NULL", hi - lo);
                if (ptr[lo]) SIM_CHECK(e == ptr[lo], "list-order", "pop returned the wrong element");
                else SIM_CHECK(pat_bad(e, len[lo], seed[lo]) < 0, "list-order", "pop returned other data than stored at the front");
                lo++;
                if (lo == hi) sim_probe("rlist.emptied");
            }
        } else if (a == 5) { size_t z = pick_size(reg); uint8_t *p = aa_mem_region_alloc(reg, z); memset(p, 0xee, z); }
        struct mapcx c = {0, hi - lo, seed + lo, len + lo, ptr + lo, "list"};
        aa_mem_rlist_map(l, map_fn, &c);
        SIM_CHECK(c.i == hi - lo, "list-order", "map visited %d of %d elements", c.i, hi - lo);
        sim_state(mixh((uint64_t)(hi - lo), a));
    }
    aa_mem_region_destroy(reg);
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P03", rlist_history, rlist_history, 2);
