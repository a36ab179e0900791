/* Text stream readers and writers, raw descriptor reads, clocks. */
#include <amino.h>
#include <amino/mem.h>
#include <amino/io.h>
#include <amino/time.h>
#include <ctype.h>
#include <math.h>
#include <unistd.h>
#include "util.h"

struct sb { char *s; size_t n, cap; };
static void sb_put(struct sb *b, const char *s, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->s = realloc(b->s, b->cap); }
    memcpy(b->s + b->n, s, n); b->n += n; b->s[b->n] = 0;
}
static void sb_str(struct sb *b, const char *s) { sb_put(b, s, strlen(s)); }
static void sb_blank(struct sb *b, int least) { int k = least + (int)op_choose(3); while (k--) sb_put(b, op_choose(3) == 1 ? "\t" : " ", 1); }
static void sb_num(struct sb *b) {
    char t[64];
    double v = op_unit() * (op_choose(4) == 3 ? 1e5 : 10);
    switch (op_choose(6)) {
    case 0: snprintf(t, sizeof t, "%g", v); break;
    case 1: snprintf(t, sizeof t, "%.17g", v / 3); break;
    case 2: snprintf(t, sizeof t, "%e", v); break;
    case 3: snprintf(t, sizeof t, "%d", (int)v); break;
    case 4: snprintf(t, sizeof t, "%.40f", v / 7); break;
    default: snprintf(t, sizeof t, "%s%.3f", v >= 0 ? "+" : "", v); break;
    }
    sb_str(b, t);
}
static void read_faults(int on) {
    simfs_set_chunk(op_choose(3) == 0 ? (size_t)-1 : (size_t)op_range(1, 40));
    if (!on) return;
    sim_fault_enable(F_READ_SHORT, 1, 3);
    if (cfg_choose(3) == 1) sim_fault_enable(F_READ_EIO, 1, (uint32_t)(4 << cfg_choose(4)));
    if (cfg_choose(4) == 1) sim_fault_enable(F_READ_EOF, 1, (uint32_t)(6 << cfg_choose(4)));
}
/* leave the local region in an arbitrary state: little room, several chunks */
static uint8_t *rough_region(size_t *n, aa_mem_region_t **reg) {
    aa_mem_region_local_init((size_t)op_range(0, 200));
    *reg = aa_mem_region_local_get();
    for (int k = op_range(0, 2); k > 0; k--) aa_mem_region_alloc(*reg, (size_t)op_range(1, 300));
    if (op_choose(2)) { size_t fs = aa_mem_region_freesize(*reg), keep = op_choose(24); if (fs > keep) aa_mem_region_alloc(*reg, fs - keep); }
    *n = (size_t)op_range(1, 60);
    uint8_t *p = aa_mem_region_alloc(*reg, *n);
    pat_fill(p, *n, 3);
    return p;
}

/* reference: count of numbers at the start of a line, at most n */
static size_t ref_nums(const char *line, size_t n, double *x) {
    size_t i = 0;
    while (i < n) {
        if (*line == '#') break;
        char *e;
        double v = strtod(line, &e);
        if (e == line) break;
        if (x) x[i] = v;
        i++;
        line = e;
        while (*line == ' ' || *line == '\t') line++;
    }
    return i;
}

static void text_file(struct sb *b, size_t n, int lines, int allow_bad) {
    for (int r = 0; r < lines; r++) {
        int k = (int)op_choose(12);
        sb_blank(b, 0);
        if (k == 0) { /* blank line */ }
        else if (k == 1) { sb_str(b, "# a comment 1 2 3"); }
        else if (k == 2 && allow_bad) { size_t m = n ? op_choose((uint32_t)n) : 0; for (size_t i = 0; i < m; i++) { sb_num(b); sb_blank(b, 1); } if (op_choose(2)) sb_str(b, "oops"); else if (!m) sb_str(b, "x"); sim_fault_note(F_CORRUPT); }
        else {
            size_t m = n + (op_choose(6) == 5);
            for (size_t i = 0; i < m; i++) { sb_num(b); if (i + 1 < m) sb_blank(b, 1); }
            if (op_choose(5) == 1) sb_str(b, " # tail");
        }
        sb_blank(b, 0);
        if (r + 1 < lines || op_choose(2)) sb_str(b, "\n");
    }
}

static void matrix_heap(void) {
    uint64_t mk = sim_heap_mark();
    size_t ng; aa_mem_region_t *reg;
    sim_heap_reuse((int)cfg_choose(3));
    uint8_t *guard = rough_region(&ng, &reg);
    struct sb b = {0};
    sb_str(&b, "");
    size_t n = (size_t)op_range(1, 7);
    text_file(&b, n, op_range(0, 14), op_choose(3) == 1);
    simfs_put("/simfs/m.txt", b.s, b.n);
    read_faults((int)cfg_choose(2));
    sim_heap_alloc_limit(64u << 20);
    sim_set_step_limit(3000000);
    FILE *f = fopen("/simfs/m.txt", "r");
    double *A = NULL; size_t elts = 0, *pe = &elts;
    switch (op_choose(4)) {
    case 1: pe = NULL; break;
    case 2: elts = (size_t)op_range(1, 40); A = malloc(elts * sizeof(double)); sim_probe("io.caller_buffer"); break;
    case 3: elts = 0; break;
    }
    size_t cap0 = elts;
    sim_log("read matrix: %zu per line, %zu bytes, initial %zu", n, b.n, elts);
    ssize_t r = aa_io_fread_matrix_heap(f, n, &A, pe);
    int err; size_t dl = simfs_delivered("/simfs/m.txt", &err);
    fclose(f);
    /* reference over the bytes that were delivered before the first fault */
    double *X = malloc((b.n + 2) * sizeof(double) + 64); ssize_t want = 0; size_t cols = 0; long ln = 0;
    for (size_t i = 0; i <= dl;) {
        size_t j = i;
        while (j < dl && b.s[j] != '\n') j++;
        ln++;
        int last = j >= dl;
        if (last && err) { want = -ln; break; }
        char *line = strndup(b.s + i, j - i), *q = line;
        while (*q == ' ' || *q == '\t') q++;
        if (*q && *q != '#') {
            if (ref_nums(q, n, X + cols * n) != n) { want = -ln; free(line); break; }
            cols++;
        }
        free(line);
        if (last) break;
        i = j + 1;
    }
    if (want == 0) want = (ssize_t)cols;
    if (err) sim_probe("io.read_error"); else if (want < 0) sim_probe("io.bad_line");
    SIM_CHECK(r == want, "wrong-result", "matrix reader returned %zd for a stream whose contents call for %zd (%zu bytes delivered, read error %d)", r, want, dl, err);
    if (r > 0) {
        SIM_CHECK(sim_heap_addressable(A, (size_t)r * n * sizeof(double)) == 1, "bad-buffer", "buffer too small for %zd columns of %zu", r, n);
        if (pe) SIM_CHECK(elts >= (size_t)r * n, "bad-capacity", "reported capacity %zu for %zd columns of %zu", elts, r, n);
        SIM_CHECK(!memcmp(A, X, (size_t)r * n * sizeof(double)), "wrong-values", "matrix values differ from the text");
    }
    (void)cap0;
    long k = pat_bad(guard, ng, 3);
    SIM_CHECK(k < 0, "content-lost", "caller's block in the thread-local region changed at byte %ld", k);
    sim_state(mixh(mixh((uint64_t)(r < 0 ? 1000 - r : r), n), (uint64_t)err));
    free(A); free(X); free(b.s);
    aa_mem_region_local_destroy();
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P05", matrix_heap, matrix_heap, 3);

/* lines, vectors and fixed-size matrices */
static void line_readers(void) {
    uint64_t mk = sim_heap_mark();
    size_t ng; aa_mem_region_t *reg;
    sim_heap_reuse((int)cfg_choose(3));
    uint8_t *guard = rough_region(&ng, &reg);
    struct sb b = {0};
    sb_str(&b, "");
    size_t n = (size_t)op_range(1, 5);
    int kind = (int)op_choose(4);
    if (kind == 0) {
        int lines = op_range(0, 12);
        for (int i = 0; i < lines; i++) { int len = op_choose(3) == 2 ? op_range(0, 700) : op_range(0, 40); for (int j = 0; j < len; j++) { char c = (char)(32 + pat((uint32_t)i, (size_t)j) % 90); sb_put(&b, &c, 1); } if (i + 1 < lines || op_choose(2)) sb_str(&b, "\n"); }
    } else text_file(&b, n, op_range(0, 10), op_choose(3) == 1);
    simfs_put("/simfs/l.txt", b.s, b.n);
    read_faults((int)cfg_choose(2));
    sim_fault_disable(F_READ_EIO);
    FILE *f = fopen("/simfs/l.txt", "r");
    sim_heap_alloc_limit(64u << 20);
    size_t pos = 0, dl, want_lines = 0;
    sim_log("line reader kind %d, %zu bytes", kind, b.n);
    if (kind == 0) {
        char *got[64]; size_t off[64], len[64]; int ng2 = 0;
        while (ng2 < 60) {
            char *l = aa_io_getline(f, reg);
            SIM_CHECK(l != NULL, "null-line", "getline returned NULL");
            size_t e = pos;
            dl = simfs_delivered("/simfs/l.txt", NULL);
            while (e < dl && b.s[e] != '\n') e++;
            SIM_CHECK(strlen(l) == e - pos && !memcmp(l, b.s + pos, e - pos), "wrong-line", "line %d of %zu characters came out as %zu characters", ng2, e - pos, strlen(l));
            got[ng2] = l; off[ng2] = pos; len[ng2] = e - pos; ng2++;
            pos = e + 1;
            if (feof(f)) break;
        }
        for (int i = 0; i < ng2; i++) SIM_CHECK(!memcmp(got[i], b.s + off[i], len[i]) && !got[i][len[i]], "content-lost", "earlier line %d changed while later lines were read", i);
        want_lines = (size_t)ng2;
    } else if (kind == 1) {
        double X[16], R[16]; size_t inc = (size_t)op_range(1, 3);
        for (int k = 0; k < 40 && !feof(f); k++) {
            for (int i = 0; i < 16; i++) X[i] = R[i] = -7777;
            size_t g = aa_io_getvector(f, op_choose(2) ? reg : NULL, n, X, inc);
            dl = simfs_delivered("/simfs/l.txt", NULL);
            size_t e = pos; while (e < dl && b.s[e] != '\n') e++;
            char *line = strndup(b.s + pos, e - pos);
            double Y[16];
            size_t w = ref_nums(line, n, Y);
            SIM_CHECK(g == w, "wrong-result", "vector reader found %zu numbers where the line has %zu", g, w);
            for (size_t i = 0; i < w; i++) SIM_CHECK(X[i * inc] == Y[i], "wrong-values", "vector element %zu is %g, text says %g", i, X[i * inc], Y[i]);
            for (size_t i = 0; i < 16; i++) if (i % inc || i / inc >= n) SIM_CHECK(X[i] == -7777, "stray-write", "vector reader wrote outside its elements (index %zu)", i);
            free(line);
            pos = e + 1; want_lines++;
        }
    } else if (kind == 2) {
        size_t m = (size_t)op_range(1, 6), lda = m + op_choose(3);
        double A[64]; for (int i = 0; i < 64; i++) A[i] = -7777;
        size_t g = aa_io_fread_matrix_fix(f, m, n, A, lda), w = 0;
        dl = simfs_delivered("/simfs/l.txt", NULL);
        for (size_t r = 0; r < m; r++) {
            if (pos > dl) break;
            size_t e = pos; while (e < dl && b.s[e] != '\n') e++;
            char *line = strndup(b.s + pos, e - pos); double Y[16];
            size_t k = ref_nums(line, n, Y);
            for (size_t c = 0; c < k; c++) SIM_CHECK(A[c * lda + r] == Y[c], "wrong-values", "matrix element (%zu,%zu) is %g, text says %g", r, c, A[c * lda + r], Y[c]);
            w += k; free(line); pos = e + 1;
        }
        SIM_CHECK(g == w, "wrong-result", "fixed-size matrix reader counted %zu items, the text has %zu", g, w);
        for (size_t i = 0; i < 64; i++) if (i % lda >= m || i / lda >= n) SIM_CHECK(A[i] == -7777, "stray-write", "matrix reader wrote outside the matrix");
    } else {
        /* parse a line of unknown length into the region */
        char *l = aa_io_getline(f, reg);
        double *X = NULL; char *end = NULL;
        size_t g = aa_io_d_parse(l, reg, &X, &end);
        size_t w = 0; double Y[512]; w = ref_nums(l, 512, Y);
        SIM_CHECK(g == w, "wrong-result", "line parser found %zu numbers where the line has %zu", g, w);
        if (g) SIM_CHECK(sim_heap_addressable(X, g * sizeof(double)) == 1 && !memcmp(X, Y, g * sizeof(double)), "wrong-values", "parsed values differ from the text");
        size_t z = 33; uint8_t *q = aa_mem_region_alloc(reg, z); memset(q, 0x5a, z);
        if (g) SIM_CHECK(!memcmp(X, Y, g * sizeof(double)), "overlap", "parsed values overwritten by the next allocation");
    }
    long k = pat_bad(guard, ng, 3);
    SIM_CHECK(k < 0, "content-lost", "caller's block in the region changed at byte %ld", k);
    fclose(f);
    sim_state(mixh((uint64_t)kind, want_lines));
    free(b.s);
    aa_mem_region_local_destroy();
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P05", line_readers, line_readers, 3);

/* growing reads from a raw descriptor: short reads, EINTR, EIO, EOF */
static void read_realloc(void) {
    uint64_t mk = sim_heap_mark();
    size_t n = (size_t)op_range(0, 400);
    uint8_t *d = malloc(n + 1);
    pat_fill(d, n, 11);
    simfs_put("/simfs/r.bin", d, n);
    sim_fault_enable(F_READ_SHORT, 1, 2);
    if (cfg_choose(2)) sim_fault_enable(F_READ_EINTR, 1, 5);
    if (cfg_choose(4) == 1) sim_fault_enable(F_READ_EIO, 1, 9);
    simfs_set_chunk((size_t)op_range(1, 64));
    int fd = simfs_fd("/simfs/r.bin");
    void *buf = NULL; size_t off = 0, max = 0;
    if (op_choose(2)) { max = (size_t)op_range(1, 80); buf = malloc(max); }
    int errs = 0;
    for (int i = 0; i < 2000; i++) {
        ssize_t s = aa_read_realloc(fd, &buf, off, &max);
        if (s == 0) break;
        if (s < 0) { SIM_CHECK(errno == EINTR || errno == EIO, "bad-errno", "errno %d", errno); if (++errs > 40) break; continue; }
        SIM_CHECK(off + (size_t)s <= max && sim_heap_addressable(buf, max) == 1, "bad-capacity", "read of %zd bytes at %zu exceeds capacity %zu", s, off, max);
        off += (size_t)s;
        SIM_CHECK(off <= n && !memcmp(buf, d, off), "wrong-values", "buffer of %zu bytes is not the prefix of the stream", off);
    }
    sim_log("read %zu of %zu, %d errors", off, n, errs);
    if (!errs) SIM_CHECK(off == n, "wrong-result", "read %zu of %zu bytes without an error", off, n);
    SIM_CHECK(max <= 2 * n + 160, "unbounded-growth", "capacity %zu for a stream of %zu bytes", max, n);
    sim_state(mixh(off, (uint64_t)errs));
    simfs_fd_close(fd);
    free(buf); free(d);
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P05", read_realloc, read_realloc, 1);

/* what the printers write, the readers read back */
static void print_roundtrip(void) {
    uint64_t mk = sim_heap_mark();
    size_t ng; aa_mem_region_t *reg;
    uint8_t *guard = rough_region(&ng, &reg);
    size_t m = (size_t)op_range(1, 5), n = (size_t)op_range(1, 5), lda = m + op_choose(3);
    double A[64], B[64];
    for (int i = 0; i < 64; i++) A[i] = op_unit() * 100, B[i] = -7777;
    int row = (int)op_choose(2);
    FILE *f = fopen("/simfs/p.txt", "w");
    aa_io_d_gemp(f, row ? CblasRowMajor : CblasColMajor, m, n, A, lda);
    fclose(f);
    read_faults(0);
    sim_fault_enable(F_READ_SHORT, 1, 3);
    f = fopen("/simfs/p.txt", "r");
    if (row) {
        size_t g = aa_io_fread_matrix_fix(f, m, n, B, lda);
        SIM_CHECK(g == m * n, "wrong-result", "printed %zu x %zu row by row, read back %zu items", m, n, g);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) SIM_CHECK(fabs(A[j * lda + i] - B[j * lda + i]) < 1e-6, "wrong-values", "element (%zu,%zu) came back as %g, was %g", i, j, B[j * lda + i], A[j * lda + i]);
    } else {
        double *H = NULL; size_t e = 0;
        ssize_t g = aa_io_fread_matrix_heap(f, m, &H, &e);
        SIM_CHECK(g == (ssize_t)n, "wrong-result", "printed %zu columns, read back %zd", n, g);
        for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) SIM_CHECK(fabs(A[j * lda + i] - H[j * m + i]) < 1e-6, "wrong-values", "element (%zu,%zu) came back as %g, was %g", i, j, H[j * m + i], A[j * lda + i]);
        free(H);
    }
    sim_state(mixh(m * 8 + n, lda));
    fclose(f);
    SIM_CHECK(pat_bad(guard, ng, 3) < 0, "content-lost", "caller's block changed");
    aa_mem_region_local_destroy();
    LEAKCHECK(mk, "leak");
}
SIM_SCENARIO("P05", print_roundtrip, print_roundtrip, 1);

/* Repeated reading must not consume ever more of the thread-local region. */
static void reader_steady(void) {
    aa_mem_region_local_init((size_t)op_range(0, 2000));
    struct sb b = {0};
    sb_str(&b, "");
    size_t n = (size_t)op_range(1, 4);
    int bad = (int)op_choose(2);
    text_file(&b, n, op_range(1, 8), bad);
    simfs_put("/simfs/s.txt", b.s, b.n);
    int kind = (int)op_choose(3), eio = (int)op_choose(3) == 1;
    simfs_set_chunk(eio ? 16 : (size_t)-1);
    size_t hi[2] = {0, 0};
    sim_set_step_limit(20000000);
    for (int k = 0; k < 64; k++) {
        FILE *f = fopen("/simfs/s.txt", "r");
        if (eio) sim_fault_enable(F_READ_EIO, 1, 2);
        if (kind == 0) { double *A = NULL; size_t e = 0; aa_io_fread_matrix_heap(f, n, &A, &e); free(A); }
        else if (kind == 1) { double A[64]; aa_io_fread_matrix_fix(f, 6, n, A, 6); }
        else { double x[8]; for (int i = 0; i < 6; i++) aa_io_getvector(f, NULL, n, x, 1); }
        sim_fault_disable(F_READ_EIO);
        fclose(f);
        size_t h = sim_heap_live();
        if (h > hi[k >= 32]) hi[k >= 32] = h;
    }
    sim_log("reader %d: peak %zu then %zu", kind, hi[0], hi[1]);
    SIM_CHECK(hi[1] <= hi[0], "unbounded-growth", "reading the same stream again and again keeps growing: %zu bytes in passes 0-31, %zu in 32-63", hi[0], hi[1]);
}
SIM_SCENARIO("P05", reader_steady, reader_steady, 1);

/* ---------------------------------------------------------------- time */
static int64_t ns_of(struct timespec t) { return (int64_t)t.tv_sec * 1000000000LL + t.tv_nsec; }
static int norm_ok(struct timespec t) { return t.tv_nsec >= 0 && t.tv_nsec < 1000000000L; }
struct slp { int64_t ask; };
static void *sleeper(void *v) {
    struct slp *s = v;
    for (int k = 0; k < 3; k++) {
        int64_t n = s->ask / (k + 1);
        struct timespec q = {(time_t)(n / 1000000000LL), (long)(n % 1000000000LL)};
        struct timespec t0 = aa_tm_now(), fut = aa_tm_future(q);
        SIM_CHECK(ns_of(fut) >= ns_of(t0) + n, "wrong-deadline", "future time lies before now + delay");
        SIM_CHECK(norm_ok(fut), "not-normalised", "future time has %ld ns", fut.tv_nsec);
        int r = aa_tm_relsleep(q);
        struct timespec t1 = aa_tm_now();
        int64_t el = ns_of(t1) - ns_of(t0);
        SIM_CHECK(r == 0, "wrong-result", "sleep returned %d", r);
        SIM_CHECK(el >= n, "slept-short", "asked to sleep %lld ns, returned after %lld ns", (long long)n, (long long)el);
        struct timespec d = aa_tm_sub(t1, t0), back = aa_tm_add(t0, d);
        SIM_CHECK(norm_ok(d) && ns_of(d) == el, "wrong-difference", "time difference is wrong");
        SIM_CHECK(aa_tm_cmp(back, t1) == 0 && aa_tm_cmp(t0, t1) <= 0, "wrong-order", "time arithmetic does not invert or compare");
        SIM_CHECK(aa_tm_isafter(t0) || ns_of(aa_tm_now()) == ns_of(t0), "wrong-order", "now is not after an earlier time");
        SIM_CHECK(!aa_tm_isafter(aa_tm_future(aa_tm_make(1000, 0))), "wrong-order", "now is after a future time");
    }
    return NULL;
}
static void sleeping(void) {
    sim_sched_swarm(1);
    sim_fault_enable(F_SLEEP_EINTR, 1, (uint32_t)(2 + cfg_choose(4)));
    if (cfg_choose(2)) sim_fault_enable(F_STALL, 1, 20);
    int nt = op_range(1, 3);
    struct slp s[3]; sim_tid t[3];
    static const int64_t units[] = {1, 1000, 1000000, 999999999, 1000000000};
    for (int i = 0; i < nt; i++) { s[i].ask = units[op_choose(5)] * op_range(0, 9) + (int64_t)op_choose(3) * 999999937LL; t[i] = sim_spawn("sleeper", sleeper, &s[i]); }
    for (int i = 0; i < nt; i++) sim_join(t[i]);
}
SIM_SCENARIO("P06", sleeping, sleeping, 1);
