/* Linear programs: contexts driven through histories of changes, judged by enumerating the vertices. */
#include "util.h"
#include <amino.h>
#include <amino/opt/lp.h>
#include <glpk.h>
#include <sys/syscall.h>
#include <unistd.h>
#define LN 4
enum { B_GLPK, B_LPS, B_CLP, B_N };
static const char *const bname[B_N] = {"GLPK", "lp_solve", "CLP"};
struct lpm { int n, m, min, type[LN]; double A[LN][LN], bl[LN], bu[LN], c[LN], xl[LN], xu[LN]; };
static int fin(double v) { return isfinite(v) && fabs(v) < DBL_MAX; }
/* best vertex of the program cut to the box [-B,B]; 0: there is none */
static int lp_box(const struct lpm *p, const double *xl, const double *xu, double B, double *opt) {
    double P[4 * LN][LN + 1]; int np = 0, n = p->n, any = 0, ix[LN];
    double lo[LN], hi[LN];
    for (int j = 0; j < n; j++) {
        lo[j] = fin(xl[j]) ? xl[j] : -B; hi[j] = fin(xu[j]) ? xu[j] : B;
        for (int s = 0; s < (lo[j] == hi[j] ? 1 : 2); s++) { memset(P[np], 0, sizeof P[np]); P[np][j] = 1; P[np++][LN] = s ? hi[j] : lo[j]; }
    }
    for (int i = 0; i < p->m; i++) for (int s = 0; s < 2; s++) {
        double v = s ? p->bu[i] : p->bl[i]; if (!fin(v) || (s && p->bl[i] == v)) continue;
        memcpy(P[np], p->A[i], sizeof p->A[i]); P[np++][LN] = v;
    }
    for (int k = 0; k < n; k++) ix[k] = k;
    for (;;) {
        double M[LN][LN + 1], x[LN]; int ok = 1;
        for (int k = 0; k < n; k++) { memcpy(M[k], P[ix[k]], sizeof M[k]); M[k][n] = P[ix[k]][LN]; }
        for (int c = 0; c < n && ok; c++) {
            int pv = c; for (int r = c + 1; r < n; r++) if (fabs(M[r][c]) > fabs(M[pv][c])) pv = r;
            if (fabs(M[pv][c]) < 1e-9) { ok = 0; break; }
            if (pv != c) for (int k = 0; k <= n; k++) { double t = M[c][k]; M[c][k] = M[pv][k]; M[pv][k] = t; }
            for (int r = 0; r < n; r++) if (r != c) { double f = M[r][c] / M[c][c]; if (f != 0) for (int k = c; k <= n; k++) M[r][k] -= f * M[c][k]; }
        }
        if (ok) {
            double o = 0;
            for (int k = 0; k < n; k++) { x[k] = M[k][n] / M[k][k]; o += p->c[k] * x[k]; if (x[k] < lo[k] - 1e-5 || x[k] > hi[k] + 1e-5) ok = 0; }
            for (int i = 0; i < p->m && ok; i++) { double v = 0; for (int k = 0; k < n; k++) v += p->A[i][k] * x[k]; if ((fin(p->bl[i]) && v < p->bl[i] - 1e-5) || (fin(p->bu[i]) && v > p->bu[i] + 1e-5)) ok = 0; }
            if (ok && (!any || (p->min ? o < *opt : o > *opt))) { *opt = o; any = 1; }
        }
        int k = n - 1; while (k >= 0 && ix[k] == np - n + k) k--;
        if (k < 0) break;
        ix[k]++; for (int q = k + 1; q < n; q++) ix[q] = ix[q - 1] + 1;
    }
    return any;
}
/* 1 optimum, 0 infeasible, 2 unbounded */
static int lp_model(const struct lpm *p, double *opt) {
    double xl[LN], xu[LN]; int any = 0, iv[LN], ni = 0; memcpy(xl, p->xl, sizeof xl); memcpy(xu, p->xu, sizeof xu);
    for (int j = 0; j < p->n; j++) if (fin(p->xl[j]) && fin(p->xu[j]) && p->xl[j] > p->xu[j]) return 0;
    for (int j = 0; j < p->n; j++) if (p->type[j] != AA_OPT_CONTINUOUS) { iv[ni++] = j; xu[j] = xl[j]; }
    for (;;) {
        double a, b;
        if (lp_box(p, xl, xu, 1e5, &a)) {
            lp_box(p, xl, xu, 2e5, &b);
            if (fabs(a - b) > 1e-3) return 2;
            if (!any || (p->min ? a < *opt : a > *opt)) { *opt = a; any = 1; }
        }
        int k = ni - 1;
        for (; k >= 0; k--) { int j = iv[k]; if (xl[j] < p->xu[j]) { xl[j] = ++xu[j]; break; } xl[j] = xu[j] = p->xl[j]; }
        if (k < 0) break;
    }
    return any;
}
static double ri(int a) { return (double)op_range(-a, a); }
static double noline(int up) { static const double v[] = {INFINITY, DBL_MAX}; double r = v[op_choose(4) == 3]; return up ? r : -r; }
static void rand_bnds(double *l, double *u, int kind, int a) {
    double x = ri(a), y = ri(a), t; if (x > y) { t = x; x = y; y = t; }
    *l = x; *u = y;
    switch (kind) { case 0: case 1: break; case 2: *u = x; if (x < y && !op_choose(8)) *u = x - 1; break; /* now and then empty */ case 3: *l = noline(0); break; case 4: *u = noline(1); break; default: *l = noline(0); *u = noline(1); }
}
static void rand_cstr(struct lpm *p) { int tight = (int)op_choose(2);
    for (int i = 0; i < p->m; i++) { for (int j = 0; j < p->n; j++) p->A[i][j] = op_choose(3) ? ri(3) : 0; rand_bnds(&p->bl[i], &p->bu[i], (int)op_choose(7), tight ? 6 : 20); } }
static void rand_bnd(struct lpm *p) { for (int j = 0; j < p->n; j++) rand_bnds(&p->xl[j], &p->xu[j], p->type[j] ? 0 : op_choose(2) ? 0 : (int)op_choose(7), 4); }
static void rand_obj(struct lpm *p) { for (int j = 0; j < p->n; j++) p->c[j] = ri(4); }
/* the caller's arrays, exactly as large as they must be */
struct lpa { double *A, *bl, *bu, *c, *xl, *xu, *v; int *col, *row; int lda, crs; size_t na; int keep, rev; };
static void pack(struct lpa *a, const struct lpm *p, int crs) {
    memset(a, 0, sizeof *a); size_t n = (size_t)p->n, m = (size_t)p->m;
    a->lda = p->m + (op_choose(3) == 2 ? 2 : 0); a->crs = crs;
    a->na = (size_t)a->lda * (n - 1) + m; a->A = (double *)malloc(sizeof(double) * a->na);
    for (size_t k = 0; k < a->na; k++) a->A[k] = 1e7;
    for (int j = 0; j < p->n; j++) for (int i = 0; i < p->m; i++) a->A[(size_t)j * (size_t)a->lda + (size_t)i] = p->A[i][j];
#define D(f, k) (a->f = (double *)malloc(sizeof(double) * k), memcpy(a->f, p->f, sizeof(double) * k))
    D(bl, m); D(bu, m); D(c, n); D(xl, n); D(xu, n);
#undef D
    if (crs) {
        int keep = a->keep = (int)op_choose(2), rev = a->rev = (int)op_choose(2), k = 0, nz = 0;
        for (int i = 0; i < p->m; i++) for (int j = 0; j < p->n; j++) nz += keep || p->A[i][j] != 0;
        a->v = (double *)malloc(sizeof(double) * (size_t)(nz ? nz : 1)); a->col = (int *)malloc(sizeof(int) * (size_t)(nz ? nz : 1)); a->row = (int *)malloc(sizeof(int) * (m + 1));
        for (int i = 0; i < p->m; i++) { a->row[i] = k; for (int q = 0; q < p->n; q++) { int j = rev ? p->n - 1 - q : q; if (keep || p->A[i][j] != 0) { a->v[k] = p->A[i][j]; a->col[k++] = j; } } }
        a->row[p->m] = k;
    }
}
static void unpack(struct lpa *a, const struct lpm *p) { /* nothing may have been written, nothing may be kept */
    for (int j = 0; j < p->n; j++) {
        for (int i = 0; i < a->lda; i++) { size_t k = (size_t)j * (size_t)a->lda + (size_t)i; if (k < a->na) SIM_CHECK(a->A[k] == (i < p->m ? p->A[i][j] : 1e7), "arguments", "the caller's matrix changed"); }
        SIM_CHECK(a->c[j] == p->c[j] && a->xl[j] == p->xl[j] && a->xu[j] == p->xu[j], "arguments", "the caller's bounds or objective changed");
    }
    for (int i = 0; i < p->m; i++) SIM_CHECK(a->bl[i] == p->bl[i] && a->bu[i] == p->bu[i], "arguments", "the caller's constraint bounds changed");
    if (a->crs) for (int i = 0, k = 0; i < p->m; i++) {
        SIM_CHECK(a->row[i] == k, "arguments", "the caller's row pointers changed");
        for (int q = 0; q < p->n; q++) { int j = a->rev ? p->n - 1 - q : q; if (a->keep || p->A[i][j] != 0) { SIM_CHECK(a->v[k] == p->A[i][j] && a->col[k] == j, "arguments", "entry %d of the caller's sparse matrix changed", k); a->v[k] = -77; k++; } }
    }
    for (size_t k = 0; k < a->na; k++) a->A[k] = -77;
    free(a->A); free(a->bl); free(a->bu); free(a->c); free(a->xl); free(a->xu); free(a->v); free(a->col); free(a->row);
}
static struct aa_opt_cx *lp_open(int b, const struct lpm *p, const struct lpa *a) {
    size_t n = (size_t)p->n, m = (size_t)p->m, ld = (size_t)a->lda;
    static aa_opt_gmcreate_fun *const gm[] = {aa_opt_glpk_gmcreate, aa_opt_lpsolve_gmcreate, aa_opt_clp_gmcreate};
    static const enum aa_opt_lp_solver sv[] = {AA_OPT_LP_SOLVER_GLPK, AA_OPT_LP_SOLVER_LPSOLVE, AA_OPT_LP_SOLVER_CLP};
    if (a->crs) return (b == B_GLPK ? aa_opt_glpk_crscreate : b == B_LPS ? aa_opt_lpsolve_crscreate : aa_opt_clp_crscreate)(m, n, a->v, a->col, a->row, a->bl, a->bu, a->c, a->xl, a->xu);
    if (op_choose(2)) return aa_opt_gmcreate(b == B_GLPK && op_choose(2) ? AA_OPT_LP_SOLVER_DEFAULT : sv[b], m, n, a->A, ld, a->bl, a->bu, a->c, a->xl, a->xu);
    return gm[b](m, n, a->A, ld, a->bl, a->bu, a->c, a->xl, a->xu);
}
static int lp_once(int b, const struct lpm *p, const struct lpa *a, double *x) {
    size_t n = (size_t)p->n, m = (size_t)p->m, ld = (size_t)a->lda;
    static aa_opt_lp_solver_fun *const gm[] = {aa_opt_lp_glpk, aa_opt_lp_lpsolve, aa_opt_lp_clp};
    static aa_opt_lp_crs_solver *const cr[] = {aa_opt_lp_crs_glpk, aa_opt_lp_crs_lpsolve, aa_opt_lp_crs_clp};
    return a->crs ? cr[b](m, n, a->v, a->col, a->row, a->bl, a->bu, a->c, a->xl, a->xu, x) : gm[b](m, n, a->A, ld, a->bl, a->bu, a->c, a->xl, a->xu, x);
}
static void lp_dump(const struct lpm *p) {
    char b[200]; int k = snprintf(b, sizeof b, "%s", p->min ? "min" : "max"); for (int j = 0; j < p->n; j++) k += snprintf(b + k, sizeof b - (size_t)k, " %g", p->c[j]);
    sim_log("  %s", b);
    for (int i = 0; i < p->m; i++) { k = 0; b[0] = 0; for (int j = 0; j < p->n; j++) k += snprintf(b + k, sizeof b - (size_t)k, " %g", p->A[i][j]); sim_log("  %g <=%s <= %g", p->bl[i], b, p->bu[i]); }
    for (int j = 0; j < p->n; j++) sim_log("  %g <= x%d <= %g%s", p->xl[j], j, p->xu[j], p->type[j] ? " integer" : "");
}
int lp_clp_wrong(int m, int n, const double *A, int ld, const double *bl, const double *bu, const double *c, const double *xl, const double *xu, int min, int want, double opt, double tol);
/* third-party misjudgements are not Amino's: is the library wrong about this program when it is asked without Amino? */
static int lib_wrong(int b, const struct lpm *p, int k, double opt) {
    double T[LN * LN]; for (int i = 0; i < LN; i++) for (int j = 0; j < LN; j++) T[i + LN * j] = p->A[i][j];
    if (b == B_CLP && lp_clp_wrong(p->m, p->n, T, LN, p->bl, p->bu, p->c, p->xl, p->xu, p->min, k, opt, 1e-5)) { sim_probe("Clp itself is wrong"); return 1; }
    return 0;
}
static int mixed(const struct lpm *p) { int i = 0; for (int j = 0; j < p->n; j++) i += p->type[j] != 0; return i; }
static void lp_judge(int b, const struct lpm *p, int r, const double *x, const char *how) {
    double opt = 0, o = 0; int k = lp_model(p, &opt);
    sim_probe(k == 1 ? "optimum" : k ? "unbounded" : "infeasible");
    if (k != 1) { if (!r && lib_wrong(b, p, k, opt)) return; SIM_CHECK(r, "status", "%s reports a solution of %s program (%s)", bname[b], k ? "an unbounded" : "an infeasible", how); return; }
    if (r && lib_wrong(b, p, k, opt)) return;
    SIM_CHECK(!r, "status", "%s returned %d for a program with optimum %g (%s)", bname[b], r, opt, how);
    for (int j = 0; j < p->n; j++) {
        o += p->c[j] * x[j];
        SIM_CHECK((!fin(p->xl[j]) || x[j] >= p->xl[j] - 1e-6) && (!fin(p->xu[j]) || x[j] <= p->xu[j] + 1e-6), "bounds", "%s returned variable %d = %g, bounds %g..%g (%s)", bname[b], j, x[j], p->xl[j], p->xu[j], how);
        if (p->type[j]) SIM_CHECK(fabs(x[j] - round(x[j])) < 1e-6, "integer", "%s returned %g for the integer variable %d (%s)", bname[b], x[j], j, how);
    }
    for (int i = 0; i < p->m; i++) {
        double v = 0; for (int j = 0; j < p->n; j++) v += p->A[i][j] * x[j];
        SIM_CHECK((!fin(p->bl[i]) || v >= p->bl[i] - 1e-5) && (!fin(p->bu[i]) || v <= p->bu[i] + 1e-5), "constraint", "%s returned a point where constraint %d is %g, bounds %g..%g (%s)", bname[b], i, v, p->bl[i], p->bu[i], how);
    }
    if (fabs(o - opt) > 1e-5 * (1 + fabs(opt)) && ((b == B_LPS && mixed(p)) || lib_wrong(b, p, k, opt))) { sim_probe("suboptimal by the library"); return; }
    SIM_CHECK(fabs(o - opt) <= 1e-5 * (1 + fabs(opt)), "optimal", "%s returned objective %g, the optimum is %g (%s)", bname[b], o, opt, how);
}
/* solving says nothing on the standard streams */
static int lp_fd = -1, lp_old[2];
static void lp_quiet(int on) {
    if (lp_fd < 0) return;
    fflush(stdout); fflush(stderr);
    for (int k = 0; k < 2; k++) { if (on) { lp_old[k] = dup(k + 1); dup2(lp_fd, k + 1); } else { dup2(lp_old[k], k + 1); close(lp_old[k]); } }
    if (!on) { off_t n = lseek(lp_fd, 0, SEEK_END); SIM_CHECK(n == 0, "output", "solving prints %ld bytes", (long)n); }
}
static void lp_solve_cx(int b, struct aa_opt_cx *cx, const struct lpm *p, const char *how) {
    double *x = (double *)malloc(sizeof(double) * (size_t)p->n); memset(x, 0xff, sizeof(double) * (size_t)p->n);
    lp_quiet(1); int r = aa_opt_solve(cx, (size_t)p->n, x); lp_quiet(0);
    sim_log("%s: %s: %d", bname[b], how, r); lp_dump(p);
    lp_judge(b, p, r, x, how); free(x);
}
static void lp_rand(struct lpm *p) { memset(p, 0, sizeof *p); p->n = op_range(1, LN); p->m = op_range(1, LN); rand_bnd(p); rand_cstr(p); rand_obj(p); }
static void lp_change(int b, struct aa_opt_cx *cx, struct lpm *p) {
    struct lpa a; int r = 0, k = (int)op_choose(7); const size_t n = (size_t)p->n;
    static const char *const nm[] = {"objective", "bounds", "constraints", "constraints", "direction", "type", "bad request"};
    sim_log("change %s", nm[k]);
    switch (k) {
    case 0: rand_obj(p); pack(&a, p, 0); r = aa_opt_set_obj(cx, n, a.c); unpack(&a, p); break;
    case 1: rand_bnd(p); pack(&a, p, 0); r = aa_opt_set_bnd(cx, n, a.xl, a.xu); unpack(&a, p); break;
    case 2: case 3: rand_cstr(p); pack(&a, p, 0); r = aa_opt_set_cstr_gm(cx, (size_t)p->m, n, a.A, (size_t)a.lda, a.bl, a.bu); unpack(&a, p); break;
    case 4: p->min = (int)op_choose(2); r = aa_opt_set_direction(cx, p->min ? AA_OPT_MINIMIZE : AA_OPT_MAXIMIZE); break;
    case 5: {
        int j = (int)op_choose((uint32_t)n), t = (int)op_choose(3);
        if (b == B_CLP) { SIM_CHECK(t == 0 || aa_opt_set_type(cx, (size_t)j, (enum aa_opt_type)t), "code", "CLP accepts an integer variable it does not support"); return; }
        if (t == AA_OPT_INTEGER && !(fin(p->xl[j]) && fin(p->xu[j]))) return; /* kept small for the model */
        r = aa_opt_set_type(cx, (size_t)j, (enum aa_opt_type)t); p->type[j] = t;
        if (t == AA_OPT_BINARY) { p->xl[j] = 0; p->xu[j] = 1; }
        break; }
    default: sim_fault_note(F_BAD_ARG);
        SIM_CHECK(aa_opt_set_direction(cx, (enum aa_opt_direction)9), "code", "%s accepts direction 9", bname[b]);
        SIM_CHECK(aa_opt_set_type(cx, 0, (enum aa_opt_type)9), "code", "%s accepts type 9", bname[b]);
        { double v = 1; int c = 0, rp[2] = {0, 1}; SIM_CHECK(aa_opt_set_quad_obj_crs(cx, 1, &v, &c, rp), "code", "%s accepts a quadratic objective", bname[b]); }
        SIM_CHECK(!aa_opt_gmcreate((enum aa_opt_lp_solver)9, 1, 1, &p->c[0], 1, &p->c[0], &p->c[0], &p->c[0], &p->c[0], &p->c[0]), "code", "solver 9 exists");
    }
    SIM_CHECK(!r, "code", "%s: changing the %s returned %d", bname[b], nm[k], r);
}
static int lp_out(void *info, const char *s) { (void)info; sim_violation("output", "solving prints \"%.60s\"", s); return 1; }
static void lp_steady(int b) { /* a context that is gone leaves nothing behind */
    struct lpm p; struct lpa a; double x[LN]; lp_rand(&p); pack(&a, &p, (int)op_choose(2)); int once = (int)op_choose(2);
    size_t live[3];
    for (int k = 0; k < 3; k++) { struct aa_opt_cx *cx; if (once) lp_once(b, &p, &a, x); else { cx = lp_open(b, &p, &a); aa_opt_solve(cx, (size_t)p.n, x); aa_opt_destroy(cx); } live[k] = sim_heap_live_blocks(); }
    /* Clp itself keeps a block or two at times */
    SIM_CHECK(live[2] <= live[1] + (b == B_CLP ? 2 : 0), "leak", "%s: every context leaves %zu block(s) behind", bname[b], live[2] - live[1]);
    unpack(&a, &p);
}
static void lp_history(void) {
    uint64_t mark = sim_heap_mark(); sim_set_step_limit(200000000); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    aa_mem_region_local_init((size_t)op_range(0, 400));
    glp_term_hook(lp_out, NULL); lp_fd = (int)syscall(SYS_memfd_create, "out", 0);
    struct { int b; struct aa_opt_cx *cx; struct lpm p; } c[3]; int n = op_range(1, 3);
    for (int i = 0; i < n; i++) {
        struct lpa a; c[i].b = (int)op_choose(B_N); lp_rand(&c[i].p);
        pack(&a, &c[i].p, (int)op_choose(2));
        if (op_choose(3) == 2) { double x[LN]; lp_quiet(1); int r = lp_once(c[i].b, &c[i].p, &a, x); lp_quiet(0); lp_judge(c[i].b, &c[i].p, r, x, a.crs ? "at once, sparse" : "at once"); }
        c[i].cx = lp_open(c[i].b, &c[i].p, &a); SIM_CHECK(c[i].cx, "create", "no %s context", bname[c[i].b]);
        unpack(&a, &c[i].p);
        if (op_choose(2)) lp_solve_cx(c[i].b, c[i].cx, &c[i].p, "fresh");
    }
    for (int s = op_range(0, 10); s > 0; s--) {
        int i = (int)op_choose((uint32_t)n);
        for (int k = op_range(1, 3); k > 0; k--) lp_change(c[i].b, c[i].cx, &c[i].p);
        lp_solve_cx(c[i].b, c[i].cx, &c[i].p, "after changes");
        if (op_choose(4) == 3) lp_solve_cx(c[i].b, c[i].cx, &c[i].p, "again");
    }
    for (int i = 0; i < n; i++) aa_opt_destroy(c[i].cx);
    lp_steady((int)op_choose(B_N));
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
static void *lp_thread(void *v) { (void)v;
    glp_term_hook(lp_out, NULL);
    int b = (int)op_choose(B_N); struct lpm p; struct lpa a; lp_rand(&p); pack(&a, &p, (int)op_choose(2));
    struct aa_opt_cx *cx = lp_open(b, &p, &a); unpack(&a, &p);
    for (int s = op_range(1, 4); s > 0; s--) { lp_solve_cx(b, cx, &p, "on a thread"); lp_change(b, cx, &p); }
    aa_opt_destroy(cx);
    return NULL;
}
static void lp_threads(void) {
    uint64_t mark = sim_heap_mark(); sim_set_step_limit(200000000); sim_sched_swarm(1); sim_set_races(1);
    sim_tid t[3]; int n = op_range(2, 3);
    for (int i = 0; i < n; i++) t[i] = sim_spawn("lp", lp_thread, NULL);
    for (int i = 0; i < n; i++) sim_join(t[i]);
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P20", lp_history, lp_history, 3);
SIM_SCENARIO("P20", lp_threads, lp_threads, 1);
