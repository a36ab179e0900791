/* Integration of simulated plants with disturbances, judged against a fine reference integration. */
#include "util.h"
#include <amino.h>
#include <math.h>
#define ON 5
/* a plant: x' = A x + b sin(w t + p) - c x^3; disturbances move the state at chosen steps */
struct plant { int n; double A[ON * ON], b[ON], w, p, c, Lip; };
static void pl_f(const struct plant *s, double t, const double *x, double *y) {
    for (int i = 0; i < s->n; i++) { y[i] = s->b[i] * sin(s->w * t + s->p) - s->c * x[i] * x[i] * x[i]; for (int j = 0; j < s->n; j++) y[i] += s->A[i + s->n * j] * x[j]; }
}
static void pl_rk4(const struct plant *s, double t, double h, double *x) { /* one classical step */
    double k[4][ON], z[ON]; int n = s->n;
    pl_f(s, t, x, k[0]); for (int i = 0; i < n; i++) z[i] = x[i] + h / 2 * k[0][i];
    pl_f(s, t + h / 2, z, k[1]); for (int i = 0; i < n; i++) z[i] = x[i] + h / 2 * k[1][i];
    pl_f(s, t + h / 2, z, k[2]); for (int i = 0; i < n; i++) z[i] = x[i] + h * k[2][i];
    pl_f(s, t + h, z, k[3]); for (int i = 0; i < n; i++) x[i] += h / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
}
static void pl_exact(const struct plant *s, double t0, double t1, double *x) { int m = (int)ceil((t1 - t0) * 400) + 4; for (int k = 0; k < m; k++) pl_rk4(s, t0 + (t1 - t0) * k / m, (t1 - t0) / m, x); }
static void pl_draw(struct plant *s) {
    memset(s, 0, sizeof *s); s->n = op_range(1, ON); double nrm = 0;
    for (int i = 0; i < s->n * s->n; i++) { s->A[i] = op_unit() * 1.5; nrm += s->A[i] * s->A[i]; }
    for (int i = 0; i < s->n; i++) s->b[i] = op_choose(4) ? op_unit() * 2 : 0;
    s->w = (op_unit() + 1) * 2; s->p = op_unit() * 3; s->c = op_choose(2) ? 0.05 : 0; s->Lip = sqrt(nrm);
    if (s->Lip > 3) { for (int i = 0; i < s->n * s->n; i++) s->A[i] *= 3 / s->Lip; s->Lip = 3; }
    s->Lip += 3 * s->c * 9 * 9;
}
static double pl_dist(int n, const double *a, const double *b) { double m = 0; for (int i = 0; i < n; i++) { if (!(fabs(a[i] - b[i]) <= m)) m = fabs(a[i] - b[i]); } return m; }
#define ORDSLACK 4
/* single steps */
enum { I_RK1, I_RK2, I_RK4, I_F, I_CK, I_DP, I_BS, I_N };
static const char *const i_nm[] = {"rk1", "rk2", "rk4", "rkf45", "rkck45", "dorpri45", "rkbs23"};
static const int i_cols[] = {0, 0, 0, 5, 5, 6, 4};
static const int i_ord[I_N][2] = {{1, 1}, {2, 2}, {4, 4}, {4, 5}, {4, 5}, {4, 5}, {2, 3}}; /* lower and higher order of the two results */
struct plug { const struct plant *s; double lo, hi; int calls, bad; };
static void pl_sys(const void *cx, double t, const double *restrict x, double *restrict y) {
    struct plug *g = (struct plug *)(uintptr_t)cx; g->calls++;
    SIM_CHECK(t >= g->lo - 1e-12 && t <= g->hi + 1e-12, "time", "the plant is evaluated at %.12g during a step from %.12g to %.12g", t, g->lo, g->hi);
    pl_f(g->s, t, x, y);
}
static void ode_one(int m, const struct plant *s, double t, double h, const double *x0, double *ra, double *rb) {
    int n = s->n; struct plug g = {s, t, t + h, 0, 0};
    double *x = (double *)malloc(sizeof(double) * (size_t)n), *a = (double *)malloc(sizeof(double) * (size_t)n), *b = (double *)malloc(sizeof(double) * (size_t)n), *k = (double *)malloc(sizeof(double) * (size_t)(n * (i_cols[m] ? i_cols[m] : 1))), d[ON];
    memcpy(x, x0, sizeof(double) * (size_t)n);
    if (m == I_RK1) aa_odestep_rk1((size_t)n, pl_sys, &g, t, h, x, a);
    else if (m == I_RK2) aa_odestep_rk2((size_t)n, pl_sys, &g, t, h, x, a);
    else if (m == I_RK4) aa_odestep_rk4((size_t)n, pl_sys, &g, t, h, x, a);
    else {
        pl_f(s, t, x, k); memcpy(d, k, sizeof(double) * (size_t)n);
        (m == I_F ? aa_odestep_rkf45 : m == I_CK ? aa_odestep_rkck45 : m == I_DP ? aa_odestep_dorpri45 : aa_odestep_rkbs23)((size_t)n, pl_sys, &g, t, h, x, k, a, b);
        SIM_CHECK(!memcmp(d, k, sizeof(double) * (size_t)n), "arguments", "%s changed the first derivative", i_nm[m]);
        if (m == I_DP || m == I_BS) { pl_f(s, t + h, a, d); SIM_CHECK(pl_dist(n, d, k + n * (i_cols[m] - 1)) <= 1e-9, "derivative", "%s: the last derivative is not the one at the result", i_nm[m]); }
    }
    SIM_CHECK(!memcmp(x, x0, sizeof(double) * (size_t)n), "arguments", "%s changed the initial state", i_nm[m]);
    memcpy(ra, a, sizeof(double) * (size_t)n); memcpy(rb, m >= I_F ? b : a, sizeof(double) * (size_t)n);
    free(x); free(a); free(b); free(k);
}
static void ode_steps(void) {
    struct plant s; sim_set_step_limit(400000000); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    pl_draw(&s); double x[ON], t = op_unit() * 5; for (int i = 0; i < s.n; i++) x[i] = op_unit() * 2;
    double x0[ON]; memcpy(x0, x, sizeof x0);
    for (int m = 0; m < I_N; m++) {
        /* the error of one step shrinks with the order plus one: bounded at every size against the scale of the plant, and compared with larger steps
         * (several, as the leading terms may cancel at one of them) */
        double sc = 1 + 1.3 * s.n; for (int i = 0; i < s.n; i++) sc += fabs(x0[i]) + fabs(s.b[i]);
        double L = fmax(s.Lip - 3 * s.c * 81 + 3 * s.c * 16, 0) + s.w + 1, h0 = 0.5 / L, big[2] = {0, 0};
        static const double fr[] = {1, 0.75, 0.4, 0.0625, 0.05};
        for (int r = 0; r < 5; r++) {
            double h = h0 * fr[r], e[2] = {0, 0};
            for (int v = 0; v < 4; v++) {
                double a[ON], b[ON], z[ON], xv[ON], f[2], tv = t + 0.7 * v; for (int i = 0; i < s.n; i++) z[i] = xv[i] = v & 1 ? 1.3 - x0[(i + v) % s.n] : x0[(i + v) % s.n];
                for (int k = 0; k < 64; k++) pl_rk4(&s, tv + h * k / 64, h / 64, z);
                ode_one(m, &s, tv, h, xv, a, b); f[0] = pl_dist(s.n, a, z); f[1] = pl_dist(s.n, b, z);
                if (f[1] > f[0]) { double w = f[0]; f[0] = f[1]; f[1] = w; }
                e[0] = fmax(e[0], f[0]); e[1] = fmax(e[1], f[1]); sim_hash(a, sizeof(double) * (size_t)s.n);
            }
            for (int k = 0; k < 2; k++) {
                double bound = sc * pow(L * h, i_ord[m][k] + 1) * 2 + 1e-13 * sc;
                SIM_CHECK(e[k] <= bound, "order", "%s: a step of %g is off by %g, the %s order allows %g", i_nm[m], h, e[k], k ? "higher" : "lower", bound);
                if (fr[r] >= 0.3) big[k] = fmax(big[k], e[k] / pow(fr[r], i_ord[m][k] + 1));
                else { bound = big[k] * pow(fr[r], i_ord[m][k] + 1) * ORDSLACK + 3e-15 * sc; SIM_CHECK(e[k] <= bound, "order", "%s: a step of %g is off by %g, larger ones of up to %g scaled by %g: too little gained for the %s order", i_nm[m], h, e[k], h0, big[k], k ? "higher" : "lower"); }
            }
        }
    }
    /* linear plants */
    double *A = (double *)malloc(sizeof(double) * (size_t)(s.n * s.n)), B[ON * 2], u[2] = {op_unit(), op_unit()}, y[ON], z[ON]; memcpy(A, s.A, sizeof(double) * (size_t)(s.n * s.n));
    for (int i = 0; i < s.n * 2; i++) B[i] = op_unit();
    double dt = 0.05, d[ON]; for (int i = 0; i < s.n; i++) { d[i] = 0; for (int j = 0; j < s.n; j++) d[i] += A[i + s.n * j] * x0[j]; for (int j = 0; j < 2; j++) d[i] += B[i + s.n * j] * u[j]; }
    aa_lsim_dstep((size_t)s.n, 2, A, B, x0, u, y); SIM_CHECK(pl_dist(s.n, y, d) <= 1e-9, "linear", "aa_lsim_dstep");
    aa_lsim_estep((size_t)s.n, 2, dt, A, B, x0, u, y); for (int i = 0; i < s.n; i++) z[i] = x0[i] + dt * d[i]; SIM_CHECK(pl_dist(s.n, y, z) <= 1e-9, "linear", "aa_lsim_estep");
    struct plant c = s; c.c = 0; c.w = 0; c.p = M_PI / 2; for (int i = 0; i < s.n; i++) c.b[i] = B[i] * u[0] + B[i + s.n] * u[1];
    memcpy(z, x0, sizeof z); pl_rk4(&c, 0, dt, z); aa_lsim_rk4step((size_t)s.n, 2, dt, A, B, x0, u, y); SIM_CHECK(pl_dist(s.n, y, z) <= 1e-9, "linear", "aa_lsim_rk4step");
    aa_sys_affine_t af = {(size_t)s.n, A, c.b}; aa_sys_affine(&af, 0, x0, y); pl_f(&c, 0, x0, z); SIM_CHECK(pl_dist(s.n, y, z) <= 1e-9, "linear", "aa_sys_affine");
    free(A);
}
/* whole integrations */
#define OMAX 3000
struct run { struct plant s; struct plug g; int m, adapt, n, cap, stop, hit[3], nhit, result; double T, h0, t, ref[ON], tol, err, amp; double *log; struct aa_ode_sol_opts o; double x0[ON], tstart; };
static int run_check(void *cx, double t, double *restrict x, double *restrict y) {
    struct run *r = (struct run *)cx; int n = r->s.n; double d[ON];
    SIM_CHECK(t > r->t, "time", "%s: step %d ends at %.12g, the previous one at %.12g", i_nm[r->m], r->n, t, r->t);
    if (!r->adapt) SIM_CHECK(fabs(t - r->t - r->h0) <= 1e-9, "time", "%s: a step of %g instead of %g", i_nm[r->m], t - r->t, r->h0);
    for (int i = 0; i < n; i++) SIM_CHECK(isfinite(x[i]), "accuracy", "%s: state %g at %g", i_nm[r->m], x[i], t);
    pl_f(&r->s, t, x, d); SIM_CHECK(pl_dist(n, d, y) <= 1e-8 * (1 + r->amp), "derivative", "%s at %g: the derivative handed over is off by %g", i_nm[r->m], t, pl_dist(n, d, y));
    double h = t - r->t; pl_exact(&r->s, r->t, t, r->ref);
    /* one step's own error, amplified errors of the earlier ones */
    double one = r->adapt ? sqrt(r->o.adapt_tol_dec) * ((r->s.Lip + r->s.w + 1) * h > 0.5 ? 1000 : 100) : r->tol * 4 * (1 + r->amp / 3); r->err = r->err * exp(r->s.Lip * h) * 2.5 + one; if (r->err > 1e3) r->err = 1e3;
    r->err = fmin(r->err, 1e9);
    double off = pl_dist(n, x, r->ref); r->amp = 0; for (int i = 0; i < n; i++) r->amp = fmax(r->amp, fabs(x[i]));
    SIM_CHECK(off <= r->err, "accuracy", "%s: at %g (step %d of %g) the state is off by %g, allowed %g", i_nm[r->m], t, r->n, h, off, r->err);
    /* what the step itself did, from its own start, is judged without amplification */
    double z[ON]; memcpy(z, r->log + (size_t)r->n * ON, sizeof z); pl_exact(&r->s, r->t, t, z); double loc = pl_dist(n, z, x);
    SIM_CHECK(loc <= one, "accuracy", "%s: the step of %g to %g is off by %g, allowed %g", i_nm[r->m], h, t, loc, one);
    r->n++; memcpy(r->log + (size_t)r->n * ON, x, sizeof(double) * (size_t)n); r->log[(size_t)(r->cap + r->n) * ON] = t;
    for (int k = 0; k < r->nhit; k++) if (r->hit[k] == r->n) { /* a disturbance: the state is elsewhere now */
        for (int i = 0; i < n; i++) if (op_choose(2)) x[i] = op_unit() * 2;
        memcpy(r->ref, x, sizeof(double) * (size_t)n); memcpy(r->log + (size_t)r->n * ON, x, sizeof(double) * (size_t)n); r->err = 0; sim_fault_note(F_CORRUPT);
    }
    r->t = t; r->g.lo = t; r->g.hi = r->adapt ? INFINITY : t + r->h0;
    if (r->n >= r->cap - 1 || r->n >= r->stop || t >= r->tstart + r->T) { memcpy(r->log + (size_t)2 * (size_t)r->cap * ON, x, sizeof(double) * (size_t)n); return r->result; }
    return 0;
}
static void ode_runs(void) {
    struct run *r = (struct run *)calloc(1, sizeof *r); sim_set_step_limit(2000000000ull); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    uint64_t mark = sim_heap_mark(); int big = (int)op_choose(2); aa_mem_region_local_init(big ? 1 << 20 : (size_t)op_range(0, 2000));
    pl_draw(&r->s); int n = r->s.n; r->m = (int)op_choose(I_N); r->adapt = r->m >= I_F;
    for (int i = 0; i < n; i++) r->x0[i] = op_unit() * 2;
    r->tstart = op_choose(2) ? 0 : op_unit() * 10; r->T = 0.2 + (op_unit() + 1) * 1.5; r->h0 = r->adapt ? pow(10, -op_range(1, 4)) : r->m == I_RK1 ? 0.002 : 0.02;
    r->cap = OMAX; r->log = (double *)calloc((size_t)(2 * OMAX + 1) * ON, sizeof(double)); memcpy(r->log, r->x0, sizeof r->x0);
    double te = pow(10, -op_range(6, 9)); r->o.adapt_tol_dec = te * te; r->o.adapt_tol_inc = te * te / (op_choose(2) ? 100 : 1e4); r->o.adapt_factor_dec = op_choose(2) ? 0.5 : 0.1; r->o.adapt_factor_inc = op_choose(2) ? 2 : 1.2;
    r->stop = op_choose(3) ? OMAX : op_range(1, 40); r->result = op_choose(3) ? 1 : op_choose(2) ? 7 : -(int)op_range(1, 5);
    r->nhit = op_range(0, 3); for (int k = 0; k < r->nhit; k++) r->hit[k] = op_range(1, 60);
    r->t = r->tstart; memcpy(r->ref, r->x0, sizeof r->ref); r->g.s = &r->s; r->g.lo = r->t; r->g.hi = r->adapt ? INFINITY : r->t + r->h0;
    double sc = 3 + 9; double L = r->s.Lip + r->s.w + 1; r->tol = sc * 3 * pow(fmin(L, 8) * r->h0, i_ord[r->m][0] + 1);
    static const enum aa_ode_integrator in[] = {AA_ODE_RK1, AA_ODE_RK2, AA_ODE_RK4, AA_ODE_RK45_F, AA_ODE_RK45_CK, AA_ODE_RK45_DP, AA_ODE_RK23_BS};
    double *x0 = (double *)malloc(sizeof(double) * (size_t)n); memcpy(x0, r->x0, sizeof(double) * (size_t)n);
    struct aa_ode_sol_opts o = r->o; struct aa_mem_region *lr = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(lr); int ret;
    if (op_choose(2)) {
        double *x1 = (double *)malloc(sizeof(double) * (size_t)n);
        ret = aa_ode_sol(in[r->m], &o, (size_t)n, pl_sys, &r->g, run_check, r, r->tstart, r->h0, x0, x1);
        SIM_CHECK(!memcmp(x1, r->log + (size_t)2 * OMAX * ON, sizeof(double) * (size_t)n), "result", "%s: the result is not the state at which the integration ended", i_nm[r->m]);
        free(x1);
    } else {
        struct aa_mem_region mine, *reg = op_choose(2) ? lr : &mine; aa_mem_region_init(&mine, (size_t)op_range(1, 3000)); size_t np = 0; double *path = NULL;
        double *pre = (double *)aa_mem_region_alloc(reg, 64); memset(pre, 0x33, 64);
        ret = aa_ode_path(in[r->m], &o, (size_t)n, pl_sys, &r->g, run_check, r, r->tstart, r->h0, x0, reg, &np, &path);
        SIM_CHECK(np == (size_t)r->n + 1, "path", "%s: a path of %zu points over %d steps", i_nm[r->m], np, r->n);
        for (int k = 0; k <= r->n; k++) { int hit = 0; for (int j = 0; j < r->nhit; j++) if (r->hit[j] == k) hit = 1; /* the path has the state before the disturbance */
            if (!hit) SIM_CHECK(!memcmp(path + k * n, r->log + (size_t)k * ON, sizeof(double) * (size_t)n), "path", "%s: point %d of the path is not the state after step %d", i_nm[r->m], k, k); }
        for (int i = 0; i < 64; i++) SIM_CHECK(((unsigned char *)pre)[i] == 0x33, "arguments", "memory of the region changed");
        aa_mem_region_pop(reg, pre); aa_mem_region_destroy(&mine);
    }
    if (big) SIM_CHECK(aa_mem_region_ptr(lr) == top, "scratch", "integration keeps scratch memory");
    SIM_CHECK(r->result > 0 ? ret == 0 : ret == r->result, "result", "%s: returned %d, the check ended with %d", i_nm[r->m], ret, r->result);
    SIM_CHECK(!memcmp(x0, r->x0, sizeof(double) * (size_t)n) && !memcmp(&o, &r->o, sizeof o), "arguments", "%s changed its arguments", i_nm[r->m]);
    SIM_CHECK(r->n < OMAX - 1 || !r->adapt || r->h0 < 1e-3 || r->m == I_BS || r->o.adapt_tol_dec < 1e-15, "progress", "%s: still at %g of %g after %d steps", i_nm[r->m], r->t - r->tstart, r->T, r->n);
    sim_log("%s n %d steps %d evals %d T %g", i_nm[r->m], n, r->n, r->g.calls, r->t - r->tstart); sim_hash(&r->n, sizeof r->n);
    free(x0); free(r->log); free(r); aa_mem_region_local_destroy(); LEAKCHECK(mark, "memory");
}
SIM_SCENARIO("P24", ode_steps, ode_steps, 1);
SIM_SCENARIO("P24", ode_runs, ode_runs, 3);
