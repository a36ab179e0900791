/* Trajectories played back on a simulated clock that skips, repeats and jumps back. */
#include "util.h"
#include "ikworld.h"
#include <amino/rx/rx_ct.h>
#include <amino/rx/scene_ik.h>
extern void dgesvd_(const char *, const char *, const int *, const int *, double *, const int *, double *, double *, const int *, double *, const int *, double *, const int *, int *);
#include <amino/ct/state.h>
#include <amino/ct/traj.h>
#define CQ 5
#define CP 7
enum { T_LIN, T_TRAP, T_PB };
static const char *const ct_nm[] = {"linear", "trapezoidal", "parabolic blend"};
struct ctw { int kind, nq, np, given; double p[CP][CQ], vlo[CQ], vhi[CQ], alo[CQ], ahi[CQ], scale, vmax, D; struct aa_ct_state lo, hi; struct aa_ct_limit lim; };
static double *ct_dup(const double *x, int n) { double *d = (double *)malloc(sizeof(double) * (size_t)(n ? n : 1)); for (int i = 0; i < n; i++) d[i] = x[i]; return d; }
static void ct_draw(struct ctw *w) {
    memset(w, 0, sizeof *w); w->kind = (int)op_choose(3); w->nq = op_range(1, CQ); w->given = op_range(1, CP);
    static const double sc[] = {1, 1, 1, 0.01, 50}; w->scale = sc[op_choose(5)];
    double vs = sc[op_choose(5)], as = sc[op_choose(5)]; int sym = (int)op_choose(2);
    for (int i = 0; i < w->nq; i++) {
        w->vhi[i] = (op_unit() + 1.3) * vs; w->vlo[i] = -w->vhi[i] * (sym ? 1 : op_unit() * 0.7 + 0.9);
        w->ahi[i] = (op_unit() + 1.3) * as; w->alo[i] = -w->ahi[i] * (sym ? 1 : op_unit() * 0.7 + 0.9);
        w->vmax = fmax(w->vmax, fmax(w->vhi[i], -w->vlo[i]));
    }
    w->lo.n_q = w->hi.n_q = (size_t)w->nq;
    w->lo.dq = ct_dup(w->vlo, w->nq); w->lo.ddq = ct_dup(w->alo, w->nq); w->hi.dq = ct_dup(w->vhi, w->nq); w->hi.ddq = ct_dup(w->ahi, w->nq);
    w->lim.min = &w->lo; w->lim.max = &w->hi;
}
/* the waypoints, through every way to add one; equal neighbours count once */
static struct aa_ct_pt_list *ct_points(struct ctw *w, struct aa_mem_region *reg) {
    struct aa_ct_pt_list *l = aa_ct_pt_list_create(reg);
    for (int k = 0; k < w->given; k++) {
        double q[CQ]; int front = (int)op_choose(6) == 5, at = front ? 0 : w->np, how = (int)op_choose(8);
        const double *nb = w->np ? w->p[front ? 0 : w->np - 1] : NULL;
        for (int i = 0; i < w->nq; i++) q[i] = op_unit() * w->scale;
        if (nb && how == 0) memcpy(q, nb, sizeof(double) * (size_t)w->nq);                       /* the same again */
        if (nb && how == 1) for (int i = 0; i < w->nq; i++) if (op_choose(2)) q[i] = nb[i];      /* some joints rest */
        if (nb && how == 2) for (int i = 0; i < w->nq; i++) q[i] = nb[i] + 1e-4 * op_unit() * w->scale; /* nearby */
        if (!front && w->np > 1 && how == 3) for (int i = 0; i < w->nq; i++) q[i] = 2 * nb[i] - w->p[w->np - 2][i]; /* straight on */
        if (!front && w->np > 1 && how == 4) memcpy(q, w->p[w->np - 2], sizeof q);              /* and back */
        double *b = ct_dup(q, w->nq); struct aa_ct_state s; memset(&s, 0, sizeof s); s.n_q = (size_t)w->nq; s.q = b;
        if (front) aa_ct_pt_list_add_front(l, &s); else if (op_choose(2)) aa_ct_pt_list_add_q(l, (size_t)w->nq, b); else aa_ct_pt_list_add(l, &s);
        free(b);
        int same = nb != NULL; for (int i = 0; same && i < w->nq; i++) if (!(fabs(nb[i] - q[i]) <= AA_EPSILON)) same = 0;
        if (same) continue;
        memmove(w->p[at + 1], w->p[at], sizeof w->p[0] * (size_t)(w->np - at)); memcpy(w->p[at], q, sizeof q); w->np++;
    }
    SIM_CHECK(aa_ct_pt_list_size(l) == (size_t)w->np, "waypoints", "%zu of %d waypoints", aa_ct_pt_list_size(l), w->np);
    const struct aa_ct_state *a = aa_ct_pt_list_start_state(l), *z = aa_ct_pt_list_final_state(l);
    SIM_CHECK(!memcmp(a->q, w->p[0], sizeof(double) * (size_t)w->nq) && !memcmp(z->q, w->p[w->np - 1], sizeof(double) * (size_t)w->nq), "waypoints", "first or last waypoint differs");
    return l;
}
static struct aa_ct_seg_list *ct_make(struct ctw *w, struct aa_mem_region *reg, struct aa_ct_pt_list *l) {
    struct aa_ct_seg_list *s = w->kind == T_LIN ? aa_ct_tjq_lin_generate(reg, l, &w->lim) : w->kind == T_TRAP ? aa_ct_tjq_trap_generate(reg, l, &w->lim) : aa_ct_tjq_pb_generate(reg, l, &w->lim);
    SIM_CHECK(s, "generate", "no %s trajectory over %d waypoints", ct_nm[w->kind], w->np);
    SIM_CHECK(aa_ct_seg_list_n_q(s) == (size_t)w->nq, "generate", "%zu joints of %d", aa_ct_seg_list_n_q(s), w->nq);
    return s;
}
/* one sample, by any of the three ways; values the caller did not ask for come from a full one */
struct cts { int in; double q[CQ], v[CQ], a[CQ]; };
static void ct_full(struct aa_ct_seg_list *l, int n, double t, struct cts *s) {
    struct aa_ct_state st; memset(&st, 0, sizeof st); st.n_q = (size_t)n;
    double z[CQ]; for (int i = 0; i < n; i++) z[i] = NAN;
    st.q = ct_dup(z, n); st.dq = ct_dup(z, n); st.ddq = ct_dup(z, n);
    s->in = aa_ct_seg_list_eval(l, &st, t);
    memcpy(s->q, st.q, sizeof(double) * (size_t)n); memcpy(s->v, st.dq, sizeof(double) * (size_t)n); memcpy(s->a, st.ddq, sizeof(double) * (size_t)n);
    free(st.q); free(st.dq); free(st.ddq);
}
static int ct_near(double a, double b, double tol) { return fabs(a - b) <= tol; }
static void ct_part(struct aa_ct_seg_list *l, int n, double t, const struct cts *want, double tol) {
    int m = op_choose(4) ? n : op_range(1, n), how = (int)op_choose(3); double z[CQ]; for (int i = 0; i < m; i++) z[i] = 77;
    double *q = ct_dup(z, m), *v = how ? ct_dup(z, m) : NULL; int r = how ? aa_ct_seg_list_eval_dq(l, t, (size_t)m, q, v) : aa_ct_seg_list_eval_q(l, t, (size_t)m, q);
    SIM_CHECK(r == want->in, "playback", "at %.9g returned %d for part of the state, %d for all", t, r, want->in);
    if (r) for (int i = 0; i < m; i++) SIM_CHECK(ct_near(q[i], want->q[i], tol) && (!v || ct_near(v[i], want->v[i], tol * 10)), "playback", "at %.9g joint %d: %g %g for part of the state, %g %g for all", t, i, q[i], v ? v[i] : 0, want->q[i], want->v[i]);
    free(q); free(v);
}
static int ct_cmp(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
/* neighbouring samples agree with the limits and with each other */
static void ct_step(const struct ctw *w, double t0, const struct cts *a, double t1, const struct cts *b) {
    double h = t1 - t0, eps = 1e-9 * (w->scale + w->vmax);
    for (int i = 0; i < w->nq; i++) {
        double d = b->q[i] - a->q[i], dv = b->v[i] - a->v[i];
        SIM_CHECK(d <= w->vhi[i] * h * (1 + 1e-6) + eps && d >= w->vlo[i] * h * (1 + 1e-6) - eps, "velocity", "%s: joint %d moves by %g in %g s from %.9g on (limits %g %g)", ct_nm[w->kind], i, d, h, t0, w->vlo[i], w->vhi[i]);
        if (w->kind == T_LIN) continue;
        SIM_CHECK(dv <= w->ahi[i] * h * (1 + 1e-6) + eps && dv >= w->alo[i] * h * (1 + 1e-6) - eps, "acceleration", "%s: joint %d changes its velocity by %g in %g s from %.9g on (limits %g %g)", ct_nm[w->kind], i, dv, h, t0, w->alo[i], w->ahi[i]);
        SIM_CHECK(ct_near(d, h * (a->v[i] + b->v[i]) / 2, (w->ahi[i] - w->alo[i]) * h * h / 4 + eps), "derivative", "%s: joint %d moves by %g in %g s from %.9g on, its velocities are %g and %g", ct_nm[w->kind], i, d, h, t0, a->v[i], b->v[i]);
    }
}
static void ct_sample(const struct ctw *w, double t, const struct cts *s) {
    double eps = 1e-9 * (w->scale + w->vmax);
    for (int i = 0; i < w->nq; i++) {
        SIM_CHECK(isfinite(s->q[i]) && isfinite(s->v[i]), "finite", "%s at %.9g: joint %d is at %g, velocity %g", ct_nm[w->kind], t, i, s->q[i], s->v[i]);
        SIM_CHECK(s->v[i] <= w->vhi[i] * (1 + 1e-6) + eps && s->v[i] >= w->vlo[i] * (1 + 1e-6) - eps, "velocity", "%s at %.9g: joint %d has velocity %g (limits %g %g)", ct_nm[w->kind], t, i, s->v[i], w->vlo[i], w->vhi[i]);
        if (w->kind == T_LIN) { SIM_CHECK(s->a[i] == 0, "acceleration", "linear at %.9g: acceleration %g", t, s->a[i]); continue; }
        SIM_CHECK(s->a[i] <= w->ahi[i] * (1 + 1e-6) + eps && s->a[i] >= w->alo[i] * (1 + 1e-6) - eps, "acceleration", "%s at %.9g: joint %d has acceleration %g (limits %g %g)", ct_nm[w->kind], t, i, s->a[i], w->alo[i], w->ahi[i]);
    }
}
/* time of the leg when each joint moves alone */
static double ct_leg(const struct ctw *w, int k, int rest) {
    double T = 0;
    for (int i = 0; i < w->nq; i++) {
        double d = w->p[k + 1][i] - w->p[k][i], v = d < 0 ? -w->vlo[i] : w->vhi[i], a = fmin(-w->alo[i], w->ahi[i]), t; d = fabs(d);
        if (!rest) t = d / v; else t = d * a > v * v ? d / v + v / a : 2 * sqrt(d / a);
        T = fmax(T, t);
    }
    return T;
}
/* along the straight lines, one after the other: which fraction of which leg may be done (-1: cannot be there) */
static double ct_long(const struct ctw *w, int k) { double L = 0; for (int i = 0; i < w->nq; i++) L = fmax(L, fabs(w->p[k + 1][i] - w->p[k][i])); return L; }
static void ct_legs(const struct ctw *w, double t, double h, const struct cts *s, double *at, double eps) {
    double now[CP], best = 9e99; int any = 0;
    for (int k = 0; k + 1 < w->np; k++) {
        double dd = 0, dp = 0, off = 0, L = ct_long(w, k); for (int i = 0; i < w->nq; i++) { double d = w->p[k + 1][i] - w->p[k][i]; dd += d * d; dp += d * (s->q[i] - w->p[k][i]); }
        double g = dp / dd; if (g > 1) g = 1; if (g < 0) g = 0; now[k] = -1;
        for (int i = 0; i < w->nq; i++) off = fmax(off, fabs(s->q[i] - w->p[k][i] - g * (w->p[k + 1][i] - w->p[k][i])));
        best = fmin(best, off); if (off > 10 * eps) continue;
        for (int j = k; j >= 0; j--) if (at[j] >= 0) {
            double left = j == k ? 0 : (1 - at[j]) * ct_long(w, j) + g * L; for (int m = j + 1; m < k; m++) left += ct_long(w, m);
            if (j == k ? g >= at[j] - 20 * eps / L : left <= w->vmax * h * (1 + 1e-6) + 20 * eps) { now[k] = g; any = 1; break; }
        }
    }
    SIM_CHECK(any || w->np < 2, "path", "%s: at %.9g off the path by %g or not on the next leg", ct_nm[w->kind], t, best);
    memcpy(at, now, sizeof(double) * (size_t)(w->np > 1 ? w->np - 1 : 0));
}
struct ctcheck { const struct ctw *w; struct aa_ct_seg_list *l; int n, stop, ret; double dt, tol; };
static int ct_visit(void *v, double t, const struct aa_ct_state *s) {
    struct ctcheck *c = (struct ctcheck *)v;
    SIM_CHECK(ct_near(t, c->n * c->dt, 1e-9 * (1 + t)), "check", "visited %.9g as step %d of %g", t, c->n, c->dt);
    struct cts e; ct_full(c->l, c->w->nq, t, &e);
    for (int i = 0; i < c->w->nq; i++) SIM_CHECK(ct_near(s->q[i], e.q[i], c->tol) && ct_near(s->dq[i], e.v[i], c->tol * 10), "check", "visited at %.9g with joint %d at %g, it is at %g", t, i, s->q[i], e.q[i]);
    return c->n++ == c->stop ? c->ret : 0;
}
static void ct_joint(void) {
    struct ctw w; sim_set_step_limit(400000000); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    int big = (int)op_choose(2); uint64_t mark = sim_heap_mark();
    aa_mem_region_local_init(big ? 1 << 15 : (size_t)op_range(0, 2000));
    struct aa_mem_region reg; aa_mem_region_init(&reg, (size_t)op_range(1, 3000));
    ct_draw(&w); struct aa_ct_pt_list *pts = ct_points(&w, &reg); int n = w.nq;
    struct aa_ct_seg_list *A = ct_make(&w, &reg, pts), *B = ct_make(&w, &reg, pts);
    if (op_choose(2)) { aa_ct_pt_list_destroy(pts); pts = NULL; }
    double D = aa_ct_seg_list_duration(A), eps = 1e-9 * (w.scale + w.vmax), ideal = 0; w.D = D;
    for (int k = 0; k + 1 < w.np; k++) ideal += ct_leg(&w, k, w.kind != T_LIN);
    SIM_CHECK(isfinite(D) && D >= 0, "duration", "%s: lasts %g", ct_nm[w.kind], D);
    if (w.kind == T_LIN) SIM_CHECK(ct_near(D, ideal, 1e-9 * (1 + D)), "duration", "linear: lasts %g, at the limits %g", D, ideal);
    else SIM_CHECK(D <= (w.kind == T_PB ? 1e8 : 4) * ideal + 1e-9, "duration", "%s: lasts %g, each leg alone from rest to rest %g", ct_nm[w.kind], D, ideal);
    sim_log("%s nq %d np %d D %g ideal %g", ct_nm[w.kind], n, w.np, D, ideal); sim_hash(&D, sizeof D);
    /* the ends */
    struct cts s, e; ct_full(A, n, 0, &s); SIM_CHECK(s.in == AA_CT_SEG_IN, "ends", "not inside at 0");
    ct_full(A, n, D, &e); SIM_CHECK(e.in == AA_CT_SEG_IN, "ends", "%s: not inside at the duration %.17g", ct_nm[w.kind], D);
    for (int i = 0; i < n; i++) {
        SIM_CHECK(ct_near(s.q[i], w.p[0][i], eps), "ends", "%s: joint %d starts at %g instead of %g", ct_nm[w.kind], i, s.q[i], w.p[0][i]);
        SIM_CHECK(ct_near(e.q[i], w.p[w.np - 1][i], eps), "ends", "%s: joint %d ends at %g instead of %g", ct_nm[w.kind], i, e.q[i], w.p[w.np - 1][i]);
        if (w.kind != T_LIN) SIM_CHECK(ct_near(s.v[i], 0, eps) && ct_near(e.v[i], 0, 1e-7 * w.vmax), "ends", "%s: joint %d has velocity %g at the start, %g at the end", ct_nm[w.kind], i, s.v[i], e.v[i]);
    }
    ct_full(A, n, -1e-6 * (1 + D), &s); SIM_CHECK(s.in == AA_CT_SEG_OUT, "ends", "inside before the start");
    ct_full(A, n, D + 1e-6 * (1 + D), &s); SIM_CHECK(s.in == AA_CT_SEG_OUT, "ends", "inside after the end");
    /* in order, densely */
    enum { N = 300 }; double T[N + 2]; struct cts S[N + 2];
    for (int k = 0; k <= N; k++) T[k] = op_choose(3) ? D * k / N : D * (op_unit() + 1) / 2;
    T[0] = 0; T[N] = D; qsort(T, N + 1, sizeof T[0], ct_cmp);
    double at[CP]; for (int i = 0; i < CP; i++) at[i] = -1; at[0] = 0;
    for (int k = 0; k <= N; k++) {
        ct_full(B, n, T[k], &S[k]); SIM_CHECK(S[k].in == AA_CT_SEG_IN, "ends", "%s: not inside at %.17g of %.17g", ct_nm[w.kind], T[k], D);
        ct_sample(&w, T[k], &S[k]); if (k) ct_step(&w, T[k - 1], &S[k - 1], T[k], &S[k]);
        if (w.kind != T_PB) ct_legs(&w, T[k], k ? T[k] - T[k - 1] : 0, &S[k], at, eps);
    }
    if (w.kind != T_PB && w.np > 1) SIM_CHECK(at[w.np - 2] >= 0, "path", "%s: does not end on the last leg", ct_nm[w.kind]);
    /* on a clock that jumps */
    for (int k = 0, m = op_range(1, 60); k < m; k++) {
        uint32_t c = op_choose(8);
        if (c == 7) { double t = op_choose(2) ? -D * op_unit() * op_unit() - 1e-3 : D * 1.01 + 1e-3; ct_full(A, n, fabs(t) <= D && t > 0 ? -t - 1e-3 : t, &s); sim_fault_note(F_CLOCK_JUMP); continue; }
        int j = (int)op_choose(N + 1); ct_full(A, n, T[j], &s); if (k) sim_fault_note(F_CLOCK_JUMP);
        SIM_CHECK(s.in == AA_CT_SEG_IN, "playback", "%s: not inside at %.9g of %.9g when asked after another time", ct_nm[w.kind], T[j], D);
        for (int i = 0; i < n; i++) SIM_CHECK(ct_near(s.q[i], S[j].q[i], eps) && ct_near(s.v[i], S[j].v[i], 10 * eps), "playback", "%s: at %.9g joint %d is at %g (velocity %g), when played in order at %g (%g)", ct_nm[w.kind], T[j], i, s.q[i], s.v[i], S[j].q[i], S[j].v[i]);
        if (!op_choose(4)) ct_part(A, n, T[j], &S[j], eps);
    }
    /* the checkers */
    if (D > 0) {
        struct aa_mem_region *lr = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(lr);
        double dt = D / (double)op_range(1, 40), s1 = 0, c1 = 0; for (int i = 0; i < n; i++) s1 += fmax(w.vhi[i], -w.vlo[i]);
        int r = aa_ct_seg_list_check_c0(A, dt, s1 * dt * 1.001 + eps, n * 100 * eps);
        SIM_CHECK(!r, "check", "%s: declared discontinuous (%d)", ct_nm[w.kind], r);
        int steps = 0; for (double t = 0; t + dt <= D; t += dt) { struct cts x, y; ct_full(B, n, t, &x); ct_full(B, n, t + dt, &y); if (!x.in || !y.in) break; double d = 0; for (int i = 0; i < n; i++) d += fabs(y.q[i] - x.q[i]); c1 = fmax(c1, d); steps++; }
        if (c1 > 100 * n * eps) { r = aa_ct_seg_list_check_c0(A, dt, c1 * 0.9, n * 100 * eps); SIM_CHECK(r == 1, "check", "%s: steps of %g are declared smaller than %g (%d)", ct_nm[w.kind], c1, c1 * 0.9, r); }
        struct ctcheck c = {&w, B, 0, op_choose(2) ? -1 : (int)op_choose((uint32_t)(D / dt) + 1), op_choose(2) ? 5 : -3, dt, eps};
        r = aa_ct_seg_list_check(A, dt, ct_visit, &c);
        if (c.stop < 0) SIM_CHECK(!r && abs(c.n - (int)floor(D / dt) - 1) <= 1, "check", "visited %d steps of %g of %g, returned %d", c.n, dt, D, r);
        else SIM_CHECK(r == c.ret || c.n == c.stop, "check", "visited %d steps, rejected step %d, returned %d", c.n, c.stop, r);
        if (big) SIM_CHECK(aa_mem_region_ptr(lr) == top, "scratch", "a checker keeps scratch memory");
    }
    if (pts) aa_ct_pt_list_destroy(pts);
    aa_ct_seg_list_destroy(A); aa_ct_seg_list_destroy(B); aa_mem_region_destroy(&reg);
    free(w.lo.dq); free(w.lo.ddq); free(w.hi.dq); free(w.hi.ddq);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "memory");
}
/* poses */
struct ctx { int in; double X[7], V[6]; };
static void ct_pose(struct aa_ct_seg_list *l, double t, struct ctx *s) {
    struct aa_ct_state st; memset(&st, 0, sizeof st); double z[7] = {NAN, NAN, NAN, NAN, NAN, NAN, NAN};
    st.X = ct_dup(z, 7); st.dX = ct_dup(z, 6); if (op_choose(2)) { st.n_q = (size_t)op_range(1, 9); st.q = (double *)calloc(st.n_q, sizeof(double)); st.eff = (double *)calloc(st.n_q, sizeof(double)); }
    s->in = aa_ct_seg_list_eval(l, &st, t); memcpy(s->X, st.X, sizeof s->X); memcpy(s->V, st.dX, sizeof s->V);
    free(st.X); free(st.dX); free(st.q); free(st.eff);
}
static void ct_work(void) {
    sim_set_step_limit(400000000); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    uint64_t mark = sim_heap_mark(); aa_mem_region_local_init((size_t)op_range(0, 2000));
    struct aa_mem_region reg; aa_mem_region_init(&reg, (size_t)op_range(1, 3000));
    int slerp = (int)op_choose(2), np = slerp ? 2 : op_range(1, 5); double E[5][7], lo[12], hi[12], sc = op_choose(3) ? 1 : 0.05;
    struct aa_ct_pt_list *pts = aa_ct_pt_list_create(&reg);
    for (int k = 0; k < np; k++) {
        m_randE(E[k]); uint32_t c = op_choose(6);
        if (k && c == 0) memcpy(E[k], E[k - 1], 4 * sizeof(double));
        if (k && c == 1) memcpy(E[k] + 4, E[k - 1] + 4, 3 * sizeof(double));
        if (k && c == 2) for (int i = 0; i < 4; i++) E[k][i] = -E[k - 1][i];
        if (k && c == 3) for (int i = 0; i < 7; i++) E[k][i] = E[k - 1][i];
        if (k && c == 3) { E[k][4] += 0.01; double r[4] = {sin(0.01), 0, 0, cos(0.01)}, q[4]; mq_mul(r, E[k], q); memcpy(E[k], q, sizeof q); }
        double *b = ct_dup(E[k], 7);
        if (op_choose(2)) aa_ct_pt_list_add_qutr(pts, b); else { struct aa_ct_state s; memset(&s, 0, sizeof s); s.X = b; aa_ct_pt_list_add(pts, &s); }
        free(b);
    }
    for (int i = 0; i < 6; i++) { hi[i] = (op_unit() + 1.2) * sc; lo[i] = -hi[i]; hi[6 + i] = (op_unit() + 1.2) * sc; lo[6 + i] = -hi[6 + i]; }
    struct aa_ct_state smin, smax; memset(&smin, 0, sizeof smin); memset(&smax, 0, sizeof smax); smin.dX = lo; smin.ddX = lo + 6; smax.dX = hi; smax.ddX = hi + 6;
    struct aa_ct_limit lim = {&smin, &smax};
    struct aa_ct_seg_list *A = slerp ? aa_ct_tjx_slerp_generate(&reg, pts) : aa_ct_tjX_pb_generate(&reg, pts, &lim), *B = slerp ? aa_ct_tjx_slerp_generate(&reg, pts) : aa_ct_tjX_pb_generate(&reg, pts, &lim);
    if (slerp && aa_ct_pt_list_size(pts) < 2) { SIM_CHECK(!A && !B, "generate", "an interpolation between one pose"); aa_ct_pt_list_destroy(pts); aa_mem_region_destroy(&reg); aa_mem_region_local_destroy(); LEAKCHECK(mark, "memory"); return; }
    SIM_CHECK(A && B, "generate", "no trajectory of poses");
    if (op_choose(2)) { aa_ct_pt_list_destroy(pts); pts = NULL; }
    const char *nm = slerp ? "slerp" : "pose blend";
    double D = aa_ct_seg_list_duration(A), wmax = 0; SIM_CHECK(isfinite(D) && D >= 0, "duration", "%s: lasts %g", nm, D); sim_log("%s np %d D %g", nm, np, D);
    for (int i = 3; i < 6; i++) wmax += hi[i] * hi[i]; wmax = sqrt(wmax);
    struct ctx s, e; ct_pose(A, 0, &s); ct_pose(A, D, &e);
    SIM_CHECK(s.in == AA_CT_SEG_IN && e.in == AA_CT_SEG_IN, "ends", "%s: not inside at 0 or %g", nm, D);
    SIM_CHECK(m_Eeq(s.X, E[0], 1e-6) && m_Eeq(e.X, E[np - 1], 1e-6), "ends", "%s: does not run from the first pose to the last", nm);
    ct_pose(A, -1e-6 * (1 + D), &s); SIM_CHECK(s.in == AA_CT_SEG_OUT, "ends", "%s: inside before the start", nm);
    ct_pose(A, D + 1e-6 * (1 + D), &s); SIM_CHECK(s.in == AA_CT_SEG_OUT, "ends", "%s: inside after the end", nm);
    for (int k = 0, m = D > 1e-9 ? op_range(5, 60) : 0; k < m; k++) {
        double t = D * (op_unit() + 1) / 2, h = 1e-4 * D; if (t + 2 * h > D) t = D - 2 * h; if (t < h) t = h;
        struct ctx a, b, c, o; ct_pose(A, t, &a); ct_pose(B, t, &b); if (k) sim_fault_note(F_CLOCK_JUMP);
        SIM_CHECK(a.in == AA_CT_SEG_IN && b.in == AA_CT_SEG_IN, "playback", "%s: not inside at %.9g of %.9g", nm, t, D);
        SIM_CHECK(m_Eeq(a.X, b.X, 1e-9), "playback", "%s: at %.9g poses differ", nm, t);
        double qq = 0; for (int i = 0; i < 4; i++) qq += a.X[i] * a.X[i]; SIM_CHECK(ct_near(qq, 1, 1e-6), "finite", "%s: at %.9g quaternion of norm² %g", nm, t, qq);
        ct_pose(B, t + h, &c); ct_pose(B, t - h, &o); SIM_CHECK(c.in && o.in, "playback", "%s: not inside at %.9g of %.9g", nm, t + h, D);
        double qc[4] = {-o.X[0], -o.X[1], -o.X[2], o.X[3]}, r[4], v[3], w[3], vn = 0; mq_mul(c.X, qc, r); if (r[3] < 0) for (int i = 0; i < 4; i++) r[i] = -r[i];
        for (int i = 0; i < 3; i++) { v[i] = (c.X[4 + i] - o.X[4 + i]) / (2 * h); w[i] = 2 * r[i] / (2 * h); vn += w[i] * w[i]; }
        if (!slerp) {
            for (int i = 0; i < 3; i++) SIM_CHECK(fabs(v[i]) <= hi[i] * (1 + 1e-4) + 1e-8, "velocity", "%s: at %.9g velocity %g, limit %g", nm, t, v[i], hi[i]);
            SIM_CHECK(sqrt(vn) <= wmax * (1 + 1e-3) + 1e-7, "velocity", "%s: at %.9g turns at %g, limits allow %g", nm, t, sqrt(vn), wmax);
        }
        /* the reported velocity is the derivative; the acceleration bends it a little */
        double tv = slerp ? 1e-5 : 2 * h * sc * 2.2 + 1e-6, tw = slerp ? 1e-4 : 2 * h * (sc * 2.2 * 3 + wmax * wmax * 4) + 1e-5;
        for (int i = 0; i < 3; i++) {
            SIM_CHECK(ct_near(a.V[AA_TF_DX_V + i], v[i], tv), "derivative", "%s: at %.9g velocity %g, the pose moves at %g", nm, t, a.V[AA_TF_DX_V + i], v[i]);
            SIM_CHECK(ct_near(a.V[AA_TF_DX_W + i], w[i], tw), "derivative", "%s: at %.9g angular velocity %g, the pose turns at %g", nm, t, a.V[AA_TF_DX_W + i], w[i]);
        }
    }
    if (pts) aa_ct_pt_list_destroy(pts);
    aa_ct_seg_list_destroy(A); aa_ct_seg_list_destroy(B); aa_mem_region_destroy(&reg);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "memory");
}
/* states: every array is its own, of the right size, and clones are equal and separate */
static void ct_state(void) {
    uint64_t mark = sim_heap_mark(); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a); struct aa_mem_region reg; aa_mem_region_init(&reg, (size_t)op_range(1, 3000));
    size_t n = (size_t)op_range(0, 9), f = (size_t)op_range(0, 6); struct aa_ct_state *s = aa_ct_state_alloc(&reg, n, f), c, *o = aa_ct_state_alloc(&reg, n, f);
    double *a[2][9] = {{s->q, s->dq, s->ddq, s->eff, s->X, s->dX, s->ddX, s->TF_abs, s->TF_rel}, {o->q, o->dq, o->ddq, o->eff, o->X, o->dX, o->ddX, o->TF_abs, o->TF_rel}}; size_t len[9] = {n, n, n, n, 7, 6, 6, 7 * f, 7 * f};
    SIM_CHECK(s->n_q == n && s->n_tf == f, "state", "sizes");
    for (int j = 0; j < 2; j++) for (int k = 0; k < 9; k++) for (size_t i = 0; i < len[k]; i++) a[j][k][i] = 1000 * j + 100 * k + (double)i;
    for (int j = 0; j < 2; j++) for (int k = 0; k < 9; k++) for (size_t i = 0; i < len[k]; i++) SIM_CHECK(a[j][k][i] == 1000 * j + 100 * k + (double)i, "state", "array %d overlaps another", k);
    memset(&c, 0x5a, sizeof c); aa_ct_state_clone(&reg, &c, s);
    double *b[9] = {c.q, c.dq, c.ddq, c.eff, c.X, c.dX, c.ddX, c.TF_abs, c.TF_rel};
    SIM_CHECK(c.n_q == n && c.n_tf == f, "state", "sizes of a clone");
    SIM_CHECK(aa_ct_state_eq(&c, s) && aa_ct_state_eq(s, &c), "state", "a clone is not equal");
    for (int k = 0; k < 9; k++) for (size_t i = 0; i < len[k]; i++) { SIM_CHECK(b[k] != a[0][k] && b[k][i] == a[0][k][i], "state", "array %d of a clone differs", k); b[k][i] = -1; }
    for (int j = 0; j < 2; j++) for (int k = 0; k < 9; k++) for (size_t i = 0; i < len[k]; i++) SIM_CHECK(a[j][k][i] == 1000 * j + 100 * k + (double)i, "state", "array %d of a clone overlaps another", k);
    double E[7] = {1, 2, 3, 4, 5, 6, 7}; aa_ct_state_set_qutr(s, E); SIM_CHECK(!memcmp(s->X, E, sizeof E), "state", "pose");
    int k = (int)op_choose(9); struct aa_ct_state x = *o; if (len[k] && k != 3 && k < 7) { aa_ct_state_clone(&reg, &x, o); double *y[9] = {x.q, x.dq, x.ddq, x.eff, x.X, x.dX, x.ddX}; y[k][op_choose((uint32_t)len[k])] += 0.5; SIM_CHECK(!aa_ct_state_eq(&x, o), "state", "states with different array %d are equal", k); }
    aa_mem_region_destroy(&reg); LEAKCHECK(mark, "memory");
}
/* a robot follows a trajectory of poses */
static double ct_minsv(struct ikw *w, const double *q) {
    double Et[7], J[6 * MAXQ], S[6], wk[512]; int m = 6, n = w->ns, lw = 512, info, one = 1; if (n < 6) return 0; memset(J, 0, sizeof J);
    m_abs(&w->m, w->sg, q, w->tip, Et);
    for (int p = w->tip; p != w->root && p >= 0; p = w->m.f[p].parent) {
        struct m_frame *f = &w->m.f[p]; if (f->type == AA_RX_FRAME_FIXED) continue;
        double E[7], a[3], r[3]; m_abs(&w->m, w->sg, q, p, E); mq_rot(E, f->axis, a); int c = 0; while (w->sub[c] != (int)aa_rx_sg_config_id(w->sg, f->cfg)) c++;
        if (f->type == AA_RX_FRAME_PRISMATIC) { memcpy(J + 6 * c, a, sizeof a); continue; }
        memcpy(J + 6 * c + 3, a, sizeof a); for (int i = 0; i < 3; i++) r[i] = Et[4 + i] - E[4 + i];
        J[6 * c] = a[1] * r[2] - a[2] * r[1]; J[6 * c + 1] = a[2] * r[0] - a[0] * r[2]; J[6 * c + 2] = a[0] * r[1] - a[1] * r[0];
    }
    dgesvd_("N", "N", &m, &n, J, &m, S, NULL, &one, NULL, &one, wk, &lw, &info); return S[5];
}
static void ct_follow(void) {
    struct ikw w; sim_set_step_limit(2000000000ull); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a); uint64_t mark = sim_heap_mark();
    int big = (int)op_choose(2); aa_mem_region_local_init(big ? 1 << 17 : (size_t)op_range(0, 2000)); ik_world(&w, 9, op_choose(2) ? 3 : 1);
    struct aa_mem_region *lr = aa_mem_region_local_get(), mine, *reg = op_choose(3) ? &mine : lr; aa_mem_region_init(&mine, (size_t)op_range(1, 3000)); char *first = (char *)aa_mem_region_alloc(reg, 16);
    /* limits */
    struct aa_ct_limit *l1 = aa_rx_ct_limits(reg, w.sg), *l2 = aa_rx_ct_sg_limits(reg, w.sg);
    for (int k = 0; k < 2; k++) for (int i = 0; i < w.nq; i++) {
        struct aa_ct_limit *l = k ? l2 : l1; struct m_limit *m = m_lim(&w.m, aa_rx_sg_config_name(w.sg, i), 0);
        double *a[4] = {l->min->q, l->min->dq, l->min->ddq, l->min->eff}, *b[4] = {l->max->q, l->max->dq, l->max->ddq, l->max->eff};
        for (int d = 0; d < 3; d++) { int h = m && m->has[d]; SIM_CHECK(a[d][i] == (h ? m->lo[d] : -INFINITY) && b[d][i] == (h ? m->hi[d] : INFINITY), "limits", "joint %d, derivative %d: limits %g %g", i, d, a[d][i], b[d][i]); }
        SIM_CHECK(a[3][i] == -INFINITY && b[3][i] == INFINITY, "limits", "joint %d: effort limits %g %g", i, a[3][i], b[3][i]);
    }
    if (w.ns) {
        double q0[MAXQ], q1[MAXQ], E0[7], E1[7]; for (int i = 0; i < w.nq; i++) { q0[i] = w.lo[i] + (0.5 + 0.25 * op_unit()) * (w.hi[i] - w.lo[i]); q1[i] = q0[i]; }
        for (int i = 0; i < w.ns; i++) q1[w.sub[i]] += 0.15 * op_unit();
        m_abs(&w.m, w.sg, q0, w.tip, E0); m_abs(&w.m, w.sg, q1, w.tip, E1); if (op_choose(8) == 7) m_randE(E1);
        int slerp = (int)op_choose(2); double lo[12], hi[12]; for (int i = 0; i < 12; i++) { hi[i] = 0.5; lo[i] = -0.5; }
        struct aa_ct_state smin, smax; memset(&smin, 0, sizeof smin); memset(&smax, 0, sizeof smax); smin.dX = lo; smin.ddX = lo + 6; smax.dX = hi; smax.ddX = hi + 6; struct aa_ct_limit lim = {&smin, &smax};
        struct aa_ct_pt_list *pts = aa_ct_pt_list_create(reg); aa_ct_pt_list_add_qutr(pts, E0); aa_ct_pt_list_add_qutr(pts, E1);
        struct aa_ct_seg_list *segs = slerp ? aa_ct_tjx_slerp_generate(reg, pts) : aa_ct_tjX_pb_generate(reg, pts, &lim); aa_ct_pt_list_destroy(pts);
        if (segs) {
            struct aa_rx_ik_parm *o = aa_rx_ik_parm_create(); double dt = op_choose(2) ? 0.02 : 0.01, D = aa_ct_seg_list_duration(segs), *path = NULL, *qs = ct_dup(q0, w.nq); aa_rx_ik_parm_set_dt(o, dt); size_t np = 0;
            if (D > 30) { dt = D / 1000; aa_rx_ik_parm_set_dt(o, dt); }
            void *mid = aa_mem_region_ptr(lr); int r = aa_rx_ct_tjx_path(reg, o, w.ssg, segs, (size_t)w.nq, qs, &np, &path);
            SIM_CHECK(!r, "follow", "returned %d", r); SIM_CHECK(!memcmp(qs, q0, sizeof(double) * (size_t)w.nq), "arguments", "the start changed");
            if (big && reg != lr) SIM_CHECK(aa_mem_region_ptr(lr) == mid, "scratch", "following keeps scratch memory");
            SIM_CHECK(np >= 2 && fabs((double)(np - 1) - ceil(D / dt)) <= 1.01, "follow", "%zu points of %g s for %g s", np, dt, D);
            char *later = (char *)aa_mem_region_alloc(lr, 4000); memset(later, 0x77, 4000); /* somebody else's temporaries */
            double q[MAXQ]; memcpy(q, q0, sizeof q); int good = 1; double worst = 0; double jump = 0; if (slerp) for (int i = 0; i < 7; i++) jump = fmax(jump, 0.01 * fabs(E1[i] - E0[i])); /* slerp starts and stops at once */
            if (ct_minsv(&w, q) >= 0.12) sim_probe("good start");
            for (size_t k = 0; k < np; k++) {
                for (int i = 0; i < w.ns; i++) {
                    double x = q[w.sub[i]] = path[(int)k * w.ns + i], a = l1->min->q[w.sub[i]], b = l1->max->q[w.sub[i]]; SIM_CHECK(isfinite(x) && x >= a - 1e-12 && x <= b + 1e-12, "follow", "point %zu: joint %d is at %g (limits %g %g)", k, i, x, a, b);
                    if (k == 0) SIM_CHECK(x == q0[w.sub[i]], "follow", "starts at %g instead of %g", x, q0[w.sub[i]]);
                    if (x == a || x == b || (k && fabs(x - path[(int)(k - 1) * w.ns + i]) > 0.1)) good = 0; /* nor when moving fast */
                }
                if (!good || ct_minsv(&w, q) < 0.12) { good = 0; continue; } /* from a singularity or limit on anything goes */
                struct aa_ct_state st; memset(&st, 0, sizeof st); double X[7], E[7], t = fmin((double)k * dt, D); st.X = X; int in = aa_ct_seg_list_eval(segs, &st, t); SIM_CHECK(in, "follow", "trajectory not inside at %g of %g", t, D);
                m_abs(&w.m, w.sg, q, w.tip, E); double e = 0, s = 0; for (int i = 0; i < 3; i++) e = fmax(e, fabs(E[4 + i] - X[4 + i])); for (int i = 0; i < 4; i++) s += E[i] * X[i]; e = fmax(e, 2 * acos(fmin(1, fabs(s))));
                worst = fmax(worst, e); SIM_CHECK(e <= (1e-2 + jump) * dt / 0.02 + (k + 1 >= np ? dt * 3 : 0) + 1e-6, "follow", "%s point %zu of %zu: %g off the trajectory (smallest singular value %g)", slerp ? "slerp" : "blend", k, np, e, ct_minsv(&w, q));
            }
            struct aa_ct_pt_list *l = aa_rx_ct_pt_list(reg, (size_t)w.ns, np, path); const double *lastp = path; size_t kept = 1; /* equal neighbours count once */
            for (size_t k = 1; k < np; k++) { int same = 1; for (int i = 0; i < w.ns; i++) if (!(fabs(path[(int)k * w.ns + i] - lastp[i]) <= AA_EPSILON)) same = 0; if (!same) { kept++; lastp = path + (int)k * w.ns; } }
            SIM_CHECK(aa_ct_pt_list_size(l) == kept, "path", "%zu waypoints of %zu, %zu differ", aa_ct_pt_list_size(l), np, kept);
            const struct aa_ct_state *ps = aa_ct_pt_list_start_state(l), *pz = aa_ct_pt_list_final_state(l);
            SIM_CHECK(ps->n_q == (size_t)w.ns && !memcmp(ps->q, path, sizeof(double) * (size_t)w.ns) && !memcmp(pz->q, lastp, sizeof(double) * (size_t)w.ns), "path", "waypoints of a path"); aa_ct_pt_list_destroy(l);
            if (good && np) sim_probe("followed to the end"); sim_log("worst %g", worst);
            aa_rx_ik_parm_destroy(o); free(qs); aa_ct_seg_list_destroy(segs);
        }
    }
    aa_mem_region_pop(reg, first);
    aa_mem_region_destroy(&mine); aa_rx_sg_sub_destroy(w.ssg); aa_rx_sg_destroy(w.sg); aa_mem_region_local_destroy(); LEAKCHECK(mark, "memory");
}
SIM_SCENARIO("P22", ct_state, ct_state, 1);
SIM_SCENARIO("P22", ct_follow, ct_follow, 2);
SIM_SCENARIO("P22", ct_joint, ct_joint, 2);
SIM_SCENARIO("P22", ct_work, ct_work, 1);
