/* Workspace control: a simulated control loop with irregular cycles, judged against own kinematics and the limits. */
#include "ikworld.h"
#include <amino/rx/scene_wk.h>
#include <amino/rx/scene_wk_internal.h>
#include <glpk.h>
extern void dgesvd_(const char *, const char *, const int *, const int *, double *, const int *, double *, double *, const int *, double *, const int *, double *, const int *, int *);
/* vectors with a stride, guarded between the elements */
static struct aa_dvec *sv(int n) {
    size_t inc = (size_t)op_range(1, 2), m = n ? (size_t)(n - 1) * inc + 1 : 0;
    struct aa_dvec *v = (struct aa_dvec *)malloc(sizeof *v); double *d = (double *)malloc(sizeof(double) * (m ? m : 1));
    for (size_t i = 0; i < m; i++) d[i] = -9e9;
    aa_dvec_view(v, (size_t)n, d, inc); return v;
}
static struct aa_dvec *svc(int n, const double *x) { struct aa_dvec *v = sv(n); for (int i = 0; i < n; i++) AA_DVEC_REF(v, (size_t)i) = x[i]; return v; }
static void svk(struct aa_dvec *v, const double *want, double *got, const char *nm) {
    for (size_t i = 0; i < v->len; i++) {
        if (want) SIM_CHECK(AA_DVEC_REF(v, i) == want[i], "arguments", "the %s changed", nm);
        if (got) got[i] = AA_DVEC_REF(v, i);
        if (v->inc > 1 && i + 1 < v->len) SIM_CHECK(v->data[i * v->inc + 1] == -9e9, "arguments", "memory between the elements of %s changed", nm);
    }
    free(v->data); free(v);
}
/* the model of one cycle */
struct wk { struct ikw *w; struct aa_rx_wk_opts *o; double q[MAXQ], J[6 * MAXQ], S[6], Js[6 * MAXQ]; int sharp; };
static void wk_jac(struct wk *k) { /* columns from own poses; pseudoinverse as the options ask, from a plain SVD */
    struct ikw *w = k->w; int n = w->ns, m = 6, kk = n < 6 ? n : 6, lw = 512, info; double Et[7];
    m_abs(&w->m, w->sg, k->q, w->tip, Et); memset(k->J, 0, sizeof k->J);
    for (int p = w->tip; p != w->root && p >= 0; p = w->m.f[p].parent) {
        struct m_frame *f = &w->m.f[p]; if (f->type == AA_RX_FRAME_FIXED) continue;
        double E[7], a[3], r[3]; m_abs(&w->m, w->sg, k->q, p, E); mq_rot(E, f->axis, a);
        int c = 0; while (w->sub[c] != (int)aa_rx_sg_config_id(w->sg, f->cfg)) c++;
        double *J = k->J + 6 * c;
        if (f->type == AA_RX_FRAME_PRISMATIC) { memcpy(J + AA_TF_DX_V, a, sizeof a); continue; }
        memcpy(J + AA_TF_DX_W, a, sizeof a);
        for (int i = 0; i < 3; i++) r[i] = Et[4 + i] - E[4 + i];
        J[AA_TF_DX_V] = a[1] * r[2] - a[2] * r[1]; J[AA_TF_DX_V + 1] = a[2] * r[0] - a[0] * r[2]; J[AA_TF_DX_V + 2] = a[0] * r[1] - a[1] * r[0];
    }
    double A[6 * MAXQ], U[36], V[MAXQ * MAXQ], wk[512]; memcpy(A, k->J, sizeof(double) * (size_t)(6 * n));
    dgesvd_("A", "A", &m, &n, A, &m, k->S, U, &m, V, &n, wk, &lw, &info);
    memset(k->Js, 0, sizeof k->Js); k->sharp = 0; double sm = sqrt(fmax(0, k->o->s2min));
    for (int s = 0; s < kk; s++) {
        double x = k->S[s], g;
        if (k->o->s2min > 0) g = x >= sm ? 1 / x : x / (sm * sm);
        else if (k->o->k_dls > 0) g = x / (x * x + k->o->k_dls);
        else { g = x > 1e-6 ? 1 / x : 0; if (x > 1e-13 && x < 1e-3) k->sharp = 1; }
        for (int j = 0; j < n; j++) for (int i = 0; i < 6; i++) k->Js[j + n * i] += g * V[s + n * j] * U[i + 6 * s];
    }
}
static void mv(int r, int c, const double *A, const double *x, double *y) { for (int i = 0; i < r; i++) { y[i] = 0; for (int j = 0; j < c; j++) y[i] += A[i + r * j] * x[j]; } }
/* (I - Js J) d */
static void null_of(const struct wk *k, const double *d, double *y) { double v[6], u[MAXQ]; int n = k->w->ns; mv(6, n, k->J, d, v); mv(n, 6, k->Js, v, u); for (int i = 0; i < n; i++) y[i] = d[i] - u[i]; }
static void near_(const double *a, const double *b, int n, double tol, const char *cls, const char *what) {
    double s = 0; for (int i = 0; i < n; i++) s = fmax(s, fabs(b[i]));
    for (int i = 0; i < n; i++) SIM_CHECK(fabs(a[i] - b[i]) <= tol * (1 + s), cls, "%s: joint %d is %g, expected %g", what, i, a[i], b[i]);
}
/* limits of the change of velocity in one cycle */
static void wk_bounds(const struct wk *k, double dt, const double *dqa, double *lo, double *hi) {
    struct ikw *w = k->w;
    for (int i = 0; i < w->ns; i++) {
        struct m_limit *l = m_lim(&w->m, aa_rx_sg_config_name(w->sg, w->sub[i]), 0); double q = k->q[w->sub[i]];
        lo[i] = -INFINITY; hi[i] = INFINITY; if (!l) continue;
        if (l->has[1]) { lo[i] = l->lo[1] - dqa[i]; hi[i] = l->hi[1] - dqa[i]; }
        if (!l->has[2]) continue;
        lo[i] = fmax(lo[i], l->lo[2] * dt); hi[i] = fmin(hi[i], l->hi[2] * dt);
        if (!l->has[0]) continue; /* braking at the limit of acceleration stops within the limit of position */
        lo[i] = fmax(lo[i], (l->lo[0] - q) / dt - l->hi[2] * dt / 2 - dqa[i]);
        hi[i] = fmin(hi[i], (l->hi[0] - q) / dt - l->lo[2] * dt / 2 - dqa[i]);
    }
}
/* best combination of correction and projected reference for rows within lo..hi; 0: none */
static int wk_best(const struct wk *k, double dt, const double *c, const double *an, const double *lo, const double *hi, double slack, double *obj) {
    int n = k->w->ns; glp_prob *P = glp_create_prob(); glp_set_obj_dir(P, GLP_MAX); glp_add_rows(P, n); glp_add_cols(P, 7);
    int bad = 0, *ix = (int *)malloc(sizeof(int) * 8); double *v = (double *)malloc(sizeof(double) * 8);
    for (int i = 0; i < n; i++) {
        double l = lo[i] - slack * (1 + fabs(lo[i])), h = hi[i] + slack * (1 + fabs(hi[i])); if (l > h) bad = 1;
        glp_set_row_bnds(P, i + 1, isfinite(l) ? isfinite(h) ? l == h ? GLP_FX : GLP_DB : GLP_LO : isfinite(h) ? GLP_UP : GLP_FR, l, h);
        for (int j = 0; j < 7; j++) { ix[j + 1] = j + 1; v[j + 1] = j < 6 ? k->Js[i + n * j] * dt : an[i]; }
        glp_set_mat_row(P, i + 1, 7, ix, v);
    }
    for (int j = 0; j < 7; j++) { double l = j < 6 ? fmin(0, c[j]) : 0, h = j < 6 ? fmax(0, c[j]) : 1; glp_set_col_bnds(P, j + 1, l == h ? GLP_FX : GLP_DB, l, h); glp_set_obj_coef(P, j + 1, j < 6 ? c[j] : 1); }
    glp_smcp pr; glp_init_smcp(&pr); pr.msg_lev = GLP_MSG_OFF;
    int ok = !bad && !glp_simplex(P, &pr) && glp_get_status(P) == GLP_OPT; if (ok) *obj = glp_get_obj_val(P);
    glp_delete_prob(P); free(ix); free(v); return ok;
}
int lp_clp_wrong(int m, int n, const double *A, int ld, const double *bl, const double *bu, const double *c, const double *xl, const double *xu, int min, int want, double opt, double tol);
int lp_lps_wrong(int m, int n, const double *A, int ld, const double *bl, const double *bu, const double *c, const double *xl, const double *xu, int min, int want, double opt, double tol);
/* does the solver, asked without Amino, get this program wrong? */
static int lib_wrong(const struct wk *k, double dt, const double *c, const double *an, const double *lo, const double *hi, int want, double opt) {
    int n = k->w->ns, s = k->o->lp_solver, r; double A[MAXQ * 7], c1[7], xl[7], xu[7];
    if (s != AA_OPT_LP_SOLVER_CLP && s != AA_OPT_LP_SOLVER_LPSOLVE) return 0;
    for (int j = 0; j < 7; j++) { c1[j] = j < 6 ? c[j] : 1; xl[j] = j < 6 ? fmin(0, c[j]) : 0; xu[j] = j < 6 ? fmax(0, c[j]) : 1; for (int i = 0; i < n; i++) A[i + n * j] = j < 6 ? k->Js[i + n * j] * dt : an[i]; }
    r = (s == AA_OPT_LP_SOLVER_CLP ? lp_clp_wrong : lp_lps_wrong)(n, 7, A, n, lo, hi, c1, xl, xu, 0, want, opt, 1e-5);
    if (r) sim_probe("the library itself is wrong");
    return r;
}
static int wk_out(void *info, const char *s) { (void)info; (void)s; return 1; }
static void wk_lc3(struct wk *k, const struct aa_rx_wk_lc3_cx *cx, const struct aa_rx_fk *fk, double dt, const double *dxr, const double *dqa, const double *dqr, double *dq) {
    int n = k->w->ns; double qa[MAXQ], out[MAXQ]; for (int i = 0; i < n; i++) qa[i] = k->q[k->w->sub[i]];
    struct aa_dvec *a = svc(6, dxr), *b = svc(n, qa), *c = svc(n, dqa), *d = svc(n, dqr), *e = svc(n, dq);
    int r = aa_rx_wk_dx2dq_lc3(cx, dt, fk, a, b, c, d, e);
    svk(a, dxr, NULL, "reference"); svk(b, qa, NULL, "configuration"); svk(c, dqa, NULL, "velocity"); svk(d, dqr, NULL, "null space reference"); svk(e, NULL, out, "result");
    sim_log("lc3 dt %g solver %d: %d", dt, (int)k->o->lp_solver, r);
    if (!(dt > 0)) { sim_fault_note(F_CLOCK_JUMP); SIM_CHECK(r, "refuse", "a cycle of %g s is accepted", dt); }
    if (r) SIM_CHECK(!memcmp(out, dq, sizeof(double) * (size_t)n), "refuse", "a failed cycle changed the velocity");
    if (!(dt > 0)) return;
    double lo[MAXQ], hi[MAXQ]; wk_bounds(k, dt, dqa, lo, hi);
    if (!r) for (int i = 0; i < n; i++) {
        double dv = out[i] - dqa[i], t = 1e-6 * (1 + fabs(dqa[i]) + (isfinite(lo[i]) ? fabs(lo[i]) : 0) + (isfinite(hi[i]) ? fabs(hi[i]) : 0));
        SIM_CHECK(dv >= lo[i] - t && dv <= hi[i] + t, "limits", "joint %d changes its velocity %g by %g, allowed %g..%g (dt %g)", i, dqa[i], dv, lo[i], hi[i], dt);
    }
    if (!k->sharp) {
        double cc[7], an[MAXQ], d0[MAXQ], va[6], o1 = 0, o2 = 0, o3; mv(6, n, k->J, dqa, va);
        for (int i = 0; i < 6; i++) cc[i] = (dxr[i] - va[i]) / dt;
        for (int i = 0; i < n; i++) d0[i] = dqr[i] - dqa[i];
        null_of(k, d0, an);
        int tight = wk_best(k, dt, cc, an, lo, hi, -1e-5, &o1), loose = wk_best(k, dt, cc, an, lo, hi, 1e-5, &o3);
        sim_probe(tight ? "feasible" : loose ? "marginal" : "infeasible");
        if (tight && r && lib_wrong(k, dt, cc, an, lo, hi, 1, o1)) return;
        if (!loose && !r && lib_wrong(k, dt, cc, an, lo, hi, 0, 0)) return;
        if (tight) SIM_CHECK(!r, "feasible", "the cycle fails (%d), but velocities within the limits exist (solver %d)", r, (int)k->o->lp_solver);
        if (!loose) SIM_CHECK(r, "infeasible", "the cycle reports success, but no velocities within the limits exist (solver %d)", (int)k->o->lp_solver);
        if (!r && tight && loose) { /* the result is a combination of correction and projection, and as good as any */
            double dv[MAXQ]; for (int i = 0; i < n; i++) dv[i] = out[i] - dqa[i];
            int is = wk_best(k, dt, cc, an, dv, dv, 1e-5, &o2) || wk_best(k, dt, cc, an, dv, dv, 1e-4, &o2);
            SIM_CHECK(is, "combination", "the velocity is no combination of workspace correction and projected reference (solver %d)", (int)k->o->lp_solver);
            if (!(o2 >= o1 - 1e-4 * (1 + fabs(o3))) && lib_wrong(k, dt, cc, an, lo, hi, 1, o1)) { memcpy(dq, out, sizeof(double) * (size_t)n); return; }
            SIM_CHECK(o2 >= o1 - 1e-4 * (1 + fabs(o3)), "optimal", "the velocity achieves %g of %g (solver %d)", o2, o1, (int)k->o->lp_solver);
        }
    }
    if (!r) memcpy(dq, out, sizeof(double) * (size_t)n);
}
static void wk_damped(struct wk *k, const struct aa_rx_fk *fk, const double *dx, const double *dqr, int np, double *dq) {
    int n = k->w->ns; double want[MAXQ], nul[MAXQ], out[MAXQ];
    struct aa_dvec *a = svc(6, dx), *b = svc(n, dqr), *c = sv(n);
    int r = np ? aa_rx_wk_dx2dq_np(k->w->ssg, k->o, fk, a, b, c) : aa_rx_wk_dx2dq(k->w->ssg, k->o, fk, a, c);
    svk(a, dx, NULL, "reference"); svk(b, dqr, NULL, "null space reference"); svk(c, NULL, out, "result");
    SIM_CHECK(!r, "result", "returned %d", r);
    mv(n, 6, k->Js, dx, want); null_of(k, dqr, nul);
    if (np) for (int i = 0; i < n; i++) want[i] += nul[i];
    if (!k->sharp) near_(out, want, n, 1e-6, np ? "null-space" : "velocity", np ? "with projection" : "damped");
    memcpy(dq, out, sizeof(double) * (size_t)n);
}
static void wk_ref(struct wk *k, const double *E, const double *R, const double *ff, double *dx) { /* the correction is along the screw motion that takes two seconds to the reference (at unit gain) */
    double in[6], out[6], v[3], w[3]; memcpy(in, ff, sizeof in);
    struct aa_dvec *a = svc(6, in); double e[7], r[7]; memcpy(e, E, sizeof e); memcpy(r, R, sizeof r);
    aa_rx_wk_dx_pos(k->o, e, r, a);
    SIM_CHECK(!memcmp(e, E, sizeof e) && !memcmp(r, R, sizeof r), "arguments", "the poses changed"); svk(a, NULL, out, "reference");
    for (int i = 0; i < 3; i++) { v[i] = 2 * (out[AA_TF_DX_V + i] - in[AA_TF_DX_V + i]) / k->o->gain_trans; w[i] = 2 * (out[AA_TF_DX_W + i] - in[AA_TF_DX_W + i]) / k->o->gain_angle; }
    double th = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]), q[4], g[7];
    SIM_CHECK(th <= M_PI + 1e-6, "reference", "turns by %g", th);
    for (int i = 0; i < 3; i++) q[i] = th > 1e-9 ? w[i] / th * sin(th / 2) : w[i] / 2;
    q[3] = cos(th / 2); mq_mul(q, E, g);
    /* the twist is constant: the point moves with v = m + w x p */
    double m[3], s1 = th > 1e-4 ? (1 - cos(th)) / (th * th) : .5 - th * th / 24, s2 = th > 1e-3 ? (th - sin(th)) / (th * th * th) : 1. / 6 - th * th / 120, wm[3], wwm[3], p[3];
    const double *t = E + 4;
#define X(a, b, c) do { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; } while (0)
    X(w, t, m); for (int i = 0; i < 3; i++) m[i] = v[i] - m[i];
    X(w, m, wm); X(w, wm, wwm); mq_rot(q, t, p);
    for (int i = 0; i < 3; i++) g[4 + i] = p[i] + m[i] + s1 * wm[i] + s2 * wwm[i];
    SIM_CHECK(m_Eeq(g, R, 1e-5), "reference", "moving along the correction arrives at %g %g %g (%g %g %g %g), the reference is %g %g %g (%g %g %g %g)", g[4], g[5], g[6], g[0], g[1], g[2], g[3], R[4], R[5], R[6], R[0], R[1], R[2], R[3]);
    memcpy(dx, out, sizeof out);
}
static void wk_center(struct wk *k, double *dqr) {
    struct ikw *w = k->w; int n = w->ns; double q[MAXQ], want[MAXQ]; for (int i = 0; i < n; i++) q[i] = k->q[w->sub[i]];
    struct aa_dvec *a = svc(n, q), *b = sv(n); aa_rx_wk_dqcenter(w->ssg, k->o, a, b); svk(a, q, NULL, "configuration"); svk(b, NULL, dqr, "result");
    for (int i = 0; i < n; i++) want[i] = has_lim(w, w->sub[i]) ? k->o->gain_np * ((w->lo[w->sub[i]] + w->hi[w->sub[i]]) / 2 - q[i]) / (w->hi[w->sub[i]] - w->lo[w->sub[i]]) : 0;
    near_(dqr, want, n, 1e-9, "center", "towards the center");
}
static struct aa_rx_wk_opts *wk_opts(void) {
    struct aa_rx_wk_opts *o = aa_rx_wk_opts_create();
    if (op_choose(3) == 2) { static const double s[] = {0, 1e-4, 1e-2}; o->s2min = s[op_choose(3)]; o->k_dls = op_choose(2) ? 1e-3 : 0; }
    if (op_choose(2)) { o->gain_np = 0.5; o->gain_trans = 2; o->gain_angle = 0.25; }
    static const enum aa_opt_lp_solver sv[] = {AA_OPT_LP_SOLVER_DEFAULT, AA_OPT_LP_SOLVER_GLPK, AA_OPT_LP_SOLVER_LPSOLVE, AA_OPT_LP_SOLVER_CLP};
    o->lp_solver = sv[op_choose(4)];
    return o;
}
/* one robot under control for some cycles */
struct wkj { struct ikw *w; uint64_t h; int n; int law; struct aa_rx_wk_opts *o; const struct aa_rx_wk_lc3_cx *cx; double q[MAXQ], dq[MAXQ], goal[7], ff[6], dt[16]; };
static void wk_draw(struct wkj *j, struct ikw *w) {
    memset(j, 0, sizeof *j); j->w = w; j->o = wk_opts();
    for (int i = 0; i < w->nq; i++) { double f = (op_unit() + 1) / 2; if (op_choose(6) == 5) f = op_choose(2) ? 0 : 1; j->q[i] = w->lo[i] + f * (w->hi[i] - w->lo[i]); }
    if (op_choose(3) == 2) for (int i = 0; i < w->ns; i++) j->dq[i] = op_unit();
    double qg[MAXQ]; for (int i = 0; i < w->nq; i++) qg[i] = op_choose(2) ? j->q[i] : w->lo[i] + (op_unit() + 1) / 2 * (w->hi[i] - w->lo[i]);
    m_abs(&w->m, w->sg, qg, w->tip, j->goal); if (op_choose(3) == 2) m_randE(j->goal);
    if (op_choose(2)) for (int i = 0; i < 6; i++) j->ff[i] = op_unit();
    j->n = op_range(1, 10); j->law = (int)op_choose(5);
    double dt0 = op_choose(2) ? 0.01 : 0.1;
    for (int i = 0; i < j->n; i++) { /* late, early and backward cycles */
        static const double f[] = {1, 1, 1, 0.1, 3, 20}; j->dt[i] = dt0 * f[op_choose(6)];
        if (op_choose(20) == 19) j->dt[i] = op_choose(2) ? 0 : -dt0;
    }
}
static void wk_run(struct wkj *j) {
    struct ikw *w = j->w; struct wk k; memset(&k, 0, sizeof k); k.w = w; k.o = j->o; int n = w->ns;
    double dq[MAXQ]; memcpy(dq, j->dq, sizeof dq); memcpy(k.q, j->q, sizeof k.q); j->h = 0; j->cx = aa_rx_wk_lc3_create(w->ssg, j->o);
    size_t live = 0;
    for (int s = 0; s < j->n; s++) {
        double dt = j->dt[s], dx[6], dqr[MAXQ], E[7];
        struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg); (void)top;
        struct aa_dvec qv; double *qq = (double *)malloc(sizeof k.q); memcpy(qq, k.q, sizeof k.q); aa_dvec_view(&qv, (size_t)w->nq, qq, 1);
        struct aa_rx_fk *fk = aa_rx_fk_malloc(w->sg); aa_rx_fk_all(fk, &qv); free(qq);
        wk_jac(&k); m_abs(&w->m, w->sg, k.q, w->tip, E);
        wk_ref(&k, E, j->goal, j->ff, dx);
        wk_center(&k, dqr);
        int law = j->law < 3 ? 2 : j->law == 3 ? (int)(s % 2) : s % 3;
        if (law == 2) wk_lc3(&k, j->cx, fk, dt, dx, dq, dqr, dq); else wk_damped(&k, fk, dx, dqr, law, dq);
        aa_rx_fk_destroy(fk);
        if (dt > 0) for (int i = 0; i < n; i++) k.q[w->sub[i]] += dq[i] * dt;
        for (int i = 0; i < n; i++) { uint64_t b; memcpy(&b, &dq[i], 8); j->h = mixh(j->h, b); if (!(fabs(k.q[w->sub[i]]) < 50)) s = j->n; }
    }
    (void)live;
}
static void wk_close(struct wkj *j) { aa_rx_wk_opts_destroy(j->o); }
static void wk_loop(void) {
    struct ikw w; sim_set_step_limit(400000000); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a); glp_term_hook(wk_out, NULL);
    int big = (int)op_choose(2); aa_mem_region_local_init(big ? 1 << 17 : (size_t)op_range(0, 2000));
    ik_world(&w, 9, 1);
    if (w.ns) {
        int n = op_range(1, 2); struct wkj j[2];
        for (int i = 0; i < n; i++) wk_draw(&j[i], &w);
        struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg);
        for (int i = 0; i < n; i++) { wk_run(&j[i]); if (big) SIM_CHECK(aa_mem_region_ptr(reg) == top, "scratch", "control keeps scratch memory"); }
        for (int i = 0; i < n; i++) wk_close(&j[i]);
    }
    aa_rx_sg_sub_destroy(w.ssg); aa_rx_sg_destroy(w.sg);
    aa_mem_region_local_destroy();
}
static void *wk_thread(void *v) { struct wkj *j = (struct wkj *)v; glp_term_hook(wk_out, NULL); uint64_t h = j->h; wk_run(j); SIM_CHECK(j->h == h, "independent", "a controller computes other velocities on its own thread"); return NULL; }
static void wk_threads(void) {
    struct ikw w; sim_set_step_limit(400000000); sim_sched_swarm(1); sim_set_races(1); glp_term_hook(wk_out, NULL);
    ik_world(&w, 9, 1);
    if (w.ns) {
        struct wkj j[3]; sim_tid t[3]; int n = op_range(2, 3);
        for (int i = 0; i < n; i++) { wk_draw(&j[i], &w); if (j[i].n > 4) j[i].n = 4; wk_run(&j[i]); }
        for (int i = 0; i < n; i++) t[i] = sim_spawn("wk", wk_thread, &j[i]);
        for (int i = 0; i < n; i++) sim_join(t[i]);
        for (int i = 0; i < n; i++) wk_close(&j[i]);
    }
    aa_rx_sg_sub_destroy(w.ssg); aa_rx_sg_destroy(w.sg);
}
SIM_SCENARIO("P21", wk_loop, wk_loop, 4);
SIM_SCENARIO("P21", wk_threads, wk_threads, 1);
