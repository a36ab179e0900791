/* Inverse kinematics contexts: histories of starts, seeds, goals and solves against own forward kinematics. */
#include "ikworld.h"
#include <amino/rx/scene_ik.h>
#include <amino/rx/scene_wk.h>
struct ikc { double lent[4][MAXQ];
    struct ikw *w; struct aa_rx_ik_parm *ko; struct aa_rx_ik_cx *cx;
    int algo, obj, eq, frame; double tang, ttr, start[MAXQ], seed[MAXQ], restart; size_t maxit;
    int tuned;             /* tolerances of the objective changed */
};
static __thread long g_evals; static __thread int g_big; /* scratch never grows */
static double ang(const double *a, const double *b) {
    double c[4] = {-a[0], -a[1], -a[2], a[3]}, r[4]; mq_mul(c, b, r);
    return 2 * atan2(sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]), fabs(r[3]));
}
static void pose(struct ikc *c, const double *qs, double *E) {
    double q[MAXQ]; memcpy(q, c->start, sizeof q);
    for (int k = 0; k < c->w->ns; k++) q[c->w->sub[k]] = qs[k];
    m_abs(&c->w->m, c->w->sg, q, c->frame, E);
}
/* objectives whose gradient is checked on the way */
static aa_rx_ik_opt_fun *const objs[] = {aa_rx_ik_opt_err_qlnpv, (aa_rx_ik_opt_fun *)aa_rx_ik_opt_err_dqln, aa_rx_ik_opt_err_trans, aa_rx_ik_opt_err_jcenter,
    aa_rx_ik_opt_err_qlnpv_fd, aa_rx_ik_opt_err_dqln_fd, aa_rx_ik_opt_err_trans_fd};
static double chk(int o, void *vcx, const double *q, double *dq) {
    struct kin_solve_cx *k = (struct kin_solve_cx *)vcx; size_t n = k->q_sub->len;
    g_evals++;
    double in[MAXQ], f0; memcpy(in, q, n * sizeof *in);
    f0 = objs[o](vcx, q, NULL);
    if (!dq) return f0;
    struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg);
    double f = objs[o](vcx, q, dq);
    if (g_big && aa_mem_region_ptr(reg) != top) sim_violation("scratch", "objective %d keeps scratch memory", o);
    for (size_t i = 0; i < n; i++) if (!(fabs(q[i]) < 20)) return f; /* an unbounded line search: differences lose all digits */
    SIM_CHECK(f == f0, "objective", "objective %d is %.17g without and %.17g with its gradient", o, f0, f);
    SIM_CHECK(!memcmp(in, q, n * sizeof *in), "objective", "objective %d changed its argument", o);
    if (g_evals > 60) return f;
    for (size_t i = 0; i < n; i++) {
        double qq[MAXQ], h = 1e-5; memcpy(qq, q, n * sizeof *qq);
        qq[i] = q[i] + h; double a = objs[o](vcx, qq, NULL); qq[i] = q[i] - h; double b = objs[o](vcx, qq, NULL);
        double d = (a - b) / (2 * h), d2 = (a - 2 * f + b) / h; /* one-sided difference: a kink nearby is not judged */
        if (fabs(d2) < 1e-3 && !(fabs(d - dq[i]) <= 1e-4 * (1 + fabs(d) + fabs(f)))) sim_violation("gradient", "objective %d: derivative %zu is %g, by differences %g (value %g)", o, i, dq[i], d, f);
    }
    objs[o](vcx, q, NULL);
    return f;
}
#define W(k) static double chk##k(void *v, const double *q, double *dq) { return chk(k, v, q, dq); }
W(0) W(1) W(2) W(3) W(4) W(5) W(6)
static aa_rx_ik_opt_fun *const wobjs[] = {chk0, chk1, chk2, chk3, chk4, chk5, chk6};

/* a reference configuration, its gains or a seed: copied, handed over or lent */
static void ik_take(struct ikc *c, struct ikw *w, int what) {
    enum aa_mem_refop how = (enum aa_mem_refop[]){AA_MEM_COPY, AA_MEM_STEAL, AA_MEM_BORROW}[op_choose(3)];
    size_t n = (size_t)(what == 2 ? w->nq : w->ns);
    double *q = how == AA_MEM_STEAL ? (double *)malloc(sizeof *q * (n + 1)) : c->lent[what];
    if (how == AA_MEM_COPY) q = c->lent[3];
    for (size_t i = 0; i < n; i++) q[i] = what == 1 ? 0.05 * (double)op_choose(4) : op_unit();
    if (what == 0) aa_rx_ik_parm_take_config(c->ko, n, q, how); else if (what == 1) aa_rx_ik_parm_take_gain_config(c->ko, n, q, how); else aa_rx_ik_parm_take_seed(c->ko, n, q, how);
    if (how == AA_MEM_COPY) memset(q, 0xff, sizeof *q * n); /* the caller's again: not a number */
}
static void ik_open(struct ikc *c, struct ikw *w, int check) {
    memset(c, 0, sizeof *c); c->w = w;
    c->ko = aa_rx_ik_parm_create();
    c->tang = .1 * M_PI / 180; c->ttr = .1e-3; c->maxit = 1000;
    c->algo = op_choose(4) == 3;
    if (c->algo) { aa_rx_ik_parm_set_algo(c->ko, AA_RX_IK_JPINV); aa_rx_ik_parm_set_tol_dq(c->ko, op_choose(2) ? 1e-2 : 1e-3); c->maxit = 200; aa_rx_ik_parm_set_max_iterations(c->ko, 200); if (op_choose(2)) aa_rx_ik_parm_set_dt(c->ko, 0.1); }
    if (op_choose(4) == 3) { c->tang = 0.02; aa_rx_ik_parm_set_tol_angle(c->ko, c->tang); }
    if (op_choose(4) == 3) { c->ttr = 0.01; aa_rx_ik_parm_set_tol_trans(c->ko, c->ttr); }
    if (op_choose(6) == 5) { c->maxit = (size_t)op_range(1, 30); aa_rx_ik_parm_set_max_iterations(c->ko, c->maxit); }
    c->obj = 0; c->eq = -1;
    if (!c->algo) {
        static const int pick[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 6}; c->obj = pick[op_choose(10)];
        if (c->obj == 3) { c->eq = (int)op_choose(2); aa_rx_ik_parm_set_eqct(c->ko, check ? wobjs[c->eq] : objs[c->eq], 1e-9); }
        if (c->obj || check) aa_rx_ik_parm_set_obj(c->ko, check ? wobjs[c->obj] : objs[c->obj]);
    } else if (op_choose(3) == 2) { if (op_choose(2)) aa_rx_ik_parm_center_configs(c->ko, w->ssg, 0.1); else for (int k = op_range(1, 2); k > 0; k--) { ik_take(c, w, 0); ik_take(c, w, 1); } }
    if (op_choose(6) == 5) { if (op_choose(2)) ik_take(c, w, 2); else aa_rx_ik_parm_center_seed(c->ko, w->ssg); }
    c->frame = w->tip;
    int path[NN], n = 0; for (int p = w->tip; p != w->root && p >= 0; p = w->m.f[p].parent) path[n++] = p;
    int how = (int)op_choose(4), f = op_choose(4) == 3 ? path[op_choose((uint32_t)n)] : w->tip;
    if (check) f = w->tip; /* gradients are for the end of the chain */
    if (how == 1) { aa_rx_ik_parm_set_frame(c->ko, aa_rx_sg_frame_id(w->sg, m_names[f])); c->frame = f; }
    c->cx = aa_rx_ik_cx_create(w->ssg, c->ko);
    if (how == 2) { aa_rx_ik_set_frame_name(c->cx, m_names[f]); c->frame = f; }
    if (how == 3) { aa_rx_ik_set_frame_id(c->cx, aa_rx_sg_frame_id(w->sg, m_names[f])); c->frame = f; }
    for (int k = 0; k < w->ns; k++) c->seed[k] = has_lim(w, w->sub[k]) ? (w->lo[w->sub[k]] + w->hi[w->sub[k]]) / 2 : 0;
}
static void ik_state(struct ikc *c) {
    struct aa_dvec *s = aa_rx_ik_get_start(c->cx), *e = aa_rx_ik_get_seed(c->cx);
    SIM_CHECK(s->len == (size_t)c->w->nq && e->len == (size_t)c->w->ns, "state", "start has %zu and seed %zu values", s->len, e->len);
    for (int k = 0; k < c->w->nq; k++) SIM_CHECK(AA_DVEC_REF(s, (size_t)k) == c->start[k], "state", "start value %d is %g, expected %g", k, AA_DVEC_REF(s, (size_t)k), c->start[k]);
    for (int k = 0; k < c->w->ns; k++) SIM_CHECK(fabs(AA_DVEC_REF(e, (size_t)k) - c->seed[k]) < 1e-12, "state", "seed value %d is %g, expected %g", k, AA_DVEC_REF(e, (size_t)k), c->seed[k]);
    SIM_CHECK(aa_rx_ik_get_restart_time(c->cx) == c->restart, "state", "restart time");
}
static void ik_close(struct ikc *c) { aa_rx_ik_cx_destroy(c->cx); aa_rx_ik_parm_destroy(c->ko); }
static void rand_sub(struct ikw *w, double *q) { for (int k = 0; k < w->ns; k++) { double u = (op_unit() + 1) / 2; int s = w->sub[k]; q[k] = w->lo[s] + u * (w->hi[s] - w->lo[s]); } }
static void ik_set(struct ikc *c) {
    struct ikw *w = c->w; double b[MAXQ * 2]; memset(b, 0, sizeof b);
    switch (op_choose(6)) {
    case 0: case 1: {
        int inc = 1 + (int)op_choose(2);
        for (int k = 0; k < w->nq; k++) { c->start[k] = op_unit() * 2; b[k * inc] = c->start[k]; }
        struct aa_dvec v = AA_DVEC_INIT((size_t)w->nq, b, (size_t)inc); aa_rx_ik_set_start(c->cx, &v); memset(b, 0x77, sizeof b); break; }
    case 2: case 3: {
        rand_sub(w, c->seed); if (op_choose(4) == 3) for (int k = 0; k < w->ns; k++) c->seed[k] += op_unit() * 4;
        memcpy(b, c->seed, sizeof c->seed);
        struct aa_dvec v = AA_DVEC_INIT((size_t)w->ns, b, 1); aa_rx_ik_set_seed(c->cx, &v); memset(b, 0x77, sizeof b); break; }
    case 4: if (op_choose(2)) { aa_rx_ik_set_seed_center(c->cx); for (int k = 0; k < w->ns; k++) c->seed[k] = has_lim(w, w->sub[k]) ? (w->lo[w->sub[k]] + w->hi[w->sub[k]]) / 2 : 0; }
        else { aa_rx_ik_set_seed_rand(c->cx); for (int k = 0; k < w->ns; k++) { c->seed[k] = AA_DVEC_REF(aa_rx_ik_get_seed(c->cx), (size_t)k); int s = w->sub[k]; if (has_lim(w, s)) SIM_CHECK(c->seed[k] >= w->lo[s] && c->seed[k] <= w->hi[s], "seed", "random seed value %d is %g, limits %g..%g", k, c->seed[k], w->lo[s], w->hi[s]); } } break;
    case 5: { static const double rt[] = {0, 0.002, 0.02, 0}; c->restart = rt[op_choose(4)]; aa_rx_ik_set_restart_time(c->cx, c->restart); break; }
    }
    ik_state(c);
}
/* does q solve it?  1 yes, 0 no, -1 too close to the tolerance to tell */
static int ok_pose(struct ikc *c, const double *q, const double *E) {
    double P[7], d = 0; pose(c, q, P);
    for (int k = 4; k < 7; k++) d += (P[k] - E[k]) * (P[k] - E[k]);
    d = sqrt(d); double a = ang(P, E);
    a /= 2; /* the library measures the angle of the quaternion */
    if (a > c->tang * 1.001 + 1e-7 || d > c->ttr * 1.001 + 1e-9) return 0;
    if (a < c->tang * 0.999 - 1e-7 && d < c->ttr * 0.999 - 1e-9) return 1;
    return -1;
}
static int in_lim(struct ikc *c, const double *q, double tol) {
    for (int k = 0; k < c->w->ns; k++) { int s = c->w->sub[k]; if (has_lim(c->w, s) && (q[k] < c->w->lo[s] - tol || q[k] > c->w->hi[s] + tol)) return k + 1; }
    return 0;
}
static int ik_solve1(struct ikc *c, const double *E, double *q) {
    struct ikw *w = c->w; double Eb[7]; memcpy(Eb, E, sizeof Eb);
    struct aa_dmat TF = AA_DMAT_INIT(7, 1, Eb, 7); struct aa_dvec qv = AA_DVEC_INIT((size_t)w->ns, q, 1);
    struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg);
    int64_t t0 = sim_now_ns(); g_evals = 0;
    int r = op_choose(8) == 7 ? aa_rx_ik_jac_solve((struct aa_rx_ik_jac_cx *)c->cx, 1, Eb, 7, (size_t)w->ns, q) : aa_rx_ik_solve(c->cx, &TF, &qv);
    double el = (double)(sim_now_ns() - t0) * 1e-9;
    sim_log("solve %s/%d: %d after %g s, restart %g", c->algo ? "jpinv" : "sqp", c->obj, r, el, c->restart);
    SIM_CHECK(!g_big || aa_mem_region_ptr(reg) == top, "scratch", "a solve that returned %d keeps scratch memory", r);
    SIM_CHECK(!memcmp(Eb, E, sizeof Eb), "state", "solving changed the goal");
    ik_state(c);
    if (!c->algo && c->obj == 0 && g_evals) SIM_CHECK(g_evals <= (long)c->maxit || c->restart > 0, "iterations", "%ld evaluations, limit %zu", g_evals, c->maxit);
    SIM_CHECK(el < c->restart + 0.15, "deadline", "solving took %g s with %g s for restarts", el, c->restart);
    if (!r) {
        double P[7]; pose(c, q, P);
        SIM_CHECK(ok_pose(c, q, E), "pose", "a solution %g rad and (%g %g %g) away is reported, tolerances %g rad, %g", ang(P, E) / 2, P[4] - E[4], P[5] - E[5], P[6] - E[6], c->tang, c->ttr);
        int b = in_lim(c, q, 1e-9);
        SIM_CHECK(!b, "limits", "solution value %d is %g, limits %g..%g", b - 1, q[b - 1], w->lo[w->sub[b - 1]], w->hi[w->sub[b - 1]]);
    } else SIM_CHECK(r & AA_RX_NO_IK, "code", "failure code %d", r);
    return r;
}
static void ik_check1(struct ikc *c, const double *q, const double *E) {
    double Eb[7], qb[MAXQ]; memcpy(Eb, E, sizeof Eb); memcpy(qb, q, sizeof qb);
    struct aa_dmat TF = AA_DMAT_INIT(7, 1, Eb, 7); struct aa_dvec qv = AA_DVEC_INIT((size_t)c->w->ns, qb, 1);
    struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg);
    int r = aa_rx_ik_check(c->cx, &TF, &qv), want = ok_pose(c, q, E);
    SIM_CHECK(!g_big || aa_mem_region_ptr(reg) == top, "scratch", "checking keeps scratch memory");
    if (want >= 0) SIM_CHECK((r == 0) == want, "check", "aa_rx_ik_check returned %d for a configuration that %s the goal", r, want ? "reaches" : "misses");
    ik_state(c);
}
static void ik_goal(struct ikc *c, double *q, double *E, int *reach) {
    rand_sub(c->w, q); pose(c, q, E); *reach = 1;
    switch (op_choose(6)) { case 4: E[4 + op_choose(3)] += 50; *reach = 0;
        for (int p = c->frame; p >= 0; p = c->w->m.f[p].parent) if (c->w->m.f[p].type == AA_RX_FRAME_PRISMATIC && !m_lim(&c->w->m, c->w->m.f[p].cfg, 0)) *reach = -1; /* a slide without ends */
        break; case 5: for (int i = 0; i < 4; i++) E[i] = -E[i]; break; default:; }
}
static void ik_bad(struct ikc *c, const double *E) {
    double q[MAXQ + 1], T[14]; memcpy(T, E, 56); memcpy(T + 7, E, 56);
    struct aa_mem_region *reg = aa_mem_region_local_get(); void *top = aa_mem_region_ptr(reg); int r;
    int k = (int)op_choose(3); sim_fault_note(F_BAD_ARG);
    struct aa_dmat TF = AA_DMAT_INIT(7, 1, T, 7); struct aa_dvec qv = AA_DVEC_INIT((size_t)c->w->ns, q, 1);
    if (k == 0) qv.len++; else if (k == 1) TF.cols = 2; else TF.rows = 6;
    r = aa_rx_ik_solve(c->cx, &TF, &qv);
    SIM_CHECK(r & AA_RX_INVALID_PARAMETER, "code", "a request with wrong sizes returned %d", r);
    SIM_CHECK(!g_big || aa_mem_region_ptr(reg) == top, "scratch", "a refused request keeps scratch memory");
}
static void ik_history(void) {
    static struct ikw w; uint64_t mark = sim_heap_mark();
    g_big = (int)op_choose(2);
    aa_mem_region_local_init(g_big ? (size_t)1 << 18 : (size_t)op_range(0, 400)); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    sim_set_step_limit(200000000);
    ik_world(&w, 6, 0);
    if (w.ns) {
        struct ikc c[2]; int n = op_range(1, 2), chkd = (int)op_choose(3) == 2;
        for (int i = 0; i < n; i++) ik_open(&c[i], &w, chkd);
        for (int s = op_range(1, 6); s > 0; s--) {
            struct ikc *p = &c[op_choose((uint32_t)n)]; double E[7], g[MAXQ], q[MAXQ], q2[MAXQ]; int reach;
            for (int k = op_range(0, 3); k > 0; k--) ik_set(p);
            ik_goal(p, g, E, &reach);
            if (op_choose(8) == 7) ik_bad(p, E);
            memset(q, 0xff, sizeof q);
            int r = ik_solve1(p, E, q);
            if (!r) ik_check1(p, q, E);
            ik_check1(p, g, E);
            for (int k = 0; k < w.ns; k++) q2[k] = g[k] + op_unit() * (op_choose(2) ? 1e-4 : 0.1);
            ik_check1(p, q2, E);
            SIM_CHECK(reach || r, "pose", "a goal out of reach is reached");
            int live = reach > 0 && p->restart > 0.01 && (p->algo ? w.ns == 1 && !p->ko->q_ref : p->obj < 2) && p->maxit >= 200 && p->frame == w.tip;
            if (reach <= 0) sim_probe("goal out of reach");
            else if (!r) { sim_probe(p->algo ? "solved by jpinv" : "solved by sqp"); if (live) sim_probe(p->algo ? "restarts sufficed for jpinv" : "restarts sufficed for sqp"); }
            else if (live) { /* random restarts: a longer time must do */
                sim_probe(p->algo ? "longer restarts for jpinv" : "longer restarts for sqp");
                double old = p->restart; aa_rx_ik_set_restart_time(p->cx, p->restart = 0.5);
                SIM_CHECK(!ik_solve1(p, E, q2), "progress", "a goal within reach is missed by %s in spite of %g s of restarts", p->algo ? "jpinv" : "sqp", p->restart);
                aa_rx_ik_set_restart_time(p->cx, p->restart = old);
            }
            else sim_probe(p->algo ? "missed by jpinv" : "missed by sqp");
            if (p->restart == 0) {
                memset(q2, 0xff, sizeof q2);
                int r2 = ik_solve1(p, E, q2);
                SIM_CHECK(r2 == r && !memcmp(q, q2, sizeof(double) * (size_t)w.ns), "repeatable", "solving again returned %d after %d, value 0 is %.17g after %.17g", r2, r, q2[0], q[0]);
            }
        }
        for (int i = 0; i < n; i++) ik_close(&c[i]);
    }
    aa_rx_sg_sub_destroy(w.ssg); aa_rx_sg_destroy(w.sg);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
/* ---- contexts on several threads give the answers they give alone */
struct ikj { struct ikw *w; struct ikc c; double E[3][7], q[3][MAXQ]; int r[3], n; };
static void ik_job(struct ikj *j, int verify) {
    aa_mem_region_local_init((size_t)64);
    for (int k = 0; k < j->n; k++) {
        double q[MAXQ], Eb[7]; memset(q, 0xff, sizeof q); memcpy(Eb, j->E[k], sizeof Eb);
        struct aa_dmat TF = AA_DMAT_INIT(7, 1, Eb, 7); struct aa_dvec qv = AA_DVEC_INIT((size_t)j->w->ns, q, 1);
        int r = aa_rx_ik_solve(j->c.cx, &TF, &qv);
        if (!verify) { j->r[k] = r; memcpy(j->q[k], q, sizeof q); }
        else SIM_CHECK(r == j->r[k] && !memcmp(q, j->q[k], sizeof(double) * (size_t)j->w->ns), "interference", "solve %d on a thread returned %d (alone %d), value 0 is %.17g (alone %.17g)", k, r, j->r[k], q[0], j->q[k][0]);
    }
    aa_mem_region_local_destroy();
}
static void *ik_thread(void *p) { ik_job((struct ikj *)p, 1); return NULL; }
static void ik_threads(void) {
    static struct ikw w; static struct ikj j[3]; uint64_t mark = sim_heap_mark();
    sim_set_step_limit(200000000); sim_sched_swarm(1); sim_set_races(1);
    aa_mem_region_local_init((size_t)op_range(0, 400)); sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    ik_world(&w, 6, 0);
    if (w.ns) {
        int n = op_range(2, 3), share = (int)op_choose(2); sim_tid t[3];
        for (int i = 0; i < n; i++) {
            j[i].w = &w; j[i].n = op_range(1, 3);
            if (i && share) { j[i].c = j[0].c; } /* a context is const while it solves */
            else { ik_open(&j[i].c, &w, 0); aa_rx_ik_parm_set_max_iterations(j[i].c.ko, j[i].c.algo ? 30 : 100); ik_set(&j[i].c); aa_rx_ik_set_restart_time(j[i].c.cx, 0); }
            for (int k = 0; k < j[i].n; k++) { double g[MAXQ]; int x; ik_goal(&j[i].c, g, j[i].E[k], &x); }
        }
        aa_mem_region_local_destroy();
        for (int i = 0; i < n; i++) ik_job(&j[i], 0);
        for (int i = 0; i < n; i++) t[i] = sim_spawn("ik", ik_thread, &j[i]);
        for (int i = 0; i < n; i++) sim_join(t[i]);
        aa_mem_region_local_init(64);
        for (int i = 0; i < n; i++) if (!i || !share) ik_close(&j[i].c);
    }
    aa_rx_sg_sub_destroy(w.ssg); aa_rx_sg_destroy(w.sg);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P19", ik_history, ik_history, 4);
SIM_SCENARIO("P19", ik_threads, ik_threads, 1);
