/* Calls whose arguments do not fit together: reported to the handler before anything is touched. */
#include "sgmodel.h"
#include <amino/mat.h>
#include <amino/tf.h>
#include <amino/diffeq.h>
#include <amino/rx/scene_wk.h>
#include <setjmp.h>
#define AR 1200
struct fit { double a[AR], copy[AR]; int top; jmp_buf jb; int armed, count; char msg[80]; };
static __thread struct fit *cur;
static void on_err(const char *m) { struct fit *f = cur; if (!f) sim_violation("spurious", "the error handler was called in a thread that called nothing wrong: %s", m); f->count++; snprintf(f->msg, sizeof f->msg, "%s", m ? m : "(null)"); if (!f->armed) sim_violation("spurious", "a call whose arguments fit was refused: %s", m); longjmp(f->jb, 1); }
static double *take(struct fit *f, int n) { double *p = f->a + f->top; f->top += n + 2; SIM_CHECK(f->top < AR, "harness", "arena too small"); return p; }
static struct aa_dvec vv(struct fit *f, int n) { int inc = op_range(1, 3); double *p = take(f, n * inc); struct aa_dvec v = AA_DVEC_INIT((size_t)n, p, (size_t)inc); return v; }
static struct aa_dmat mm(struct fit *f, int r, int c) { int ld = r + op_range(0, 2); if (!ld) ld = 1; double *p = take(f, ld * c); struct aa_dmat m = AA_DMAT_INIT((size_t)r, (size_t)c, p, (size_t)ld); return m; }
/* one size is wrong: d[bad] differs from what it should be */
static int off(int n) { int k; do k = n + op_range(-2, 3); while (k == n || k < 0); return k; }
#define D(i, n) (bad == (i) ? off(n) : (n))
struct scene { struct m_sg m; struct aa_rx_sg *sg; struct aa_rx_sg_sub *sub; struct aa_rx_fk *fk; struct aa_rx_wk_opts *wk; int all, ns; };
static struct scene *mk_scene(void) { /* a chain with joints */
    static struct scene S; memset(&S, 0, sizeof S);
    for (;;) { S.sg = m_build(&S.m, 2, 6); aa_rx_sg_init(S.sg); int t = m_pick_live(&S.m); S.sub = aa_rx_sg_chain_create(S.sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(S.sg, m_names[t])); S.ns = (int)aa_rx_sg_sub_config_count(S.sub); S.all = m_ncfg(&S.m); int k = op_choose(40) == 0; if (S.ns) break; aa_rx_sg_sub_destroy(S.sub); aa_rx_sg_destroy(S.sg);
        if (k) { memset(&S.m, 0, sizeof S.m); S.sg = aa_rx_sg_create(); static const double id[4] = {0, 0, 0, 1}, z[3] = {0, 0, 1}; aa_rx_sg_add_frame_revolute(S.sg, "", "a", id, z, "q", z, 0); struct m_frame *f = &S.m.f[7]; f->live = 1; f->parent = -1; f->type = AA_RX_FRAME_REVOLUTE; strcpy(f->cfg, "q"); aa_rx_sg_init(S.sg); S.sub = aa_rx_sg_chain_create(S.sg, AA_RX_FRAME_ROOT, 0); S.ns = S.all = 1; break; } }
    double q[NN]; m_randcfg(q, S.all); struct aa_dvec v = AA_DVEC_INIT((size_t)S.all, q, 1); S.fk = aa_rx_fk_malloc(S.sg); aa_rx_fk_all(S.fk, &v); S.wk = aa_rx_wk_opts_create(); return &S;
}
static void rm_scene(struct scene *S) { aa_rx_wk_opts_destroy(S->wk); aa_rx_fk_destroy(S->fk); aa_rx_sg_sub_destroy(S->sub); aa_rx_sg_destroy(S->sg); }
#define CALL(...) do { if (f->armed) { memcpy(f->copy, f->a, sizeof f->a); if (!setjmp(f->jb)) { __VA_ARGS__; f->armed = 2; } } else { __VA_ARGS__; } } while (0)
static double fit_scalar(void *cx, const struct aa_dvec *x) { (void)cx; return aa_dvec_dot(x, x); }
static void fit_vector(void *cx, const struct aa_dvec *x, struct aa_dvec *y) { (void)cx; for (size_t i = 0; i < y->len; i++) AA_DVEC_REF(y, i) = AA_DVEC_REF(x, i % x->len); }
/* make one call, with (bad >= 0) or without an argument that does not fit; returns its name */
static const char *names[] = {"aa_dvec_swap", "aa_dvec_copy", "aa_dvec_axpy", "aa_dvec_dot", "aa_dvec_ssd", "aa_dmat_gemv", "aa_dmat_gemm", "aa_dmat_lacpy", "aa_dmat_copy", "aa_dmat_ssd", "aa_dmat_axpy", "aa_dmat_trans", "aa_dmat_inv", "aa_dmat_pinv", "aa_dmat_dpinv", "aa_dmat_dzdpinv", "aa_dvec_slice", "aa_dmat_row_vec", "aa_dmat_col_vec", "aa_dmat_block", "aa_tf_qln_jac", "aa_tf_duqu_ln_jac",
    "aa_rx_sg_sub_config_scatter", "aa_rx_sg_sub_config_gather", "aa_rx_sg_sub_center_configv", "aa_rx_sg_sub_rand_config", "aa_rx_fk_all", "aa_rx_fk_sub", "aa_rx_sg_sub_jac_twist_fill2", "aa_rx_sg_sub_jac_vel_fill2", "aa_rx_sg_sub_jac_twist_fill", "aa_rx_sg_sub_jac_vel_fill", "aa_rx_wk_dx2dq", "aa_rx_wk_dx2dq_np", "aa_rx_wk_dqcenter", "aa_rx_wk_dx_pos", "aa_de_grad_fd", "aa_de_jac_fd"};
#define NF ((int)(sizeof names / sizeof names[0]))
#define NMAT 22
static void one(struct fit *f, struct scene *S, int k, int wrong) {
    int m = op_range(1, 5), n = op_range(1, 5), l = op_range(1, 5), bad = -1, ns = S ? S->ns : 0, all = S ? S->all : 0; f->top = 0; f->armed = wrong; f->count = 0;
    for (int i = 0; i < AR; i++) f->a[i] = 0.25 + (double)((i * 37) % 101);
#define PICK(x) do { if (wrong) bad = (int)op_choose(x); } while (0)
    switch (k) {
    case 0: case 1: case 2: case 3: case 4: { PICK(1); struct aa_dvec x = vv(f, m), y = vv(f, D(0, m)); CALL(k == 0 ? aa_dvec_swap(&x, &y) : k == 1 ? aa_dvec_copy(&x, &y) : k == 2 ? aa_dvec_axpy(2, &x, &y) : k == 3 ? (void)aa_dvec_dot(&x, &y) : (void)aa_dvec_ssd(&x, &y)); break; }
    case 5: { PICK(2); int t = (int)op_choose(2); struct aa_dmat A = mm(f, m, n); struct aa_dvec x = vv(f, D(0, t ? m : n)), y = vv(f, D(1, t ? n : m)); CALL(aa_dmat_gemv(t ? CblasTrans : CblasNoTrans, 1, &A, &x, 0, &y)); break; }
    case 6: { PICK(3); int ta = (int)op_choose(2), tb = (int)op_choose(2), kb = D(0, l); struct aa_dmat A = ta ? mm(f, l, m) : mm(f, m, l), B = tb ? mm(f, n, kb) : mm(f, kb, n), C = mm(f, D(1, m), D(2, n)); CALL(aa_dmat_gemm(ta ? CblasTrans : CblasNoTrans, tb ? CblasTrans : CblasNoTrans, 1, &A, &B, 0, &C)); break; }
    case 7: case 8: case 9: case 10: { PICK(2); struct aa_dmat A = mm(f, m, n), B = mm(f, D(0, m), D(1, n)); CALL(k == 7 ? aa_dmat_lacpy("G", &A, &B) : k == 8 ? aa_dmat_copy(&A, &B) : k == 9 ? (void)aa_dmat_ssd(&A, &B) : aa_dmat_axpy(2, &A, &B)); break; }
    case 11: case 13: case 14: case 15: { PICK(2); struct aa_dmat A = mm(f, m, n), B = mm(f, D(0, n), D(1, m)); CALL(k == 11 ? aa_dmat_trans(&A, &B) : k == 13 ? (void)aa_dmat_pinv(&A, -1, &B) : k == 14 ? (void)aa_dmat_dpinv(&A, .1, &B) : (void)aa_dmat_dzdpinv(&A, .1, &B)); break; }
    case 12: { PICK(1); struct aa_dmat A = mm(f, D(0, m), m); if (!A.rows) A.rows = (size_t)m + 1, A.ld = A.rows; CALL(aa_dmat_inv(&A)); break; }
    case 16: { PICK(2); struct aa_dvec x = vv(f, m + 2), y; int s = op_range(0, m), e = op_range(s, m + 2); if (bad == 0) e = m + 2 + op_range(1, 3); if (bad == 1) { s = e + op_range(1, 2); } CALL(aa_dvec_slice(&x, (size_t)s, (size_t)e, 1, &y)); if (!wrong) SIM_CHECK(y.len == (size_t)(e - s) && y.data == x.data + x.inc * (size_t)s, "view", "slice"); break; }
    case 17: { PICK(1); struct aa_dmat A = mm(f, m, n); struct aa_dvec y; int r = bad == 0 ? m + op_range(0, 2) : op_range(0, m - 1); CALL(aa_dmat_row_vec(&A, (size_t)r, &y)); break; }
    case 18: { PICK(1); struct aa_dmat A = mm(f, m, n); struct aa_dvec y; int c = bad == 0 ? n + op_range(0, 2) : op_range(0, n - 1); CALL(aa_dmat_col_vec(&A, (size_t)c, &y)); break; }
    case 19: { PICK(4); struct aa_dmat A = mm(f, m, n), B; int r = op_range(0, m - 1), re = op_range(r + 1, m), c = op_range(0, n - 1), ce = op_range(c + 1, n); if (bad == 0) re = m + op_range(1, 3); if (bad == 1) ce = n + op_range(1, 3); if (bad == 2) { r = m + op_range(0, 2); re = r + 1; } if (bad == 3) { c = n + op_range(0, 2); ce = c + 1; } int view = (int)op_choose(2); CALL(view ? aa_dmat_view_block(&B, &A, (size_t)r, (size_t)c, (size_t)(re - r), (size_t)(ce - c)) : aa_dmat_block(&A, (size_t)r, (size_t)c, (size_t)re, (size_t)ce, &B)); if (!wrong) SIM_CHECK(B.rows == (size_t)(re - r) && B.cols == (size_t)(ce - c) && B.ld == A.ld && B.data == A.data + r + (int)A.ld * c, "view", "block"); break; }
    case 20: case 21: { PICK(2); int z = k == 20 ? 4 : 8; struct aa_dmat J = mm(f, D(0, z), D(1, z)); double S8[8] = {.1, .2, .3, .9, .5, .6, .7, -.3}; CALL(k == 20 ? aa_tf_qln_jac(S8, &J) : aa_tf_duqu_ln_jac(S8, &J)); break; }
    case 22: case 23: { PICK(2); struct aa_dvec s = vv(f, D(0, ns)), a = vv(f, D(1, all)); CALL(k == 22 ? aa_rx_sg_sub_config_scatter(S->sub, &s, &a) : aa_rx_sg_sub_config_gather(S->sub, &a, &s)); break; }
    case 24: case 25: { PICK(1); struct aa_dvec s = vv(f, D(0, ns)); CALL(k == 24 ? aa_rx_sg_sub_center_configv(S->sub, &s) : aa_rx_sg_sub_rand_config(S->sub, &s)); break; }
    case 26: { PICK(1); struct aa_dvec q = vv(f, D(0, all)); CALL(aa_rx_fk_all(S->fk, &q)); break; }
    case 27: { PICK(1); struct aa_dvec q = vv(f, D(0, ns)); CALL(aa_rx_fk_sub(S->fk, S->sub, &q)); break; }
    case 28: case 29: { PICK(4); struct aa_dmat R = mm(f, D(0, 3), D(1, ns)), P = mm(f, D(2, 3), D(3, ns)); CALL(k == 28 ? aa_rx_sg_sub_jac_twist_fill2(S->sub, S->fk, &R, &P) : aa_rx_sg_sub_jac_vel_fill2(S->sub, S->fk, &R, &P)); break; }
    case 30: case 31: { PICK(1); struct aa_dmat J = mm(f, 6, D(0, ns)); CALL(k == 30 ? aa_rx_sg_sub_jac_twist_fill(S->sub, S->fk, &J) : aa_rx_sg_sub_jac_vel_fill(S->sub, S->fk, &J)); break; }
    case 32: { PICK(2); struct aa_dvec dx = vv(f, D(0, 6)), dq = vv(f, D(1, ns)); CALL(aa_rx_wk_dx2dq(S->sub, S->wk, S->fk, &dx, &dq)); break; }
    case 33: { PICK(3); struct aa_dvec dx = vv(f, D(0, 6)), r = vv(f, D(1, ns)), dq = vv(f, D(2, ns)); CALL(aa_rx_wk_dx2dq_np(S->sub, S->wk, S->fk, &dx, &r, &dq)); break; }
    case 34: { PICK(2); struct aa_dvec q = vv(f, D(0, ns)), dq = vv(f, D(1, ns)); CALL(aa_rx_wk_dqcenter(S->sub, S->wk, &q, &dq)); break; }
    case 35: { PICK(1); struct aa_dvec dx = vv(f, D(0, 6)); double E[14] = {0, 0, 0, 1, 1, 2, 3, 0, 0, 0, 1, 1, 2, 4}; CALL(aa_rx_wk_dx_pos(S->wk, E, E + 7, &dx)); break; }
    default: { PICK(1); struct aa_dvec x = vv(f, m), g = vv(f, D(0, m)); struct aa_dmat J = mm(f, n, D(0, m)); CALL(k == 36 ? aa_de_grad_fd(fit_scalar, NULL, &x, .01, &g) : aa_de_jac_fd(fit_vector, NULL, &x, .01, &J)); break; }
    }
    if (wrong) {
        sim_log("%s, argument %d wrong: %s", names[k], bad, f->armed == 2 ? "accepted" : f->msg);
        SIM_CHECK(f->armed == 1 && f->count == 1, "accepted", "%s accepted arguments that do not fit (size %d wrong; %d %d %d, %d of %d joints)", names[k], bad, m, n, l, ns, all);
        SIM_CHECK(f->msg[0], "message", "%s: the error has no message", names[k]);
        for (int i = 0; i < AR; i++) SIM_CHECK(f->a[i] == f->copy[i], "touched", "%s changed memory (%d) before refusing its arguments", names[k], i);
        sim_probe("refused");
    } else SIM_CHECK(!f->count, "spurious", "%s", names[k]);
    f->armed = 0;
}
/* which calls are cheap and do not use rand() */
static void calls(struct scene *S, int n) {
    struct fit *f = (struct fit *)malloc(sizeof *f); cur = f; aa_mem_region_t *reg = aa_mem_region_local_get(); uint64_t h = 7;
    for (; n > 0; n--) { void *mk = aa_mem_region_ptr(reg); int k = (int)op_choose((uint32_t)(S ? NF : NMAT)), w = op_choose(3) != 0; h = mixh(h, (uint64_t)(2 * k + w)); one(f, S, k, w); aa_mem_region_pop(reg, mk); }
    cur = NULL; free(f); sim_state(h);
}
static void fit_calls(void) { uint64_t mark = sim_heap_mark(); srand(1); aa_la_set_err(on_err); aa_mem_region_local_init((size_t)op_range(0, 2000)); cur = NULL; struct scene *S = op_choose(2) ? mk_scene() : NULL; calls(S, op_range(1, 12)); if (S) rm_scene(S); aa_mem_region_local_destroy(); LEAKCHECK(mark, "leak"); }
SIM_SCENARIO("P28", fit_calls, fit_calls, 3);
static struct scene *shs;
static void *fit_worker(void *p) { aa_mem_region_local_init((size_t)op_range(0, 2000)); calls(shs, *(int *)p); aa_mem_region_local_destroy(); return NULL; }
static void fit_threads(void) {
    uint64_t mark = sim_heap_mark(); srand(1); sim_sched_swarm(1); aa_la_set_err(on_err); cur = NULL; shs = NULL; /* a shared scene would have its kinematics written by several threads */
    static int n[3]; sim_tid t[3]; int nt = op_range(2, 3); sim_set_races(1); for (int i = 0; i < nt; i++) { n[i] = op_range(1, 5); t[i] = sim_spawn("caller", fit_worker, &n[i]); } for (int i = 0; i < nt; i++) sim_join(t[i]); LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P28", fit_threads, fit_threads, 1);
