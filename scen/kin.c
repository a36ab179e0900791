/* Kinematic chains and unions of chains: which joints they hold, how their configurations
 * map to the whole scene's, and whether their Jacobians are the derivative of the motion. */
#include "sgmodel.h"
#include <amino/mat.h>
#define GUARD 0x1.23456789abcdep+200
struct kin { const struct m_sg *m; const struct aa_rx_sg *sg; int uni, root, tip, n, path[NN], nj, jn[NN], dup; struct aa_rx_sg_sub *s; aa_rx_frame_id frs[NN]; };
static void gfill(double *d, int n) { for (int i = 0; i < n; i++) d[i] = GUARD; }
/* pose of frame i when joint k is moved by h on top of configuration q */
static void abs_h(const struct m_sg *m, const struct aa_rx_sg *sg, const double *q, int i, int k, double h, double *E) {
    const struct m_frame *f = &m->f[i]; double R[7], P[7];
    m_rel(f, (f->type == AA_RX_FRAME_FIXED ? 0 : q[aa_rx_sg_config_id(sg, f->cfg)]) + (i == k ? h : 0), R);
    if (f->parent < 0) memcpy(E, R, sizeof R); else { abs_h(m, sg, q, f->parent, k, h, P); mE_mul(P, R, E); }
}
/* velocity [v; w] of frame i per unit of motion of joint k: differences of the model's poses */
static void dpose(const struct m_sg *m, const struct aa_rx_sg *sg, const double *q, int i, int k, double *dx) {
    double E[4][7], E0[7], h = 1e-3, hs[4] = {-2 * h, -h, h, 2 * h}, d[7], cj[4], w[4];
    static const double cf[4] = {1, -8, 8, -1};
    abs_h(m, sg, q, i, k, 0, E0);
    for (int j = 0; j < 7; j++) d[j] = 0;
    for (int s = 0; s < 4; s++) { abs_h(m, sg, q, i, k, hs[s], E[s]); for (int j = 0; j < 7; j++) d[j] += cf[s] * E[s][j] / (12 * h); }
    for (int j = 0; j < 3; j++) { cj[j] = -E0[j]; dx[j] = d[4 + j]; }
    cj[3] = E0[3]; mq_mul(d, cj, w);
    for (int j = 0; j < 3; j++) dx[3 + j] = 2 * w[j];
}
static void mk_chain(struct kin *k, const struct m_sg *m, const struct aa_rx_sg *sg) {
    memset(k, 0, sizeof *k); k->m = m; k->sg = sg;
    k->tip = m_pick_live(m); k->root = op_choose(3) ? -1 : m_pick_live(m);
    for (int p = k->tip; p >= 0 && p != k->root; p = m->f[p].parent) k->n++;
    { int j = k->n; for (int p = k->tip; j > 0; p = m->f[p].parent) k->path[--j] = p; }
    for (int j = 0; j < k->n; j++) if (m->f[k->path[j]].type != AA_RX_FRAME_FIXED) { for (int l = 0; l < k->nj; l++) if (!strcmp(m->f[k->jn[l]].cfg, m->f[k->path[j]].cfg)) k->dup = 1; k->jn[k->nj++] = k->path[j]; }
    k->s = aa_rx_sg_chain_create(sg, k->root < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, m_names[k->root]), aa_rx_sg_frame_id(sg, m_names[k->tip]));
}
static void mk_union(struct kin *k, const struct m_sg *m, const struct aa_rx_sg *sg, int nt) {
    int in[NN] = {0}; aa_rx_frame_id t[4];
    memset(k, 0, sizeof *k); k->uni = 1; k->m = m; k->sg = sg; k->root = op_choose(3) ? -1 : m_pick_live(m); k->tip = -1;
    for (int i = 0; i < nt; i++) { int x = m_pick_live(m); t[i] = aa_rx_sg_frame_id(sg, m_names[x]); if (!i) k->tip = x; for (int p = x; p >= 0 && p != k->root; p = m->f[p].parent) in[p] = 1; }
    for (size_t id = 0; id < (size_t)m_live(m); id++) { int i = m_idx(aa_rx_sg_frame_name(sg, (aa_rx_frame_id)id)); if (!in[i]) continue; k->path[k->n++] = i; if (m->f[i].type == AA_RX_FRAME_FIXED) continue; for (int l = 0; l < k->nj; l++) if (!strcmp(m->f[k->jn[l]].cfg, m->f[i].cfg)) k->dup = 1; k->jn[k->nj++] = i; }
    k->s = aa_rx_sg_multiple_chain_create(sg, k->root < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, m_names[k->root]), (size_t)nt, t);
    SIM_CHECK(aa_rx_sg_sub_frame_ee_count(k->s) == (size_t)nt, "members", "%zu end effectors, expected %d", aa_rx_sg_sub_frame_ee_count(k->s), nt);
    for (int i = 0; i < nt; i++) SIM_CHECK(aa_rx_sg_sub_frame_ees(k->s)[i] == t[i], "members", "end effector %d is %d, asked for %d", i, (int)aa_rx_sg_sub_frame_ees(k->s)[i], (int)t[i]);
}
/* ---- membership */
static void ck_members(struct kin *k) {
    struct aa_rx_sg_sub *s = k->s; size_t r = 0, c = 0;
    SIM_CHECK(aa_rx_sg_sub_sg(s) == k->sg && aa_rx_sg_sub_all_config_count(s) == (size_t)m_ncfg(k->m) && aa_rx_sg_sub_all_frame_count(s) == (size_t)m_live(k->m), "members", "counts of the whole scene: %zu configurations, %zu frames", aa_rx_sg_sub_all_config_count(s), aa_rx_sg_sub_all_frame_count(s));
    SIM_CHECK(aa_rx_sg_sub_frame_count(s) == (size_t)k->n && aa_rx_sg_sub_config_count(s) == (size_t)k->nj, "members", "%zu frames and %zu configurations, expected %d and %d ('%s' to '%s')", aa_rx_sg_sub_frame_count(s), aa_rx_sg_sub_config_count(s), k->n, k->nj, m_nm(k->root), m_nm(k->tip));
    for (int j = 0; j < k->n; j++) { k->frs[j] = aa_rx_sg_frame_id(k->sg, m_names[k->path[j]]); SIM_CHECK(aa_rx_sg_sub_frame(s, (size_t)j) == k->frs[j] && aa_rx_sg_sub_frames(s)[j] == k->frs[j], "members", "frame %d is %d, expected '%s' (%d)", j, (int)aa_rx_sg_sub_frame(s, (size_t)j), m_names[k->path[j]], (int)k->frs[j]); }
    for (int j = 0; j < k->nj; j++) { aa_rx_config_id id = aa_rx_sg_config_id(k->sg, k->m->f[k->jn[j]].cfg); SIM_CHECK(aa_rx_sg_sub_config(s, (size_t)j) == id && aa_rx_sg_sub_configs(s)[j] == id, "members", "configuration %d is %d, expected that of '%s' (%d)", j, (int)aa_rx_sg_sub_config(s, (size_t)j), m_names[k->jn[j]], (int)id); }
    SIM_CHECK(aa_rx_sg_sub_frame_ee_count(s) >= 1 && (k->uni || aa_rx_sg_sub_frame_ee_count(s) == 1), "members", "%zu end effectors", aa_rx_sg_sub_frame_ee_count(s));
    SIM_CHECK(aa_rx_sg_sub_frame_ee(s) == aa_rx_sg_frame_id(k->sg, m_names[k->tip]), "members", "end effector is %d", (int)aa_rx_sg_sub_frame_ee(s));
    aa_rx_sg_sub_jacobian_size(s, &r, &c); SIM_CHECK(r == 6 && c == (size_t)k->nj, "members", "a Jacobian of %zu by %zu", r, c);
}
/* a strided vector in guarded storage */
struct gv { double d[4 * (NN + 2)]; struct aa_dvec v; int inc; };
static void gv_new(struct gv *g, int n) { gfill(g->d, 4 * (NN + 2)); g->inc = op_range(1, 3); struct aa_dvec v = AA_DVEC_INIT((size_t)n, g->d, (size_t)g->inc); g->v = v; }
#define GV(g, i) ((g).d[(i) * (g).inc])
static void gv_ck(const char *what, const struct gv *g) { for (int i = 0; i < 4 * (NN + 2); i++) if (i % g->inc || i / g->inc >= (int)g->v.len) SIM_CHECK(g->d[i] == GUARD, "stray-write", "%s wrote past or between the elements of its vector (%d, increment %d, %zu elements)", what, i, g->inc, g->v.len); }
static const struct m_limit *plim(const struct kin *k, const char *cfg) { const struct m_limit *l = m_lim((struct m_sg *)k->m, cfg, 0); return l && l->has[0] ? l : NULL; }
/* ---- the sub-configuration and the whole one */
static void ck_config(struct kin *k) {
    int all = m_ncfg(k->m), nj = k->nj; struct aa_rx_sg_sub *s = k->s; double q[NN + 1], sub[NN + 1]; int of[NN + 1];
    m_randcfg(q, all); for (int c = 0; c < all; c++) of[c] = -1;
    for (int j = 0; j < nj; j++) { int c = (int)aa_rx_sg_sub_config(s, (size_t)j); if (of[c] < 0) { of[c] = j; sub[j] = op_unit() * 3; } else sub[j] = sub[of[c]]; }
    struct gv A, S; gv_new(&A, all); gv_new(&S, nj);
    for (int c = 0; c < all; c++) GV(A, c) = q[c];
    aa_rx_sg_sub_config_gather(s, &A.v, &S.v); gv_ck("gather", &S); gv_ck("gather", &A);
    for (int j = 0; j < nj; j++) { int c = (int)aa_rx_sg_sub_config(s, (size_t)j); SIM_CHECK(GV(S, j) == q[c], "mapping", "gather: element %d is %g, the whole configuration has %g", j, GV(S, j), q[c]); GV(S, j) = sub[j]; }
    aa_rx_sg_sub_config_scatter(s, &S.v, &A.v); gv_ck("scatter", &S); gv_ck("scatter", &A);
    for (int c = 0; c < all; c++) SIM_CHECK(GV(A, c) == (of[c] < 0 ? q[c] : sub[of[c]]), "mapping", "scatter: configuration %d became %g, expected %g", c, GV(A, c), of[c] < 0 ? q[c] : sub[of[c]]);
    double qa[NN + 3], qs[NN + 3]; gfill(qa, NN + 3); gfill(qs, NN + 3); memcpy(qa, q, sizeof(double) * (size_t)all);
    aa_rx_sg_sub_config_get(s, (size_t)all, qa, (size_t)nj, qs); for (int j = 0; j < nj; j++) SIM_CHECK(qs[j] == q[aa_rx_sg_sub_config(s, (size_t)j)], "mapping", "get: element %d is %g", j, qs[j]);
    SIM_CHECK(qs[nj] == GUARD && qa[all] == GUARD, "stray-write", "get wrote past the end");
    memcpy(qs, sub, sizeof(double) * (size_t)nj); aa_rx_sg_sub_config_set(s, (size_t)nj, qs, (size_t)all, qa); SIM_CHECK(qs[nj] == GUARD && qa[all] == GUARD, "stray-write", "set wrote past the end");
    for (int c = 0; c < all; c++) SIM_CHECK(qa[c] == (of[c] < 0 ? q[c] : sub[of[c]]), "mapping", "set: configuration %d became %g", c, qa[c]);
    /* by name, without a sub-scenegraph */
    const char *nm[NN + 1]; aa_rx_config_id ids[NN + 2]; int n = op_range(0, NN); double g1[NN + 2], all2[NN + 2]; gfill(g1, NN + 2); memcpy(all2, q, sizeof(double) * (size_t)all); ids[n] = 4711;
    for (int i = 0; i < n; i++) nm[i] = op_choose(3) ? m_cfgs[op_choose(NC)] : m_names[op_choose(NN)];
    aa_rx_sg_config_indices(k->sg, (size_t)n, nm, ids); SIM_CHECK(ids[n] == 4711, "stray-write", "indices written past the end");
    int m2 = 0; for (int i = 0; i < n; i++) { int known = 0; for (int f = 0; f < NN; f++) if (k->m->f[f].live && k->m->f[f].type != AA_RX_FRAME_FIXED && !strcmp(k->m->f[f].cfg, nm[i])) known = 1;
        SIM_CHECK(known ? ids[i] >= 0 && ids[i] < all && !strcmp(aa_rx_sg_config_name(k->sg, ids[i]), nm[i]) : ids[i] == AA_RX_CONFIG_NONE, "mapping", "index of configuration '%s' is %d", nm[i], (int)ids[i]); if (known) ids[m2++] = ids[i]; }
    aa_rx_sg_config_get(k->sg, (size_t)all, (size_t)m2, ids, q, g1); for (int i = 0; i < m2; i++) SIM_CHECK(g1[i] == q[ids[i]], "mapping", "aa_rx_sg_config_get: element %d", i); SIM_CHECK(g1[m2] == GUARD, "stray-write", "aa_rx_sg_config_get wrote past the end");
    for (int i = 0; i < m2; i++) g1[i] = q[ids[i]] + 7; aa_rx_sg_config_set(k->sg, (size_t)all, (size_t)m2, ids, g1, all2); for (int c = 0; c < all; c++) { int in = 0; for (int i = 0; i < m2; i++) in |= ids[i] == c; SIM_CHECK(all2[c] == q[c] + (in ? 7 : 0), "mapping", "aa_rx_sg_config_set: configuration %d is %g", c, all2[c]); }
    /* a path */
    int np = op_range(0, 5), w0 = (int)op_choose(2); double *P = (double *)malloc(sizeof(double) * (size_t)(np * nj + 1)), *F = (double *)malloc(sizeof(double) * (size_t)(np * all + 1));
    for (int i = 0; i < np; i++) for (int j = 0; j < nj; j++) { int c = (int)aa_rx_sg_sub_config(s, (size_t)j); P[i * nj + j] = of[c] == j ? op_unit() : P[i * nj + of[c]]; }
    gfill(F, np * all + 1); P[np * nj] = GUARD; aa_rx_sg_sub_expand_path(s, (size_t)np, w0 ? q : NULL, P, F); SIM_CHECK(F[np * all] == GUARD && P[np * nj] == GUARD, "stray-write", "expanding a path of %d points wrote past its end", np);
    for (int i = 0; i < np; i++) for (int c = 0; c < all; c++) SIM_CHECK(F[i * all + c] == (of[c] >= 0 ? P[i * nj + of[c]] : w0 ? q[c] : GUARD), "mapping", "expanded path: point %d, configuration %d is %g", i, c, F[i * all + c]);
    free(P); free(F);
}
/* ---- centred and random configurations respect the limits */
static void ck_limits(struct kin *k) {
    struct aa_rx_sg_sub *s = k->s; int nj = k->nj, all = m_ncfg(k->m); double q[NN + 3]; gfill(q, NN + 3); struct gv G; gv_new(&G, nj);
    aa_rx_sg_sub_center_configs(s, (size_t)nj, q); aa_rx_sg_sub_center_configv(s, &G.v); gv_ck("center_configv", &G); SIM_CHECK(q[nj] == GUARD, "stray-write", "center_configs wrote past the end");
    for (int j = 0; j < nj; j++) { const struct m_limit *l = plim(k, k->m->f[k->jn[j]].cfg); double w = l ? (l->lo[0] + l->hi[0]) / 2 : 0; SIM_CHECK(fabs(q[j] - w) < 1e-12 && GV(G, j) == q[j], "limits", "centre of '%s' is %g (strided %g), limits give %g", k->m->f[k->jn[j]].cfg, q[j], GV(G, j), w); }
    gfill(q, NN + 3); int n = op_range(0, NN + 1); aa_rx_sg_center_configs(k->sg, (size_t)n, q);
    for (int c = 0; c < NN + 2; c++) { double w = GUARD; if (c < n && c < all) { const struct m_limit *l = plim(k, aa_rx_sg_config_name(k->sg, c)); w = l ? (l->lo[0] + l->hi[0]) / 2 : 0; } SIM_CHECK(fabs(q[c] - w) <= 1e-12 * fabs(w), "limits", "centre of configuration %d of %d is %g, expected %g", c, all, q[c], w); }
    int lo[NN] = {0}, hi[NN] = {0}, R = op_choose(4) ? 2 : 60; gv_new(&G, nj);
    for (int r = 0; r < R; r++) { aa_rx_sg_sub_rand_config(s, &G.v); gv_ck("rand_config", &G); for (int j = 0; j < nj; j++) { const struct m_limit *l = plim(k, k->m->f[k->jn[j]].cfg); double a = l ? l->lo[0] : -M_PI, b = l ? l->hi[0] : M_PI, x = GV(G, j); SIM_CHECK(x >= a && x <= b, "limits", "random value %g of '%s' is outside [%g,%g]", x, k->m->f[k->jn[j]].cfg, a, b); lo[j] += x < a + 0.45 * (b - a); hi[j] += x > a + 0.55 * (b - a); } }
    if (R > 50) for (int j = 0; j < nj; j++) SIM_CHECK(lo[j] && hi[j], "limits", "%d random values of '%s' never leave one side of its range", R, k->m->f[k->jn[j]].cfg);
}
/* ---- storage in a region */
static void ck_alloc(struct kin *k) {
    aa_mem_region_t *reg = aa_mem_region_local_get(); void *mk = aa_mem_region_ptr(reg); int nj = k->nj, all = m_ncfg(k->m), nf = m_live(k->m);
    double *b[5] = {aa_rx_sg_sub_alloc_config(k->s, reg), aa_rx_sg_sub_alloc_jacobian(k->s, reg), aa_rx_sg_alloc_config(k->sg, reg), aa_rx_sg_alloc_tf(k->sg, reg), (double *)aa_mem_region_alloc(reg, 8)}; int sz[5] = {nj, 6 * nj, all, 7 * nf, 1};
    for (int i = 0; i < 5; i++) for (int j = 0; j < sz[i]; j++) b[i][j] = i * 1000 + j;
    for (int i = 0; i < 5; i++) for (int j = 0; j < sz[i]; j++) SIM_CHECK(b[i][j] == i * 1000 + j, "storage", "array %d of the region overlaps another", i);
    aa_mem_region_pop(reg, mk);
}
/* ---- forward kinematics of part of the scene */
static void ck_fk(struct kin *k, struct aa_rx_fk *fk, double *q /* whole, updated */) {
    int all = m_ncfg(k->m), nf = m_live(k->m); struct gv S; gv_new(&S, k->nj); double before[7 * NN], W[NN][7]; size_t ld = aa_rx_fk_ld(fk); double *D = aa_rx_fk_data(fk); (void)all;
    SIM_CHECK(aa_rx_fk_cnt(fk) == (size_t)nf && ld >= 7, "forward", "%zu frames, leading dimension %zu", aa_rx_fk_cnt(fk), ld);
    for (int i = 0; i < nf; i++) { SIM_CHECK(aa_rx_fk_ref(fk, i) == D + (size_t)i * ld, "forward", "pose %d is not where the data are", i); memcpy(before + 7 * i, D + (size_t)i * ld, 56); }
    for (int j = 0; j < k->nj; j++) { aa_rx_config_id c = aa_rx_sg_sub_config(k->s, (size_t)j); double v = op_unit() * 3; for (int l = 0; l < j; l++) if (aa_rx_sg_sub_config(k->s, (size_t)l) == c) v = GV(S, l); GV(S, j) = v; q[c] = v; }
    aa_rx_fk_sub(fk, k->s, &S.v); gv_ck("aa_rx_fk_sub", &S);
    int in[NN] = {0}; for (int j = 0; j < k->n; j++) in[k->path[j]] = 1;
    /* members: relative to their parent's (possibly older) pose; the rest: as they were */
    for (size_t id = 0; id < (size_t)nf; id++) {
        int i = m_idx(aa_rx_sg_frame_name(k->sg, (aa_rx_frame_id)id)); const struct m_frame *f = &k->m->f[i]; double R[7], E[7]; aa_rx_frame_id p = aa_rx_sg_frame_parent(k->sg, (aa_rx_frame_id)id);
        if (!in[i]) { memcpy(W[id], before + 7 * id, 56); SIM_CHECK(!memcmp(D + id * ld, before + 7 * id, 56), "forward", "aa_rx_fk_sub moved '%s', which is not in the chain", m_names[i]); continue; }
        m_rel(f, f->type == AA_RX_FRAME_FIXED ? 0 : q[aa_rx_sg_config_id(k->sg, f->cfg)], R); if (p < 0) memcpy(W[id], R, 56); else mE_mul(W[p], R, W[id]);
        aa_rx_fk_get_abs_qutr(fk, (aa_rx_frame_id)id, E); SIM_CHECK(m_Eeq(E, W[id], 1e-7), "forward", "aa_rx_fk_sub: pose of '%s' (x %g, expected %g)", m_names[i], E[4], W[id][4]);
    }
}
/* ---- Jacobians */
static void jmat(const char *what, const double *J, int ld, int rows, int n, const double *want, int off, double tol) {
    for (int c = 0; c < n; c++) for (int r = 0; r < ld; r++) { double x = J[c * ld + r]; if (r >= rows) SIM_CHECK(x == GUARD, "stray-write", "%s wrote between its columns", what); else SIM_CHECK(fabs(x - want[6 * c + off + r]) <= tol, "derivative", "%s: row %d of column %d is %.12g, the motion's derivative is %.12g", what, r, c, x, want[6 * c + off + r]); }
    SIM_CHECK(J[n * ld] == GUARD, "stray-write", "%s wrote past its last column", what);
}
static void ck_jac(struct kin *k, int uni) {
    const struct m_sg *m = k->m; int all = m_ncfg(m), nf = m_live(m), nj = k->nj, ee = k->n ? k->path[k->n - 1] : -1; double q[NN + 1], vel[6 * NN], tw[6 * NN], sc = 1; m_randcfg(q, all);
    struct aa_dvec qv = AA_DVEC_INIT((size_t)all, q, 1); aa_mem_region_t *reg = aa_mem_region_local_get(); void *mk = aa_mem_region_ptr(reg); struct aa_rx_fk *fk = aa_rx_fk_alloc(k->sg, reg); aa_rx_fk_all(fk, &qv);
    for (int j = 0; j < nj; j++) { double E[7], *v = vel + 6 * j, *t = tw + 6 * j; dpose(m, k->sg, q, ee, k->jn[j], v); m_abs(m, k->sg, q, ee, E); double *p = E + 4;
        if (uni) { dpose(m, k->sg, q, k->jn[j], k->jn[j], v); m_abs(m, k->sg, q, k->jn[j], E); } /* a twist does not depend on the point that is followed */
        t[3] = v[3]; t[4] = v[4]; t[5] = v[5]; t[0] = v[0] + p[1] * v[5] - p[2] * v[4]; t[1] = v[1] + p[2] * v[3] - p[0] * v[5]; t[2] = v[2] + p[0] * v[4] - p[1] * v[3]; for (int i = 0; i < 3; i++) sc = fmax(sc, fabs(p[i])); }
    double tol = 1e-8 * sc; int ld = op_range(6, 9), l1 = op_range(3, 5), l2 = op_range(3, 5); double J[9 * NN + 10], Jr[5 * NN + 10], Jp[5 * NN + 10]; struct aa_dmat MJ = AA_DMAT_INIT(6, (size_t)nj, J, (size_t)ld), Mr = AA_DMAT_INIT(3, (size_t)nj, Jr, (size_t)l1), Mp = AA_DMAT_INIT(3, (size_t)nj, Jp, (size_t)l2);
    gfill(J, 9 * NN + 10); aa_rx_sg_sub_jac_twist_fill(k->s, fk, &MJ); jmat("twist Jacobian", J, ld, 6, nj, tw, 0, tol);
    gfill(Jr, 5 * NN + 10); gfill(Jp, 5 * NN + 10); aa_rx_sg_sub_jac_twist_fill2(k->s, fk, &Mr, &Mp); jmat("rotational twist Jacobian", Jr, l1, 3, nj, tw, 3, tol); jmat("translational twist Jacobian", Jp, l2, 3, nj, tw, 0, tol);
    struct aa_dmat *G = aa_rx_sg_sub_jac_twist_get(k->s, reg, fk); SIM_CHECK(G->rows == 6 && G->cols == (size_t)nj, "derivative", "a Jacobian of %zu by %zu", G->rows, G->cols); for (int c = 0; c < nj; c++) for (int r = 0; r < 6; r++) SIM_CHECK(fabs(G->data[(size_t)c * G->ld + (size_t)r] - tw[6 * c + r]) <= tol, "derivative", "allocated twist Jacobian: row %d of column %d", r, c);
    if (!uni) {
        gfill(J, 9 * NN + 10); aa_rx_sg_sub_jac_vel_fill(k->s, fk, &MJ); jmat("velocity Jacobian", J, ld, 6, nj, vel, 0, tol);
        gfill(Jr, 5 * NN + 10); gfill(Jp, 5 * NN + 10); aa_rx_sg_sub_jac_vel_fill2(k->s, fk, &Mr, &Mp); jmat("rotational velocity Jacobian", Jr, l1, 3, nj, vel, 3, tol); jmat("translational velocity Jacobian", Jp, l2, 3, nj, vel, 0, tol);
        G = aa_rx_sg_sub_jac_vel_get(k->s, reg, fk); SIM_CHECK(G->rows == 6 && G->cols == (size_t)nj, "derivative", "a Jacobian of %zu by %zu", G->rows, G->cols); for (int c = 0; c < nj; c++) for (int r = 0; r < 6; r++) SIM_CHECK(fabs(G->data[(size_t)c * G->ld + (size_t)r] - vel[6 * c + r]) <= tol, "derivative", "allocated velocity Jacobian: row %d of column %d", r, c);
        size_t lt = 7 + op_choose(3); double T[9 * NN]; for (int i = 0; i < nf; i++) aa_rx_fk_get_abs_qutr(fk, i, T + lt * (size_t)i); struct aa_dmat TF = AA_DMAT_INIT(7, (size_t)nf, T, lt);
        gfill(J, 9 * NN + 10); aa_rx_sg_sub_jacobian(k->s, (size_t)nf, T, lt, J, (size_t)ld); jmat("Jacobian from transforms", J, ld, 6, nj, vel, 0, tol);
        gfill(J, 9 * NN + 10); aa_rx_sg_chain_jacobian(k->sg, (size_t)nf, T, lt, (size_t)k->n, aa_rx_sg_sub_frames(k->s), (size_t)nj, aa_rx_sg_sub_configs(k->s), J, (size_t)ld); jmat("chain Jacobian", J, ld, 6, nj, vel, 0, tol);
        G = aa_rx_sg_sub_get_jacobian(k->s, reg, &TF); for (int c = 0; c < nj; c++) for (int r = 0; r < 6; r++) SIM_CHECK(fabs(G->data[(size_t)c * G->ld + (size_t)r] - vel[6 * c + r]) <= tol, "derivative", "allocated Jacobian from transforms: row %d of column %d", r, c);
    }
    aa_mem_region_pop(reg, mk);
    sim_hash(vel, sizeof(double) * 6 * (size_t)nj);
}
static void one(const struct m_sg *m, const struct aa_rx_sg *sg) {
    struct kin k; int uni = op_choose(3) == 2, nt = op_range(1, 3);
    if (uni) mk_union(&k, m, sg, nt); else mk_chain(&k, m, sg);
    sim_log("%s '%s' to '%s': %d frames, %d joints%s", uni ? "chains" : "chain", m_nm(k.root), m_nm(k.tip), k.n, k.nj, k.dup ? ", sharing a configuration" : ""); if (!k.n) sim_probe("empty chain"); else if (!k.nj) sim_probe("rigid chain"); if (k.dup) sim_probe("joints that share a configuration");
    ck_members(&k);
    for (int i = op_range(1, 4); i > 0; i--) switch (op_choose(6)) {
        case 0: ck_config(&k); break;
        case 1: ck_limits(&k); break;
        case 2: ck_alloc(&k); break;
        case 3: { struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); double q[NN + 1]; m_randcfg(q, m_ncfg(m)); struct aa_dvec v = AA_DVEC_INIT((size_t)m_ncfg(m), q, 1); aa_rx_fk_all(fk, &v); for (int j = op_range(1, 3); j > 0; j--) ck_fk(&k, fk, q); aa_rx_fk_destroy(fk); break; }
        default: ck_jac(&k, uni && nt > 1);
    }
    ck_members(&k); aa_rx_sg_sub_destroy(k.s);
}
static struct aa_rx_sg *world(struct m_sg *m) { struct aa_rx_sg *sg = m_build(m, 1, NN); for (int i = op_range(0, 4); i > 0; i--) { int f = m_pick_live(m); if (m->f[f].type != AA_RX_FRAME_FIXED) m_setlimit(m, sg, m->f[f].cfg); } aa_rx_sg_init(sg); return sg; }
static void kin_queries(void) {
    struct m_sg m; uint64_t mark = sim_heap_mark(); srand(op_choose(1u << 30)); aa_mem_region_local_init((size_t)op_range(0, 400)); sim_heap_fill(op_choose(2) ? 0xff : 0x5a);
    struct aa_rx_sg *sg = world(&m); for (int i = op_range(1, 4); i > 0; i--) one(&m, sg);
    aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P27", kin_queries, kin_queries, 4);
/* ---- many threads ask about one scene and share one chain */
static struct m_sg shm; static struct aa_rx_sg *shsg; static struct kin shk; static int shuni;
static void *asker(void *p) {
    int n = *(int *)p; aa_mem_region_local_init((size_t)op_range(0, 300));
    for (; n > 0; n--) { if (op_choose(2)) one(&shm, shsg); else { struct kin k = shk; ck_members(&k); if (op_choose(2)) ck_config(&k); ck_jac(&k, shuni); } }
    aa_mem_region_local_destroy(); return NULL;
}
static void kin_threads(void) {
    uint64_t mark = sim_heap_mark(); srand(op_choose(1u << 30)); sim_sched_swarm(1); sim_set_races(1); shsg = world(&shm); shuni = 0; mk_chain(&shk, &shm, shsg); 
    sim_tid t[3]; static int n[3]; int nt = op_range(2, 3); for (int i = 0; i < nt; i++) { n[i] = op_range(1, 2); t[i] = sim_spawn("asker", asker, &n[i]); } for (int i = 0; i < nt; i++) sim_join(t[i]);
    aa_rx_sg_sub_destroy(shk.s); aa_rx_sg_destroy(shsg); LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P27", kin_threads, kin_threads, 1);
/* ---- a robot driven by joint velocities: integrating its Jacobian follows its kinematics */
static void jvel(struct kin *k, struct aa_rx_fk *fk, const double *q, const double *dq, int twist, double *dx) {
    aa_mem_region_t *reg = aa_mem_region_local_get(); void *mk = aa_mem_region_ptr(reg); double qs[NN]; struct aa_dvec v = AA_DVEC_INIT((size_t)k->nj, qs, 1); for (int j = 0; j < k->nj; j++) qs[j] = q[aa_rx_sg_sub_config(k->s, (size_t)j)];
    aa_rx_fk_sub(fk, k->s, &v); struct aa_dmat *J = twist ? aa_rx_sg_sub_jac_twist_get(k->s, reg, fk) : aa_rx_sg_sub_jac_vel_get(k->s, reg, fk); for (int r = 0; r < 6; r++) { dx[r] = 0; for (int j = 0; j < k->nj; j++) dx[r] += J->data[(size_t)j * J->ld + (size_t)r] * dq[aa_rx_sg_sub_config(k->s, (size_t)j)]; } aa_mem_region_pop(reg, mk);
}
static void kin_drive(void) {
    struct m_sg m; uint64_t mark = sim_heap_mark(); srand(op_choose(1u << 30)); aa_mem_region_local_init((size_t)op_range(0, 400)); struct aa_rx_sg *sg = world(&m); struct kin k; k.s = NULL;
    for (int i = 0; i < 6; i++) { if (k.s) aa_rx_sg_sub_destroy(k.s); mk_chain(&k, &m, sg); if (k.nj && (op_choose(2) || k.nj > 2)) break; }
    int all = m_ncfg(&m), twist = (int)op_choose(2), N = op_range(4, 24); double q0[NN + 1], a[NN + 1], w[NN + 1], E[7], x[7], dt = 0.01, t = 0; m_randcfg(q0, all); for (int c = 0; c < all; c++) { a[c] = 0; w[c] = 0.5 + fabs(op_unit()) * 2; } for (int j = 0; j < k.nj; j++) a[aa_rx_sg_sub_config(k.s, (size_t)j)] = op_unit();
    /* frames above the chain do not move */
    for (int r = k.root; r >= 0; r = m.f[r].parent) if (m.f[r].type != AA_RX_FRAME_FIXED) a[aa_rx_sg_config_id(sg, m.f[r].cfg)] = 0;
    struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); struct aa_dvec v0 = AA_DVEC_INIT((size_t)all, q0, 1); aa_rx_fk_all(fk, &v0);
    if (k.nj) {
        aa_rx_fk_get_abs_qutr(fk, aa_rx_sg_sub_frame_ee(k.s), x); double path[24 * NN], full[24 * NN];
        for (int s = 0; s < N; s++) { /* pose follows x' = (w x, v) */
            double K[4][7]; for (int st = 0; st < 4; st++) { double h = st == 0 ? 0 : st == 3 ? dt : dt / 2, q[NN + 1], dq[NN + 1], dx[6], y[7], ww[4]; for (int c = 0; c < all; c++) { q[c] = q0[c] + a[c] * sin(w[c] * (t + h)); dq[c] = a[c] * w[c] * cos(w[c] * (t + h)); } for (int i = 0; i < 7; i++) y[i] = x[i] + (st ? h * K[st - 1][i] : 0); jvel(&k, fk, q, dq, twist, dx);
                ww[0] = dx[3]; ww[1] = dx[4]; ww[2] = dx[5]; ww[3] = 0; mq_mul(ww, y, K[st]); for (int i = 0; i < 4; i++) K[st][i] /= 2; K[st][4] = dx[0]; K[st][5] = dx[1]; K[st][6] = dx[2]; if (twist) { K[st][4] += ww[1] * y[6] - ww[2] * y[5]; K[st][5] += ww[2] * y[4] - ww[0] * y[6]; K[st][6] += ww[0] * y[5] - ww[1] * y[4]; } }
            for (int i = 0; i < 7; i++) x[i] += dt / 6 * (K[0][i] + 2 * K[1][i] + 2 * K[2][i] + K[3][i]); t += dt; sim_advance_ns(10000000);
            for (int j = 0; j < k.nj; j++) { aa_rx_config_id c = aa_rx_sg_sub_config(k.s, (size_t)j); path[s * k.nj + j] = q0[c] + a[c] * sin(w[c] * t); }
        }
        aa_rx_sg_sub_expand_path(k.s, (size_t)N, q0, path, full); m_abs(&m, sg, full + (N - 1) * all, k.tip, E); double sc = 1; for (int i = 0; i < 3; i++) sc = fmax(sc, fabs(E[4 + i]));
        SIM_CHECK(m_Eeq(x, E, 2e-6 * sc), "drift", "%d steps of joint velocities through the %s Jacobian end at (%g %g %g), the kinematics at (%g %g %g)", N, twist ? "twist" : "velocity", x[4], x[5], x[6], E[4], E[5], E[6]); sim_hash(x, sizeof x);
    }
    aa_rx_fk_destroy(fk); aa_rx_sg_sub_destroy(k.s); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P27", kin_drive, kin_drive, 1);
