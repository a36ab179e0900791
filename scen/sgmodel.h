/* A small executable model of a scene graph: frames by name, configurations,
 * limits, inertia, geometry counts, allowed pairs, and forward kinematics
 * computed with its own arithmetic. */
#ifndef SGMODEL_H
#define SGMODEL_H
#include <amino.h>
#include <amino/mem.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/rxtype_internal.h>
#include <amino/rx/rxerr.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_fk.h>
#include <amino/rx/scene_sub.h>
#include <amino/rx/scene_dyn.h>
#include <amino/rx/scene_ik_internal.h>
#include <math.h>
#include "util.h"

struct aa_rx_sg_sub *aa_rx_sg_multiple_chain_create(const struct aa_rx_sg *, aa_rx_frame_id, size_t, aa_rx_frame_id *);
#define NN 9            /* frame names */
#define NC 6            /* shared configuration names */
#define NAMELEN 24
static const char *const m_names[NN] = {"base", "arm", "arm_link_with_a_rather_long_name", "tool", "cam", "box", "b", "a", "z"};
static const char *const m_cfgs[NC] = {"q0", "q1", "q2", "joint_with_a_long_name_indeed", "q3", "arm"};

struct m_frame {
    int live;
    int parent;          /* index in m_names, -1 root; may be dangling */
    enum aa_rx_frame_type type;
    double E[7], axis[3], off;
    char cfg[40];
    int has_in; double mass, in[9];
    struct aa_rx_geom *g[8]; int ng;
};
struct m_limit { char cfg[40]; int has[4]; double lo[4], hi[4]; };
struct m_sg {
    struct m_frame f[NN];
    struct m_limit l[16]; int nl;
    int allow[NN][NN];
};

/* ---- own quaternion arithmetic (xyzw) */
static inline void mq_mul(const double *a, const double *b, double *c) {
    double r[4] = {a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
                   a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]};
    for (int i = 0; i < 4; i++) c[i] = r[i];
}
static inline void mq_rot(const double *q, const double *v, double *o) {
    double p[4] = {v[0], v[1], v[2], 0}, c[4] = {-q[0], -q[1], -q[2], q[3]}, t[4];
    mq_mul(q, p, t); mq_mul(t, c, t);
    o[0] = t[0]; o[1] = t[1]; o[2] = t[2];
}
static inline void mE_mul(const double *A, const double *B, double *C) {
    double q[4], v[3];
    mq_mul(A, B, q); mq_rot(A, B + 4, v);
    for (int i = 0; i < 3; i++) v[i] += A[4 + i];
    memcpy(C, q, sizeof q); memcpy(C + 4, v, sizeof v);
}
static inline void mE_inv(const double *A, double *C) {
    double q[4] = {-A[0], -A[1], -A[2], A[3]}, v[3];
    mq_rot(q, A + 4, v);
    memcpy(C, q, sizeof q); for (int i = 0; i < 3; i++) C[4 + i] = -v[i];
}
static inline void m_rel(const struct m_frame *f, double x, double *E) {
    double J[7] = {0, 0, 0, 1, 0, 0, 0}, s = x + f->off;
    if (f->type == AA_RX_FRAME_REVOLUTE) {
        double n = sqrt(f->axis[0] * f->axis[0] + f->axis[1] * f->axis[1] + f->axis[2] * f->axis[2]);
        double th = n * s;
        for (int i = 0; i < 3; i++) J[i] = n > 0 ? f->axis[i] / n * sin(th / 2) : 0;
        J[3] = cos(th / 2);
    } else if (f->type == AA_RX_FRAME_PRISMATIC)
        for (int i = 0; i < 3; i++) J[4 + i] = s * f->axis[i];
    mE_mul(f->E, J, E);
}
static inline int m_Eeq(const double *A, const double *B, double tol) {
    double s = 0;
    for (int i = 0; i < 4; i++) s += A[i] * B[i];
    double sg = s < 0 ? -1 : 1;
    for (int i = 0; i < 4; i++) if (!(fabs(A[i] - sg * B[i]) <= tol)) return 0;
    for (int i = 4; i < 7; i++) if (!(fabs(A[i] - B[i]) <= tol * (1 + fabs(B[i])))) return 0;
    return 1;
}
static inline void m_randq(double *q) {
    double n = 0;
    if (op_choose(3) == 0) { q[0] = q[1] = q[2] = 0; q[3] = 1; return; }
    for (int i = 0; i < 4; i++) q[i] = op_unit();
    for (int i = 0; i < 4; i++) n += q[i] * q[i];
    n = sqrt(n);
    if (n < 0.05) { q[0] = q[1] = q[2] = 0; q[3] = 1; return; }
    for (int i = 0; i < 4; i++) q[i] /= n;
}
static inline const char *m_nm(int i) { return i < 0 ? "" : m_names[i]; }
static inline int m_idx(const char *n) { for (int i = 0; i < NN; i++) if (!strcmp(n, m_names[i])) return i; return -1; }
static inline int m_live(const struct m_sg *m) { int k = 0; for (int i = 0; i < NN; i++) k += m->f[i].live; return k; }
/* 0: every parent exists and there is no cycle */
static inline int m_broken(const struct m_sg *m) {
    for (int i = 0; i < NN; i++) if (m->f[i].live) {
        int k = 0, p = i;
        while (p >= 0) { if (!m->f[p].live) return 1; p = m->f[p].parent; if (++k > NN) return 2; }
    }
    return 0;
}
static inline int m_is_anc(const struct m_sg *m, int anc, int i) { int k = 0; while (i >= 0 && k++ <= NN) { if (i == anc) return 1; i = m->f[i].parent; } return 0; }
static inline struct m_limit *m_lim(struct m_sg *m, const char *cfg, int add) {
    for (int i = 0; i < m->nl; i++) if (!strcmp(m->l[i].cfg, cfg)) return &m->l[i];
    if (!add || m->nl >= 16) return NULL;
    struct m_limit *l = &m->l[m->nl++];
    memset(l, 0, sizeof *l); strcpy(l->cfg, cfg);
    return l;
}
static inline void m_randE(double *E) { m_randq(E); for (int i = 0; i < 3; i++) E[4 + i] = op_unit() * 2; }
static inline void m_randaxis(double *a) {
    static const double ax[4][3] = {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}, {0.6, 0, 0.8}};
    memcpy(a, ax[op_choose(4)], 24);
    if (op_choose(4) == 3) for (int i = 0; i < 3; i++) a[i] = -a[i];
}
/* add (or replace) frame i in both */
static inline void m_add(struct m_sg *m, struct aa_rx_sg *sg, int i, int parent, int allow_null) {
    struct m_frame *f = &m->f[i];
    memset(f, 0, sizeof *f);
    f->live = 1; f->parent = parent;
    m_randE(f->E);
    const double *q = f->E, *v = f->E + 4;
    if (allow_null && op_choose(6) == 1) { static const double id[4] = {0, 0, 0, 1}; memcpy(f->E, id, 32); q = NULL; }
    if (allow_null && op_choose(6) == 1) { memset(f->E + 4, 0, 24); v = NULL; }
    f->type = (enum aa_rx_frame_type)op_choose(3);
    if (f->type == AA_RX_FRAME_FIXED) { aa_rx_sg_add_frame_fixed(sg, m_nm(parent), m_names[i], q, v); return; }
    const char *c = op_choose(5) == 4 ? NULL : m_cfgs[op_choose(NC)];
    strcpy(f->cfg, c ? c : m_names[i]);
    m_randaxis(f->axis);
    f->off = op_choose(2) ? op_unit() : 0;
    if (f->type == AA_RX_FRAME_REVOLUTE) aa_rx_sg_add_frame_revolute(sg, m_nm(parent), m_names[i], q, v, c, f->axis, f->off);
    else aa_rx_sg_add_frame_prismatic(sg, m_nm(parent), m_names[i], q, v, c, f->axis, f->off);
}
/* a frame whose removal or replacement leaves a valid model: any name not yet used, parent any live one */
static inline int m_pick_live(const struct m_sg *m) {
    int n = m_live(m), k;
    if (!n) return -1;
    k = (int)op_choose((uint32_t)n);
    for (int i = 0; i < NN; i++) if (m->f[i].live && !k--) return i;
    return -1;
}
static inline void m_setlimit(struct m_sg *m, struct aa_rx_sg *sg, const char *cfg) {
    int k = (int)op_choose(4); double lo = op_unit() - 1, hi = op_unit() + 1.5;
    struct m_limit *l = m_lim(m, cfg, 1);
    if (!l) return;
    l->has[k] = 1; l->lo[k] = lo; l->hi[k] = hi;
    if (k == 0) aa_rx_sg_set_limit_pos(sg, cfg, lo, hi);
    else if (k == 1) aa_rx_sg_set_limit_vel(sg, cfg, lo, hi);
    else if (k == 2) aa_rx_sg_set_limit_acc(sg, cfg, lo, hi);
    else aa_rx_sg_set_limit_eff(sg, cfg, lo, hi);
}
static inline int m_ncfg(const struct m_sg *m) {
    int n = 0;
    for (int i = 0; i < NN; i++) if (m->f[i].live && m->f[i].type != AA_RX_FRAME_FIXED) {
        int dup = 0;
        for (int j = 0; j < i; j++) if (m->f[j].live && m->f[j].type != AA_RX_FRAME_FIXED && !strcmp(m->f[i].cfg, m->f[j].cfg)) dup = 1;
        n += !dup;
    }
    return n;
}
/* absolute pose of frame i when configuration cfg has value q[config_id(cfg)] */
static inline void m_abs(const struct m_sg *m, const struct aa_rx_sg *sg, const double *q, int i, double *E) {
    double R[7];
    const struct m_frame *f = &m->f[i];
    m_rel(f, f->type == AA_RX_FRAME_FIXED ? 0 : q[aa_rx_sg_config_id(sg, f->cfg)], R);
    if (f->parent < 0) memcpy(E, R, sizeof R);
    else { double P[7]; m_abs(m, sg, q, f->parent, P); mE_mul(P, R, E); }
}
struct m_gcx { const struct m_sg *m; const struct aa_rx_sg *sg; int cnt[NN]; };
static inline void m_geom_cb(void *p, aa_rx_frame_id id, struct aa_rx_geom *g) {
    struct m_gcx *cx = (struct m_gcx *)p;
    int i = m_idx(aa_rx_sg_frame_name(cx->sg, id)), k = cx->cnt[i]++;
    SIM_CHECK(k < cx->m->f[i].ng && cx->m->f[i].g[k] == g, "geometry", "geometry %d of frame '%s' is not the one attached", k, m_names[i]);
}
/* structure: names, ids, parents, types, configurations, limits, inertia, geometry */
static inline void m_check_struct(const struct m_sg *m, struct aa_rx_sg *sg) {
    int nf = m_live(m), nc = m_ncfg(m);
    SIM_CHECK(aa_rx_sg_frame_count(sg) == (size_t)nf, "frame-count", "%zu frames, model has %d", aa_rx_sg_frame_count(sg), nf);
    SIM_CHECK(aa_rx_sg_config_count(sg) == (size_t)nc, "config-count", "%zu configurations, model has %d", aa_rx_sg_config_count(sg), nc);
    for (int i = 0; i < NN; i++) {
        aa_rx_frame_id id = aa_rx_sg_frame_id(sg, m_names[i]);
        const struct m_frame *f = &m->f[i];
        if (!f->live) { SIM_CHECK(id == AA_RX_FRAME_NONE, "frame-id", "absent frame '%s' has id %ld", m_names[i], id); continue; }
        SIM_CHECK(id >= 0 && id < nf, "frame-id", "frame '%s' has id %ld of %d", m_names[i], id, nf);
        SIM_CHECK(!strcmp(aa_rx_sg_frame_name(sg, id), m_names[i]), "frame-id", "id %ld of '%s' is named '%s'", id, m_names[i], aa_rx_sg_frame_name(sg, id));
        aa_rx_frame_id pid = aa_rx_sg_frame_parent(sg, id), want = f->parent < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, m_nm(f->parent));
        SIM_CHECK(pid == want, "frame-parent", "parent of '%s' is %ld, expected %ld", m_names[i], pid, want);
        SIM_CHECK(pid < id, "frame-order", "frame '%s' (%ld) precedes its parent (%ld)", m_names[i], id, pid);
        SIM_CHECK(aa_rx_sg_frame_type(sg, id) == f->type, "frame-type", "type of '%s' is %d", m_names[i], aa_rx_sg_frame_type(sg, id));
        aa_rx_config_id c = aa_rx_sg_frame_config(sg, id);
        if (f->type == AA_RX_FRAME_FIXED) SIM_CHECK(c == AA_RX_CONFIG_NONE, "config-id", "fixed frame '%s' has configuration %ld", m_names[i], c);
        else {
            SIM_CHECK(c >= 0 && c < nc && c == aa_rx_sg_config_id(sg, f->cfg), "config-id", "frame '%s': configuration %ld, id of '%s' is %ld", m_names[i], c, f->cfg, aa_rx_sg_config_id(sg, f->cfg));
            SIM_CHECK(!strcmp(aa_rx_sg_config_name(sg, c), f->cfg), "config-id", "configuration %ld is named '%s', expected '%s'", c, aa_rx_sg_config_name(sg, c), f->cfg);
            SIM_CHECK(!memcmp(aa_rx_sg_frame_axis(sg, id), f->axis, 24), "frame-axis", "axis of '%s'", m_names[i]);
            const struct m_limit *l = m_lim((struct m_sg *)m, f->cfg, 0);
            for (int k = 0; k < 4; k++) {
                double lo = -99, hi = -99; int r = k == 0 ? aa_rx_sg_get_limit_pos(sg, c, &lo, &hi) : k == 1 ? aa_rx_sg_get_limit_vel(sg, c, &lo, &hi) : k == 2 ? aa_rx_sg_get_limit_acc(sg, c, &lo, &hi) : aa_rx_sg_get_limit_eff(sg, c, &lo, &hi);
                int has = l && l->has[k];
                SIM_CHECK((r == 0) == has, "limits", "limit kind %d of '%s': returned %d, %s", k, f->cfg, r, has ? "was set" : "was never set");
                if (has) SIM_CHECK(lo == l->lo[k] && hi == l->hi[k], "limits", "limit kind %d of '%s' is [%g,%g], set to [%g,%g]", k, f->cfg, lo, hi, l->lo[k], l->hi[k]);
            }
            double cen = aa_rx_sg_config_center(sg, c), want_c = l && l->has[0] ? (l->lo[0] + l->hi[0]) / 2 : 0;
            SIM_CHECK(fabs(cen - want_c) < 1e-12, "limits", "center of '%s' is %g, expected %g", f->cfg, cen, want_c);
        }
        double ms = aa_rx_sg_frame_get_mass(sg, id);
        if (f->has_in) {
            SIM_CHECK(ms == f->mass, "inertia", "mass of '%s' is %g, set to %g", m_names[i], ms, f->mass);
            const double *I = aa_rx_sg_frame_get_inertia(sg, id);
            SIM_CHECK(I && !memcmp(I, f->in, sizeof f->in), "inertia", "inertia of '%s' differs", m_names[i]);
        } else SIM_CHECK(isnan(ms) && !aa_rx_sg_frame_get_inertia(sg, id), "inertia", "frame '%s' has inertia that was never set", m_names[i]);
    }
    for (int id = 0; id < nc; id++) {
        const char *n = aa_rx_sg_config_name(sg, id);
        SIM_CHECK(aa_rx_sg_config_id(sg, n) == id, "config-id", "configuration %d named '%s' maps to %ld", id, n, aa_rx_sg_config_id(sg, n));
    }
    for (int c = 0; c < NC; c++) {
        int used = 0;
        for (int i = 0; i < NN; i++) if (m->f[i].live && m->f[i].type != AA_RX_FRAME_FIXED && !strcmp(m->f[i].cfg, m_cfgs[c])) used = 1;
        if (!used) SIM_CHECK(aa_rx_sg_config_id(sg, m_cfgs[c]) == AA_RX_CONFIG_NONE, "config-id", "configuration '%s' of no joint has id %ld", m_cfgs[c], aa_rx_sg_config_id(sg, m_cfgs[c]));
    }
    const char *names[NN + 1];
    size_t k = aa_rx_sg_config_names(sg, NN + 1, names);
    SIM_CHECK(k == (size_t)nc, "config-count", "%zu configuration names, expected %d", k, nc);
    SIM_CHECK(!strcmp(aa_rx_sg_config_name(sg, nc), "NONE"), "config-id", "configuration past the end is named '%s'", aa_rx_sg_config_name(sg, nc));
    SIM_CHECK(!strcmp(aa_rx_sg_frame_name(sg, nf), "?"), "frame-id", "frame past the end is named '%s'", aa_rx_sg_frame_name(sg, nf));
    struct m_gcx cx = {m, sg, {0}};
    aa_rx_sg_map_geom(sg, m_geom_cb, &cx);
    for (int i = 0; i < NN; i++) if (m->f[i].live) SIM_CHECK(cx.cnt[i] == m->f[i].ng, "geometry", "frame '%s' lists %d geometries, %d attached", m_names[i], cx.cnt[i], m->f[i].ng);
}
static inline void m_randcfg(double *q, int n) { for (int i = 0; i < n; i++) q[i] = op_unit() * 3; }
/* every kinematics entry point against the model */
static inline void m_check_fk(const struct m_sg *m, const struct aa_rx_sg *sg) {
    int nf = m_live(m), nc = m_ncfg(m);
    double q[2 * NN + 2], q2[NN + 1];
    m_randcfg(q2, nc);
    int inc = 1 + (int)(op_choose(3) == 1);
    memset(q, 0, sizeof q);
    for (int i = 0; i < nc; i++) q[i * inc] = q2[i];
    struct aa_dvec qv = AA_DVEC_INIT((size_t)nc, q, (size_t)inc);
    double W[NN][7];
    memset(W, 0, sizeof W);
    for (int i = 0; i < NN; i++) if (m->f[i].live) m_abs(m, sg, q2, i, W[i]);
    size_t ld = 7 + op_choose(3);
    struct aa_rx_fk *fk = aa_rx_fk_malloc(sg), *fk2 = aa_rx_fk_malloc(sg);
    aa_rx_fk_all(fk, &qv);
    aa_rx_fk_cpy(fk2, fk);
    double *rel = (double *)malloc(sizeof(double) * ld * (size_t)(nf + 1)), *abs_ = (double *)malloc(sizeof(double) * ld * (size_t)(nf + 1));
    aa_rx_sg_tf(sg, (size_t)nc, q2, (size_t)nf, rel, ld, abs_, ld);
    double *T1 = (double *)malloc(96 * (size_t)(nf + 1)), *T2 = (double *)malloc(96 * (size_t)(nf + 1));
    aa_rx_sg_tfmat(sg, (size_t)nc, q2, (size_t)nf, T1, 12, T2, 12);
    double *S1 = (double *)malloc(64 * (size_t)(nf + 1)), *S2 = (double *)malloc(64 * (size_t)(nf + 1));
    aa_rx_sg_duqu(sg, (size_t)nc, q2, (size_t)nf, S1, 8, S2, 8);
    /* incremental update from another configuration */
    double q0[NN + 1];
    for (int i = 0; i < nc; i++) q0[i] = op_choose(2) ? q2[i] : op_choose(3) == 2 ? q2[i] + op_unit() * 1e-4 : op_unit() * 3;
    double *r0 = (double *)malloc(56 * (size_t)(nf + 1)), *a0 = (double *)malloc(56 * (size_t)(nf + 1)), *r1 = (double *)malloc(56 * (size_t)(nf + 1)), *a1 = (double *)malloc(56 * (size_t)(nf + 1));
    aa_rx_sg_tf(sg, (size_t)nc, q0, (size_t)nf, r0, 7, a0, 7);
    aa_rx_sg_tf_update(sg, (size_t)nc, q0, q2, (size_t)nf, r0, 7, a0, 7, r1, 7, a1, 7);
    aa_mem_region_t *reg = aa_mem_region_local_get();
    void *mk = aa_mem_region_ptr(reg);
    struct aa_dmat *TF = aa_rx_sg_get_tf_abs(sg, reg, &qv);
    for (int i = 0; i < NN; i++) if (m->f[i].live) {
        size_t id = (size_t)aa_rx_sg_frame_id(sg, m_names[i]);
        double E[7];
        aa_rx_fk_get_abs_qutr(fk2, (aa_rx_frame_id)id, E);
        SIM_CHECK(m_Eeq(E, W[i], 1e-7), "kinematics", "aa_rx_fk_all: pose of '%s' (x %g, model %g; increment %d)", m_names[i], E[4], W[i][4], inc);
        SIM_CHECK(m_Eeq(abs_ + ld * id, W[i], 1e-7), "kinematics", "aa_rx_sg_tf: pose of '%s'", m_names[i]);
        SIM_CHECK(m_Eeq(a1 + 7 * id, W[i], 1e-7), "kinematics", "aa_rx_sg_tf_update: pose of '%s'", m_names[i]);
        SIM_CHECK(m_Eeq(TF->data + TF->ld * id, W[i], 1e-7), "kinematics", "aa_rx_sg_get_tf_abs: pose of '%s' (increment %d)", m_names[i], inc);
        for (int c = 0; c < 3; c++) {
            double e[3] = {c == 0, c == 1, c == 2}, r[3];
            mq_rot(W[i], e, r);
            for (int k = 0; k < 3; k++) SIM_CHECK(fabs(T2[12 * id + (size_t)(3 * c + k)] - r[k]) < 1e-7, "kinematics", "aa_rx_sg_tfmat: rotation of '%s'", m_names[i]);
        }
        for (int k = 0; k < 3; k++) SIM_CHECK(fabs(T2[12 * id + 9 + (size_t)k] - W[i][4 + k]) < 1e-7 * (1 + fabs(W[i][4 + k])), "kinematics", "aa_rx_sg_tfmat: position %d of '%s' is %g, expected %g", k, m_names[i], T2[12 * id + 9 + (size_t)k], W[i][4 + k]);
        const double *S = S2 + 8 * id;
        double cj[4] = {-S[0], -S[1], -S[2], S[3]}, v2[4], ED[7];
        mq_mul(S + 4, cj, v2);
        memcpy(ED, S, 32); for (int k = 0; k < 3; k++) ED[4 + k] = 2 * v2[k];
        SIM_CHECK(m_Eeq(ED, W[i], 1e-7), "kinematics", "aa_rx_sg_duqu: pose of '%s' (x %g, expected %g)", m_names[i], ED[4], W[i][4]);
        /* relative pose to some other frame */
        int j = (int)op_choose(NN);
        double inv[7], want[7] = {0, 0, 0, 1, 0, 0, 0}, got[7];
        aa_rx_frame_id jd = m->f[j].live ? aa_rx_sg_frame_id(sg, m_names[j]) : AA_RX_FRAME_ROOT;
        if (jd >= 0) { mE_inv(W[j], inv); mE_mul(inv, W[i], want); } else memcpy(want, W[i], sizeof want);
        aa_rx_sg_rel_tf(sg, jd, (aa_rx_frame_id)id, abs_, ld, got);
        SIM_CHECK(m_Eeq(got, want, 1e-6), "kinematics", "aa_rx_sg_rel_tf: '%s' in '%s'", m_names[i], jd < 0 ? "" : m_names[j]);
        aa_rx_fk_get_rel_qutr(fk, jd, (aa_rx_frame_id)id, got);
        SIM_CHECK(m_Eeq(got, want, 1e-6), "kinematics", "aa_rx_fk_get_rel_qutr: '%s' in '%s'", m_names[i], jd < 0 ? "" : m_names[j]);
    }
    aa_mem_region_pop(reg, mk);
    free(rel); free(abs_); free(T1); free(T2); free(S1); free(S2); free(r0); free(a0); free(r1); free(a1);
    aa_rx_fk_destroy(fk); aa_rx_fk_destroy(fk2);
}
/* only the first n_tf frames are written, and nothing past the last frame */
static inline void m_check_partial(const struct m_sg *m, const struct aa_rx_sg *sg) {
    int nf = m_live(m), nc = m_ncfg(m), kind = (int)op_choose(4), w = kind == 1 ? 12 : kind == 2 ? 8 : 7;
    double q[NN + 1];
    m_randcfg(q, nc);
    size_t n = op_choose(4) ? op_choose((unsigned)nf + 1) : (size_t)nf + 1 + op_choose(3), lr = (size_t)w + op_choose(3), la = (size_t)w + op_choose(3), rows = (size_t)nf + 4;
    double *R = (double *)malloc(8 * rows * lr), *A = (double *)malloc(8 * rows * la), *R0 = (double *)malloc(8 * rows * lr), *A0 = (double *)malloc(8 * rows * la);
    double *RF = (double *)malloc(8 * rows * lr), *AF = (double *)malloc(8 * rows * la);
    for (size_t i = 0; i < rows * lr; i++) R[i] = RF[i] = -77;
    for (size_t i = 0; i < rows * la; i++) A[i] = AF[i] = -77;
    const char *nm;
    if (kind == 0) { nm = "aa_rx_sg_tf"; aa_rx_sg_tf(sg, (size_t)nc, q, n, R, lr, A, la); aa_rx_sg_tf(sg, (size_t)nc, q, (size_t)nf, RF, lr, AF, la); }
    else if (kind == 1) { nm = "aa_rx_sg_tfmat"; aa_rx_sg_tfmat(sg, (size_t)nc, q, n, R, lr, A, la); aa_rx_sg_tfmat(sg, (size_t)nc, q, (size_t)nf, RF, lr, AF, la); }
    else if (kind == 2) { nm = "aa_rx_sg_duqu"; aa_rx_sg_duqu(sg, (size_t)nc, q, n, R, lr, A, la); aa_rx_sg_duqu(sg, (size_t)nc, q, (size_t)nf, RF, lr, AF, la); }
    else {
        double q0[NN + 1];
        nm = "aa_rx_sg_tf_update";
        for (int i = 0; i < nc; i++) q0[i] = op_choose(2) ? q[i] : op_unit() * 3;
        aa_rx_sg_tf(sg, (size_t)nc, q0, (size_t)nf, R0, lr, A0, la);
        aa_rx_sg_tf_update(sg, (size_t)nc, q0, q, n, R0, lr, A0, la, R, lr, A, la);
        aa_rx_sg_tf_update(sg, (size_t)nc, q0, q, (size_t)nf, R0, lr, A0, la, RF, lr, AF, la);
    }
    for (size_t i = 0; i < rows; i++) {
        int in = i < n && i < (size_t)nf;
        for (size_t k = 0; k < lr; k++) SIM_CHECK(R[i * lr + k] == (in ? RF[i * lr + k] : -77), "count", "%s for %zu of %d frames: entry %zu of relative row %zu is %g", nm, n, nf, k, i, R[i * lr + k]);
        for (size_t k = 0; k < la; k++) SIM_CHECK(A[i * la + k] == (in ? AF[i * la + k] : -77), "count", "%s for %zu of %d frames: entry %zu of absolute row %zu is %g", nm, n, nf, k, i, A[i * la + k]);
        if (in) for (size_t k = (size_t)w; k < la; k++) SIM_CHECK(A[i * la + k] == -77, "count", "%s writes past the %d numbers of absolute row %zu", nm, w, i);
        if (in) for (size_t k = (size_t)w; k < lr; k++) SIM_CHECK(R[i * lr + k] == -77, "count", "%s writes past the %d numbers of relative row %zu", nm, w, i);
    }
    free(R); free(A); free(R0); free(A0); free(RF); free(AF);
}
/* a kinematic chain from some ancestor to some frame */
static inline void m_check_chain(const struct m_sg *m, const struct aa_rx_sg *sg) {
    int tip = m_pick_live(m);
    if (tip < 0) return;
    int path[NN], n = 0, p = tip, stop = (int)op_choose(3) ? -1 : 1;
    int root = -1;
    while (p >= 0) { path[n++] = p; p = m->f[p].parent; if (stop > 0 && p >= 0 && op_choose(2)) { root = p; break; } }
    struct aa_rx_sg_sub *ssg = aa_rx_sg_chain_create(sg, root < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, m_names[root]), aa_rx_sg_frame_id(sg, m_names[tip]));
    SIM_CHECK(aa_rx_sg_sub_frame_count(ssg) == (size_t)n, "chain", "chain '%s'..'%s' has %zu frames, expected %d", m_nm(root), m_names[tip], aa_rx_sg_sub_frame_count(ssg), n);
    size_t nc = 0;
    int dup = 0;
    for (int k = 0; k < n; k++) {
        int i = path[n - 1 - k];
        SIM_CHECK(aa_rx_sg_sub_frame(ssg, (size_t)k) == aa_rx_sg_frame_id(sg, m_names[i]), "chain", "frame %d of chain is %ld, expected '%s'", k, aa_rx_sg_sub_frame(ssg, (size_t)k), m_names[i]);
        if (m->f[i].type != AA_RX_FRAME_FIXED) {
            SIM_CHECK(nc < aa_rx_sg_sub_config_count(ssg) && aa_rx_sg_sub_config(ssg, nc) == aa_rx_sg_config_id(sg, m->f[i].cfg), "chain", "configuration %zu of chain is not that of '%s'", nc, m_names[i]);
            for (size_t j = 0; j < nc; j++) if (aa_rx_sg_sub_config(ssg, j) == aa_rx_sg_sub_config(ssg, nc)) dup = 1;
            nc++;
        }
    }
    SIM_CHECK(aa_rx_sg_sub_config_count(ssg) == nc, "chain", "chain has %zu configurations, expected %zu", aa_rx_sg_sub_config_count(ssg), nc);
    SIM_CHECK(aa_rx_sg_sub_frame_ee(ssg) == aa_rx_sg_frame_id(sg, m_names[tip]), "chain", "end effector");
    if (!dup) {
        /* scatter/gather round trip and partial kinematics */
        int all = m_ncfg(m);
        double qa[NN + 1], qs[NN + 1], qb[NN + 1], sub[NN + 1];
        m_randcfg(qa, all); m_randcfg(qs, (int)nc); memcpy(qb, qa, sizeof(double) * (size_t)all);
        struct aa_dvec va = AA_DVEC_INIT((size_t)all, qb, 1), vs = AA_DVEC_INIT(nc, qs, 1), vo = AA_DVEC_INIT(nc, sub, 1);
        struct aa_rx_fk *fk = aa_rx_fk_malloc(sg);
        struct aa_dvec v0 = AA_DVEC_INIT((size_t)all, qa, 1);
        aa_rx_fk_all(fk, &v0);
        aa_rx_sg_sub_config_scatter(ssg, &vs, &va);
        aa_rx_sg_sub_config_gather(ssg, &va, &vo);
        for (size_t j = 0; j < nc; j++) SIM_CHECK(sub[j] == qs[j], "chain", "scatter then gather changed value %zu", j);
        for (int c = 0; c < all; c++) {
            int in = -1; for (size_t j = 0; j < nc; j++) if (aa_rx_sg_sub_config(ssg, j) == c) in = (int)j;
            SIM_CHECK(qb[c] == (in >= 0 ? qs[in] : qa[c]), "chain", "scatter wrote configuration %d", c);
        }
        aa_rx_fk_sub(fk, ssg, &vs);
        int shared = 0; /* do frames above the chain depend on changed values? */
        for (int a = root; a >= 0; a = m->f[a].parent) if (m->f[a].type != AA_RX_FRAME_FIXED)
            for (size_t j = 0; j < nc; j++) if (aa_rx_sg_sub_config(ssg, j) == aa_rx_sg_config_id(sg, m->f[a].cfg)) shared = 1;
        if (!shared) for (int k = 0; k < n; k++) {
            double W[7], E[7];
            m_abs(m, sg, qb, path[k], W);
            aa_rx_fk_get_abs_qutr(fk, aa_rx_sg_frame_id(sg, m_names[path[k]]), E);
            SIM_CHECK(m_Eeq(E, W, 1e-7), "kinematics", "aa_rx_fk_sub: pose of '%s'", m_names[path[k]]);
        }
        aa_rx_fk_destroy(fk);
    }
    aa_rx_sg_sub_destroy(ssg);
}
/* the union of several chains */
static inline void m_check_multichain(const struct m_sg *m, const struct aa_rx_sg *sg) {
    int nt = 1 + (int)op_choose(3), tip[3], in[NN] = {0}, cnt = 0; size_t nc = 0;
    aa_rx_frame_id tips[3];
    for (int k = 0; k < nt; k++) { tip[k] = m_pick_live(m); if (tip[k] < 0) return; tips[k] = aa_rx_sg_frame_id(sg, m_names[tip[k]]); }
    int root = op_choose(3) ? -1 : m_pick_live(m);
    for (int k = 0; k < nt; k++) for (int p = tip[k]; p >= 0 && p != root; p = m->f[p].parent) in[p] = 1;
    struct aa_rx_sg_sub *ssg = aa_rx_sg_multiple_chain_create(sg, root < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, m_names[root]), (size_t)nt, tips);
    for (int i = 0; i < NN; i++) if (in[i]) { cnt++; nc += m->f[i].type != AA_RX_FRAME_FIXED; }
    SIM_CHECK(aa_rx_sg_sub_frame_count(ssg) == (size_t)cnt, "chain", "chain of %d tips has %zu frames, expected %d", nt, aa_rx_sg_sub_frame_count(ssg), cnt);
    SIM_CHECK(aa_rx_sg_sub_config_count(ssg) == nc, "chain", "chain of %d tips has %zu configurations, expected %zu", nt, aa_rx_sg_sub_config_count(ssg), nc);
    for (int k = 0; k < cnt; k++) {
        aa_rx_frame_id id = aa_rx_sg_sub_frame(ssg, (size_t)k);
        int i = m_idx(aa_rx_sg_frame_name(sg, id));
        SIM_CHECK(i >= 0 && in[i], "chain", "frame %d of the chain of %d tips is %ld", k, nt, id);
        in[i] = 0;
        SIM_CHECK(!k || aa_rx_sg_sub_frame(ssg, (size_t)k - 1) < id, "chain", "frames of a chain are not in order");
    }
    SIM_CHECK(aa_rx_sg_sub_frame_ee_count(ssg) == (size_t)nt, "chain", "%zu end effectors, expected %d", aa_rx_sg_sub_frame_ee_count(ssg), nt);
    for (int k = 0; k < nt; k++) SIM_CHECK(aa_rx_sg_sub_frame_ees(ssg)[k] == tips[k], "chain", "end effector %d", k);
    aa_rx_sg_sub_destroy(ssg);
}
/* random valid scene graph */
static inline struct aa_rx_sg *m_build(struct m_sg *m, int lo, int hi) {
    struct aa_rx_sg *sg = aa_rx_sg_create();
    memset(m, 0, sizeof *m);
    int n = op_range(lo, hi), perm[NN];
    for (int i = 0; i < NN; i++) perm[i] = i;
    for (int i = NN - 1; i > 0; i--) { int j = (int)op_choose((uint32_t)i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
    for (int k = 0; k < n; k++) {
        int parent = k ? (int)op_choose((uint32_t)k + 1) - 1 : -1;
        m_add(m, sg, perm[k], parent < 0 ? -1 : perm[parent], 0);
    }
    for (int k = op_range(0, 3); k > 0; k--) m_setlimit(m, sg, m_cfgs[op_choose(NC)]);
    return sg;
}
#endif
