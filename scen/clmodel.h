/* Collision geometry and an exact geometric oracle for it. */
#ifndef CLMODEL_H
#define CLMODEL_H
#pragma GCC diagnostic ignored "-Wunused-function"
#include "sgmodel.h"
#include <float.h>
#include <amino/rx/scene_collision.h>
#include <amino/rx/scenegraph_internal.h>

/* ------------------------------------------------------------ shapes */
enum { K_SPHERE, K_BOX, K_CYL, K_MESH, K_NONE };
struct shape { int kind; double d[3]; double v[12][3]; int nt, tri[12][3]; const struct aa_rx_geom *g; int col; };
#define MAXS 48
static struct shape shp[MAXS]; static int n_shp;
static struct shape *shp_of(const struct aa_rx_geom *g) { for (int i = n_shp - 1; i >= 0; i--) if (shp[i].g == g) return &shp[i]; return NULL; }
static const double G_DIM[] = {0.2, 0.35, 0.5, 0.8};
static struct aa_rx_geom *cl_geom(int plain) {
    static const double sc[] = {1, 1, 0.5, 2};
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    struct shape *s = &shp[n_shp++ % MAXS];
    if (n_shp > MAXS) n_shp = MAXS;
    memset(s, 0, sizeof *s);
    double scale = sc[op_choose(4)];
    s->col = plain || op_choose(6) != 5;
    aa_rx_geom_opt_set_collision(o, s->col);
    aa_rx_geom_opt_set_scale(o, scale);
    struct aa_rx_geom *g;
    double d[3];
    for (int i = 0; i < 3; i++) d[i] = G_DIM[op_choose(4)];
    for (int i = 0; i < 3; i++) s->d[i] = d[i] * scale;
    switch (op_choose(plain ? 3 : 5)) {
    case 0: s->kind = K_SPHERE; g = aa_rx_geom_sphere(o, d[0]); break;
    case 1: s->kind = K_BOX; g = aa_rx_geom_box(o, d); for (int i = 0; i < 3; i++) s->d[i] /= 2; break;
    case 2: s->kind = K_CYL; g = aa_rx_geom_cylinder(o, d[0], d[1]); break; /* height, radius */
    case 3: {
        s->kind = K_MESH;
        static const float base[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        static const unsigned idx[12] = {0, 1, 2, 0, 1, 3, 0, 2, 3, 1, 2, 3};
        float v[12]; unsigned ix[12]; double off[3];
        for (int i = 0; i < 3; i++) off[i] = op_choose(2) ? 0 : 3 * op_unit();      /* the mesh need not surround its origin */
        int nt = op_range(1, 4);
        for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) { v[3 * i + k] = (float)(base[i][k] * d[k] + off[k]); s->v[i][k] = scale * v[3 * i + k]; }
        memcpy(ix, idx, sizeof ix);
        s->nt = nt;
        for (int t = 0; t < nt; t++) for (int k = 0; k < 3; k++) s->tri[t][k] = (int)idx[3 * t + k];
        struct aa_rx_mesh *m = aa_rx_mesh_create();
        aa_rx_mesh_set_vertices(m, 4, v, 1); aa_rx_mesh_set_indices(m, (size_t)nt, ix, 1);
        g = aa_rx_geom_mesh(o, m); aa_rx_mesh_destroy(m);
        break; }
    default: s->kind = K_NONE; s->col = 0; { double p[2] = {1, 1}, q[2] = {.1, .1}; g = aa_rx_geom_grid(o, p, q, .01); } break;
    }
    aa_rx_geom_opt_destroy(o);
    s->g = g;
    return g;
}
/* ---- signed distance (positive inside) of a point to a convex shape at pose E, and its gradient */
static double depth(const struct shape *s, const double *E, const double *p, double *g) {
    double c[4] = {-E[0], -E[1], -E[2], E[3]}, w[3] = {p[0] - E[4], p[1] - E[5], p[2] - E[6]}, x[3], n[3] = {0, 0, 0}, r;
    mq_rot(c, w, x);
    if (s->kind == K_SPHERE) {
        double l = sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
        r = s->d[0] - l;
        for (int i = 0; i < 3; i++) n[i] = l > 1e-12 ? -x[i] / l : 0;
    } else if (s->kind == K_BOX) {
        double o2 = 0, best = 1e9; int bi = 0;
        for (int i = 0; i < 3; i++) { double k = s->d[i] - fabs(x[i]); if (k < 0) { o2 += k * k; n[i] = x[i] > 0 ? k : -k; } if (k < best) { best = k; bi = i; } }
        if (o2 > 0) { double l = sqrt(o2); r = -l; for (int i = 0; i < 3; i++) n[i] /= l; }
        else { r = best; n[bi] = x[bi] > 0 ? -1 : 1; }
    } else { /* cylinder: d[0] height along +z, d[1] radius */
        double rho = hypot(x[0], x[1]), kr = s->d[1] - rho, kz = s->d[0] / 2 - fabs(x[2] - s->d[0] / 2), sz = x[2] > s->d[0] / 2 ? -1 : 1;
        double ux = rho > 1e-12 ? x[0] / rho : 0, uy = rho > 1e-12 ? x[1] / rho : 0;
        if (kr < 0 || kz < 0) {
            double a = kr < 0 ? kr : 0, b = kz < 0 ? kz : 0, l = sqrt(a * a + b * b);
            r = -l; n[0] = a / l * ux; n[1] = a / l * uy; n[2] = -b / l * sz;
        } else if (kr < kz) { r = kr; n[0] = -ux; n[1] = -uy; }
        else { r = kz; n[2] = sz; }
    }
    if (g) mq_rot(E, n, g);
    return r;
}
/* max over p of min(depth A, depth B): half the negated distance when disjoint, positive when they overlap.  Ellipsoid method. */
static double gap_convex(const struct shape *a, const double *Ea, const struct shape *b, const double *Eb) {
    double c[3], P[3][3] = {{0}}, best = -1e9, R = 0;
    for (int i = 0; i < 3; i++) { c[i] = (Ea[4 + i] + Eb[4 + i]) / 2; R += (Ea[4 + i] - Eb[4 + i]) * (Ea[4 + i] - Eb[4 + i]); }
    R = sqrt(R) / 2 + 4.5;
    for (int i = 0; i < 3; i++) P[i][i] = R * R;
    for (int it = 0; it < 700; it++) {
        double ga[3], gb[3], fa = depth(a, Ea, c, ga), fb = depth(b, Eb, c, gb), *g = fa < fb ? ga : gb, f = fa < fb ? fa : fb, Pg[3], gPg = 0;
        if (f > best) best = f;
        for (int i = 0; i < 3; i++) Pg[i] = P[i][0] * g[0] + P[i][1] * g[1] + P[i][2] * g[2];
        for (int i = 0; i < 3; i++) gPg += g[i] * Pg[i];
        double s = sqrt(gPg > 0 ? gPg : 0);
        if (best > 0.05 || s < 1e-5 || (f + s < best + 1e-5)) break;
        for (int i = 0; i < 3; i++) c[i] += Pg[i] / s / 4;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) P[i][j] = 9.0 / 8 * (P[i][j] - Pg[i] * Pg[j] / (s * s) / 2);
    }
    return best < 0 ? -2 * best : -best;     /* distance, or minus a depth */
}
static void tri_at(const struct shape *m, const double *E, int t, double T[3][3]) {
    for (int k = 0; k < 3; k++) { mq_rot(E, m->v[m->tri[t][k]], T[k]); for (int i = 0; i < 3; i++) T[k][i] += E[4 + i]; }
}
static double gap_tri_convex(double T[3][3], const struct shape *b, const double *Eb) {
    const double ph = 0.6180339887498949; double res = -1e9;
    double u0 = 0, u1 = 1; double fu[2], us[2] = {u1 - ph, ph};
#define INNER(u, out) do { double v0 = 0, v1 = 1 - (u), vs[2], fv[2]; vs[0] = v1 - ph * (v1 - v0); vs[1] = v0 + ph * (v1 - v0); \
    for (int k_ = 0; k_ < 2; k_++) { double p_[3]; for (int i = 0; i < 3; i++) p_[i] = T[0][i] + (u) * (T[1][i] - T[0][i]) + vs[k_] * (T[2][i] - T[0][i]); fv[k_] = depth(b, Eb, p_, NULL); } \
    for (int it_ = 0; it_ < 22; it_++) { int k_; if (fv[0] > fv[1]) { v1 = vs[1]; vs[1] = vs[0]; fv[1] = fv[0]; vs[0] = v1 - ph * (v1 - v0); k_ = 0; } else { v0 = vs[0]; vs[0] = vs[1]; fv[0] = fv[1]; vs[1] = v0 + ph * (v1 - v0); k_ = 1; } \
        double p_[3]; for (int i = 0; i < 3; i++) p_[i] = T[0][i] + (u) * (T[1][i] - T[0][i]) + vs[k_] * (T[2][i] - T[0][i]); fv[k_] = depth(b, Eb, p_, NULL); } \
    out = fv[0] > fv[1] ? fv[0] : fv[1]; } while (0)
    INNER(us[0], fu[0]); INNER(us[1], fu[1]);
    for (int it = 0; it < 22; it++) {
        if (fu[0] > fu[1]) { u1 = us[1]; us[1] = us[0]; fu[1] = fu[0]; us[0] = u1 - ph * (u1 - u0); INNER(us[0], fu[0]); }
        else { u0 = us[0]; us[0] = us[1]; fu[0] = fu[1]; us[1] = u0 + ph * (u1 - u0); INNER(us[1], fu[1]); }
    }
    res = fu[0] > fu[1] ? fu[0] : fu[1];
    return -res;
}
static double vdot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void vsub(const double *a, const double *b, double *c) { for (int i = 0; i < 3; i++) c[i] = a[i] - b[i]; }
static void vcross(const double *a, const double *b, double *c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; }
static double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double seg_seg(const double *p0, const double *p1, const double *q0, const double *q1) {
    double d1[3], d2[3], r[3]; vsub(p1, p0, d1); vsub(q1, q0, d2); vsub(p0, q0, r);
    double a = vdot(d1, d1), e = vdot(d2, d2), f = vdot(d2, r), c = vdot(d1, r), b = vdot(d1, d2), den = a * e - b * b, s = den > 1e-12 ? clamp01((b * f - c * e) / den) : 0, t = (b * s + f) / e;
    if (t < 0) { t = 0; s = clamp01(-c / a); } else if (t > 1) { t = 1; s = clamp01((b - c) / a); }
    double x[3]; for (int i = 0; i < 3; i++) x[i] = p0[i] + s * d1[i] - q0[i] - t * d2[i];
    return sqrt(vdot(x, x));
}
static double pt_tri(const double *p, double T[3][3]) { /* distance to the interior projection, or inf */
    double e0[3], e1[3], n[3], w[3]; vsub(T[1], T[0], e0); vsub(T[2], T[0], e1); vcross(e0, e1, n); vsub(p, T[0], w);
    double n2 = vdot(n, n), t[3]; vcross(w, e1, t); double u = vdot(t, n) / n2; vcross(e0, w, t); double v = vdot(t, n) / n2;
    if (u < 0 || v < 0 || u + v > 1) return 1e9;
    return fabs(vdot(w, n)) / sqrt(n2);
}
/* -1 an edge pierces the other triangle well inside; 0 unclear */
static int pierce(const double *a, const double *b, double T[3][3]) {
    double e0[3], e1[3], n[3], wa[3], wb[3]; vsub(T[1], T[0], e0); vsub(T[2], T[0], e1); vcross(e0, e1, n);
    double l = sqrt(vdot(n, n)); vsub(a, T[0], wa); vsub(b, T[0], wb);
    double ha = vdot(wa, n) / l, hb = vdot(wb, n) / l;
    if (ha * hb > 0 || fabs(ha) < 0.01 || fabs(hb) < 0.01) return 0;
    double s = ha / (ha - hb), w[3], t[3]; for (int i = 0; i < 3; i++) w[i] = wa[i] + s * (wb[i] - wa[i]);
    vcross(w, e1, t); double u = vdot(t, n) / (l * l); vcross(e0, w, t); double v = vdot(t, n) / (l * l);
    return u > .05 && v > .05 && u + v < .95 ? -1 : 0;
}
static double gap_tri_tri(double A[3][3], double B[3][3]) {
    for (int k = 0; k < 3; k++) if (pierce(A[k], A[(k + 1) % 3], B) || pierce(B[k], B[(k + 1) % 3], A)) return -1;
    double d = 1e9;
    /* crossing without a robust pierce: unclear */
    for (int k = 0; k < 3; k++) {
        for (int j = 0; j < 3; j++) { double x = seg_seg(A[k], A[(k + 1) % 3], B[j], B[(j + 1) % 3]); if (x < d) d = x; }
        double x = pt_tri(A[k], B); if (x < d) d = x;
        x = pt_tri(B[k], A); if (x < d) d = x;
    }
    /* an edge may cross near the border of the other triangle: its distance there is small already, except deep inside */
    for (int k = 0; k < 3; k++) for (int w = 0; w < 2; w++) {
        double (*P)[3] = w ? B : A, (*Q)[3] = w ? A : B, e0[3], e1[3], n[3], wa[3], wb[3];
        vsub(Q[1], Q[0], e0); vsub(Q[2], Q[0], e1); vcross(e0, e1, n); vsub(P[k], Q[0], wa); vsub(P[(k + 1) % 3], Q[0], wb);
        double ha = vdot(wa, n), hb = vdot(wb, n);
        if (ha * hb <= 0 && ha != hb) { double s = ha / (ha - hb), x[3]; for (int i = 0; i < 3; i++) x[i] = P[k][i] + s * (P[(k + 1) % 3][i] - P[k][i]); if (pt_tri(x, Q) < 1e8) return 0; }
    }
    return d;
}
/* distance when positive, certain overlap when negative; near 0 is unclear */
static double gap(const struct shape *a, const double *Ea, const struct shape *b, const double *Eb) {
    if (a->kind == K_MESH && b->kind == K_MESH) {
        double d = 1e9;
        for (int i = 0; i < a->nt; i++) for (int j = 0; j < b->nt; j++) { double A[3][3], B[3][3]; tri_at(a, Ea, i, A); tri_at(b, Eb, j, B); double x = gap_tri_tri(A, B); if (x < d) d = x; }
        return d;
    }
    if (b->kind == K_MESH) return gap(b, Eb, a, Ea);
    if (a->kind == K_MESH) {
        double d = 1e9;
        for (int i = 0; i < a->nt; i++) { double A[3][3]; tri_at(a, Ea, i, A); double x = gap_tri_convex(A, b, Eb); if (x < d) d = x; }
        return d;
    }
    return gap_convex(a, Ea, b, Eb);
}
static struct aa_rx_fk *g_fk;
#define CLEAR 0.02
/* over all collision geometry of two frames */
static double frame_gap(const struct m_sg *m, int i, int j, const double *Ei, const double *Ej, int *mesh) {
    double d = 1e9; *mesh = 0;
    for (int a = 0; a < m->f[i].ng; a++) for (int b = 0; b < m->f[j].ng; b++) {
        const struct shape *x = shp_of(m->f[i].g[a]), *y = shp_of(m->f[j].g[b]);
        if (!x->col || !y->col) continue;
        double g = gap(x, Ei, y, Ej);
        if (g < d) { d = g; *mesh = (x->kind == K_MESH) + (y->kind == K_MESH); }
    }
    return d;
}
static const char *kinds(const struct m_sg *m, int i) {
    static char b[4][40]; static int k; static const char *nm[] = {"sphere", "box", "cylinder", "mesh", "none"};
    char *r = b[k++ % 4]; r[0] = 0;
    for (int a = 0; a < m->f[i].ng; a++) { if (a) strcat(r, ","); strcat(r, nm[shp_of(m->f[i].g[a])->kind]); }
    return r;
}
static int has_mesh(const struct m_sg *m, int i) { for (int a = 0; a < m->f[i].ng; a++) if (shp_of(m->f[i].g[a])->kind == K_MESH) return 1; return 0; }
static double on_frame(const struct m_sg *m, int i, const double *E, const double *p) { /* distance of p to the frame's geometry */
    double d = 1e9;
    for (int a = 0; a < m->f[i].ng; a++) {
        const struct shape *s = shp_of(m->f[i].g[a]);
        if (!s->col) continue;
        if (s->kind == K_MESH) for (int t = 0; t < s->nt; t++) {
            double T[3][3]; tri_at(s, E, t, T);
            double x = pt_tri(p, T); if (x < d) d = x;
            for (int k = 0; k < 3; k++) { x = seg_seg(p, p, T[k], T[(k + 1) % 3]); if (!(x == x)) { double e[3], w[3]; vsub(T[(k + 1) % 3], T[k], e); vsub(p, T[k], w); double s_ = clamp01(vdot(w, e) / vdot(e, e)); for (int c = 0; c < 3; c++) w[c] -= s_ * e[c]; x = sqrt(vdot(w, w)); } if (x < d) d = x; }
        } else { double x = fabs(depth(s, E, p, NULL)); if (x < d) d = x; }
    }
    return d;
}
static void attach(struct m_sg *m, struct aa_rx_sg *sg, int i, int plain) {
    if (i < 0 || m->f[i].ng >= 2) return;
    struct aa_rx_geom *g = cl_geom(plain);
    aa_rx_geom_attach(sg, m_names[i], g);
    m->f[i].g[m->f[i].ng++] = g;
}
#endif
