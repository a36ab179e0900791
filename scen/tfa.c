/* Transforms: every representation and every operation on it denotes the motion it should. */
#include "num_core.h"
#include <amino/tf.h>
#include <complex.h>
#undef I
typedef long double L;
/* no header declares these */
void aa_tf_tfmat2qv(const double *, double *, double *); void aa_tf_tfmat_vel2diff(const double *, const double *, double *); void aa_tf_tfmat_diff2vel(const double *, const double *, double *);
/* a motion: unit quaternion (x,y,z,w), its matrix (column-major), translation */
typedef struct { L q[4], R[9], p[3]; } Mo;
static L ldot(int n, const L *a, const L *b) { L s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
static void lcross(const L *a, const L *b, L *r) { L x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; r[0] = x; r[1] = y; r[2] = z; }
static void lqmul(const L *a, const L *b, L *r) { L v[3]; lcross(a, b, v); L w = a[3] * b[3] - ldot(3, a, b); for (int i = 0; i < 3; i++) v[i] += a[3] * b[i] + b[3] * a[i]; memcpy(r, v, sizeof v); r[3] = w; }
static void lconj(const L *a, L *r) { for (int i = 0; i < 3; i++) r[i] = -a[i]; r[3] = a[3]; }
static void m_fix(Mo *m) { L n = sqrtl(ldot(4, m->q, m->q)); for (int i = 0; i < 4; i++) m->q[i] /= n; L x = m->q[0], y = m->q[1], z = m->q[2], w = m->q[3], *R = m->R;
    R[0] = 1 - 2 * (y * y + z * z); R[1] = 2 * (x * y + w * z); R[2] = 2 * (x * z - w * y); R[3] = 2 * (x * y - w * z); R[4] = 1 - 2 * (x * x + z * z); R[5] = 2 * (y * z + w * x); R[6] = 2 * (x * z + w * y); R[7] = 2 * (y * z - w * x); R[8] = 1 - 2 * (x * x + y * y); }
static void m_rot(const Mo *m, const L *v, L *r) { L o[3]; for (int i = 0; i < 3; i++) o[i] = m->R[i] * v[0] + m->R[3 + i] * v[1] + m->R[6 + i] * v[2]; memcpy(r, o, sizeof o); }
static Mo m_mul(const Mo *a, const Mo *b) { Mo r; lqmul(a->q, b->q, r.q); m_fix(&r); m_rot(a, b->p, r.p); for (int i = 0; i < 3; i++) r.p[i] += a->p[i]; return r; }
static Mo m_inv(const Mo *a) { Mo r; lconj(a->q, r.q); m_fix(&r); m_rot(&r, a->p, r.p); for (int i = 0; i < 3; i++) r.p[i] = -r.p[i]; return r; }
static Mo m_id(void) { Mo r; memset(&r, 0, sizeof r); r.q[3] = 1; m_fix(&r); return r; }
static void lqpexp(const L *e, L *q) { L n = sqrtl(ldot(3, e, e)), s = n > 1e-9L ? sinl(n) / n : 1 - n * n / 6; for (int i = 0; i < 3; i++) q[i] = s * e[i]; q[3] = cosl(n); }
static void lqln(const L *q, L *r) { L v = sqrtl(ldot(3, q, q)), n = sqrtl(ldot(4, q, q)), f = atan2l(v, q[3]); L k = v > 0 ? f / v : 1 / n; for (int i = 0; i < 3; i++) r[i] = k * q[i]; r[3] = logl(n); }
/* exponential of a twist: rotation vector w, translation V(w) v */
static Mo m_exp(const L *w, const L *v) {
    Mo r; L h[3] = {w[0] / 2, w[1] / 2, w[2] / 2}; lqpexp(h, r.q); m_fix(&r); L t2 = ldot(3, w, w), t = sqrtl(t2), B, C;
    if (t < 0.5L) { B = C = 0; L b = 0.5L, c = 1 / 6.0L; for (int k = 1; k < 14; k++) { B += b; C += c; b *= -t2 / ((2 * k + 1) * (2 * k + 2)); c *= -t2 / ((2 * k + 2) * (2 * k + 3)); } } else { B = (1 - cosl(t)) / t2; C = (t - sinl(t)) / (t2 * t); }
    L a[3], b[3]; lcross(w, v, a); lcross(w, a, b); for (int i = 0; i < 3; i++) r.p[i] = v[i] + B * a[i] + C * b[i]; return r;
}
static void m_dual(const Mo *m, L *d) { L p[4] = {m->p[0] / 2, m->p[1] / 2, m->p[2] / 2, 0}; lqmul(p, m->q, d); }
/* derivative of f along dx */
typedef void (*lfun)(const void *, L, L *);
static void ddt(lfun f, const void *u, int m, L h, L *out) { L a[8], b[8], p[8], q[8]; f(u, h, a); f(u, -h, b); f(u, 2 * h, p); f(u, -2 * h, q); for (int i = 0; i < m; i++) out[i] = (8 * (a[i] - b[i]) - (p[i] - q[i])) / (12 * h); }
/* ---- arguments */
static double *vin(struct nx *c, int n, const double *v) { gm g = *g_add(c, n, 1, n, 8, 1); if (!g.reuse) memcpy(g.d, v, sizeof(double) * (size_t)n); seal(c); return (double *)g.d; }
static double *lin(struct nx *c, int n, const L *v) { double d[64]; for (int i = 0; i < n; i++) d[i] = (double)v[i]; return vin(c, n, d); }
static double *vout(struct nx *c, int n) { return (double *)g_add(c, n, 1, n, 8, 0)->d; }
static void rec(struct nx *c, int n, const double *v) { for (int i = 0; i < n; i++) put(c, v[i]); }
static double rmag(struct nx *c) { switch (nint(c, 0, 7)) { case 0: return 0; case 1: return pow(10, -nint(c, 1, 12)); case 2: return 1e4; default: return 1 + 2 * fabs(nun(c)); } }
static void rvec(struct nx *c, double *v) { double m = rmag(c); for (int i = 0; i < 3; i++) v[i] = m * nun(c); if (nint(c, 0, 9) == 0) { int k = nint(c, 0, 2); for (int i = 0; i < 3; i++) if (i != k) v[i] = 0; } }
static void raxis(struct nx *c, double *v) { double s; do { s = 0; for (int i = 0; i < 3; i++) { v[i] = nun(c); s += v[i] * v[i]; } } while (s < 0.01 || s > 1); if (nint(c, 0, 2) == 0) { int k = nint(c, 0, 2), near = nint(c, 0, 1); for (int i = 0; i < 3; i++) v[i] = near ? pow(10, -nint(c, 1, 12)) * nun(c) : 0; v[k] = nint(c, 0, 1) ? 1 : -1; s = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]; } for (int i = 0; i < 3; i++) v[i] /= sqrt(s); }
/* angles: any, none, tiny, quarter and half turns, nearly a half turn */
static double rang(struct nx *c) { switch (nint(c, 0, 8)) { case 0: return 0; case 1: return pow(10, -nint(c, 1, 16)) * (1 + nun(c) / 2); case 2: return M_PI / 2 * nint(c, 0, 2); case 3: return M_PI - pow(10, -nint(c, 1, 16)); default: return M_PI * fabs(nun(c)); } }

static Mo rrot(struct nx *c) { double a[3], t = rang(c); raxis(c, a); Mo m; for (int i = 0; i < 3; i++) m.q[i] = a[i] * sinl((L)t / 2); m.q[3] = cosl((L)t / 2); if (nint(c, 0, 4) == 0) for (int i = 0; i < 4; i++) m.q[i] = -m.q[i];
    for (int i = 0; i < 4; i++) m.q[i] = (double)m.q[i]; m.p[0] = m.p[1] = m.p[2] = 0; m_fix(&m); return m; }
static Mo rmot(struct nx *c) { Mo m = rrot(c); double v[3]; rvec(c, v); for (int i = 0; i < 3; i++) m.p[i] = v[i]; return m; }
static double *qin(struct nx *c, const Mo *m) { return lin(c, 4, m->q); }
static double *Rin(struct nx *c, const Mo *m) { return lin(c, 9, m->R); }
static double *pin(struct nx *c, const Mo *m) { return lin(c, 3, m->p); }
static double *Tin(struct nx *c, const Mo *m) { L t[12]; memcpy(t, m->R, sizeof m->R); memcpy(t + 9, m->p, sizeof m->p); return lin(c, 12, t); }
static double *Ein(struct nx *c, const Mo *m) { L t[7]; memcpy(t, m->q, sizeof m->q); memcpy(t + 4, m->p, sizeof m->p); return lin(c, 7, t); }
static double *Sin(struct nx *c, const Mo *m) { L t[8]; memcpy(t, m->q, sizeof m->q); m_dual(m, t + 4); return lin(c, 8, t); }
/* ---- judging */
static void ck(struct nx *c, const char *what, int n, const double *v, const L *want, double tol) { for (int i = 0; i < n; i++) SIM_CHECK(fabsl(v[i] - want[i]) <= tol, "wrong-motion", "%s: %s: element %d is %.17g, should be %.17Lg (within %g) %s", c->name, what, i, v[i], want[i], tol, c->why); rec(c, n, v); }
static void ck1(struct nx *c, const char *what, double v, L want, double tol) { ck(c, what, 1, &v, &want, tol); }
static double psc(const Mo *m) { return 1 + (double)sqrtl(ldot(3, m->p, m->p)); }
#define EQ 2e-14
/* up to sign: a quaternion and its negative are the same rotation */
static L qsgn(const double *q, const Mo *m) { L s = 0; for (int i = 0; i < 4; i++) s += q[i] * m->q[i]; return s < 0 ? -1 : 1; }
static void ckq(struct nx *c, const char *what, const double *q, const Mo *m, double tol) { L w[4], s = qsgn(q, m); for (int i = 0; i < 4; i++) w[i] = s * m->q[i]; ck(c, what, 4, q, w, tol); }
static void ckR(struct nx *c, const char *what, const double *R, const Mo *m, double tol) { ck(c, what, 9, R, m->R, tol); }
static void ckp(struct nx *c, const char *what, const double *p, const Mo *m, double tol) { ck(c, what, 3, p, m->p, tol * psc(m)); }
static void ckT(struct nx *c, const char *what, const double *T, const Mo *m, double tol) { ckR(c, what, T, m, tol); ckp(c, what, T + 9, m, tol); }
static void ckE(struct nx *c, const char *what, const double *E, const Mo *m, double tol) { ckq(c, what, E, m, tol); ckp(c, what, E + 4, m, tol); }
static void ckS(struct nx *c, const char *what, const double *S, const Mo *m, double tol) { L d[4], s = qsgn(S, m); m_dual(m, d); for (int i = 0; i < 4; i++) d[i] *= s; ckq(c, what, S, m, tol); ck(c, what, 4, S + 4, d, tol * psc(m)); }
/* a rotation vector or an axis and angle, by the rotation it denotes */
static void ckrv(struct nx *c, const char *what, const double *rv, const Mo *m, double tol) { L h[3] = {rv[0] / 2.0L, rv[1] / 2.0L, rv[2] / 2.0L}, q[4]; lqpexp(h, q); double d[4] = {(double)q[0], (double)q[1], (double)q[2], (double)q[3]}; ckq(c, what, d, m, tol); }
static void ckaa(struct nx *c, const char *what, const double *a, const Mo *m, double tol) { double v[3] = {a[0] * a[3], a[1] * a[3], a[2] * a[3]}; L n = sqrtl((L)a[0] * a[0] + (L)a[1] * a[1] + (L)a[2] * a[2]); if (a[3] != 0 && (n != 0 || fabs(sin(a[3] / 2)) > 1e-12)) SIM_CHECK(fabsl(n - 1) < 1e-12, "wrong-motion", "%s: %s: the axis has length %.17Lg", c->name, what, n); ckrv(c, what, v, m, tol); put(c, a[3]); }
/* a quarter turn less than two full turns has no well-conditioned logarithm */
static L angle(const Mo *m) { return 2 * atan2l(sqrtl(ldot(3, m->q, m->q)), m->q[3]); }
static void lrv(const Mo *m, L *v) { L l[4]; lqln(m->q, l); for (int i = 0; i < 3; i++) v[i] = 2 * l[i]; }

/* ---- rotations */
static void op_conv(struct nx *c) {
    Mo m = rrot(c), P = m; double *q = qin(c, &m), *R = Rin(c, &m), *o9 = vout(c, 9), *o4 = vout(c, 4), *a4 = vout(c, 4), *o3 = vout(c, 3), *b9 = vout(c, 9), *b4 = vout(c, 4), *b3 = vout(c, 3), *e9 = vout(c, 9); L an = angle(&m); snprintf(c->why, sizeof c->why, "rotation by %.17Lg", an);
    aa_tf_quat2rotmat(q, o9); ckR(c, "quaternion to matrix", o9, &m, EQ);
    aa_tf_rotmat2quat(R, o4); ckq(c, "matrix to quaternion", o4, &m, EQ);
    aa_tf_rotmat2rotvec(R, o3); ckrv(c, "matrix to rotation vector", o3, &m, 1e-11); SIM_CHECK(sqrt(o3[0] * o3[0] + o3[1] * o3[1] + o3[2] * o3[2]) < M_PI + 0.1, "wrong-motion", "%s: a rotation vector of more than a half turn", c->name);
    aa_tf_rotmat_lnv(R, o3); ckrv(c, "logarithm of a matrix", o3, &m, 1e-11);
    aa_tf_rotmat2axang(R, a4); ckaa(c, "matrix to axis and angle", a4, &m, 1e-11);
    double sn, cs; aa_tf_rotmat_sincos(R, &sn, &cs); ck1(c, "sine", sn, fabsl(sinl(an)), 1e-15 * 4); ck1(c, "cosine", cs, cosl(an), 1e-15 * 4);
    if (an < 6.28 || nint(c, 0, 1)) { /* negated quaternions give turns of more than a half */
        aa_tf_quat2rotvec(q, b3); ckrv(c, "quaternion to rotation vector", b3, &m, 4 * EQ); aa_tf_quat2axang(q, b4); ckaa(c, "quaternion to axis and angle", b4, &m, 4 * EQ); }
    /* and on from a rotation vector and an axis with an angle, with turns added */
    double ax[3], th = rang(c); raxis(c, ax); int turns = nint(c, 0, 4) == 0 ? nint(c, -2, 2) : 0; th += 2 * M_PI * turns; for (int i = 0; i < 3; i++) P.q[i] = ax[i] * sinl((L)th / 2); P.q[3] = cosl((L)th / 2); m_fix(&P); double aav[4] = {ax[0], ax[1], ax[2], th}, rvv[3] = {ax[0] * th, ax[1] * th, ax[2] * th}; double *aa = vin(c, 4, aav), *rv = vin(c, 3, rvv), *axi = vin(c, 3, ax), *x4 = vout(c, 4), *x3 = vout(c, 3), *y4 = vout(c, 4), *y3 = vout(c, 3); double t = 4 * EQ * (1 + fabs(th)); snprintf(c->why, sizeof c->why, "rotation by %.17g", th);
    aa_tf_axang2quat(aa, x4); ckq(c, "axis and angle to quaternion", x4, &P, t); aa_tf_axang2quat2(axi, th, x4); ckq(c, "axis, angle to quaternion", x4, &P, t); aa_tf_rotvec2quat(rv, x4); ckq(c, "rotation vector to quaternion", x4, &P, t);
    aa_tf_axang2rotmat(aa, b9); ckR(c, "axis and angle to matrix", b9, &P, t); aa_tf_axang2rotmat2(axi, th, b9); ckR(c, "axis, angle to matrix", b9, &P, t); aa_tf_rotvec2rotmat(rv, b9); ckR(c, "rotation vector to matrix", b9, &P, t); aa_tf_rotmat_expv(rv, b9); ckR(c, "exponential of a rotation vector", b9, &P, t); aa_tf_rotmat_exp_aa(aa, b9); ckR(c, "exponential of an axis and angle", b9, &P, t);
    aa_tf_axang2rotvec(aa, x3); ckrv(c, "axis and angle to rotation vector", x3, &P, t); aa_tf_rotvec2axang(rv, y4); ckaa(c, "rotation vector to axis and angle", y4, &P, t);
    { double v[3]; rvec(c, v); double *p = vin(c, 3, v), *r = vout(c, 3); L w[3] = {v[0], v[1], v[2]}; m_rot(&P, w, w); aa_tf_axang_rot(aa, p, r); ck(c, "rotation by an axis and angle", 3, r, w, t * (1 + fabs(v[0]) + fabs(v[1]) + fabs(v[2]))); }
    { double *n4 = vout(c, 4); double s = nint(c, 0, 1) ? 1 : 3; for (int i = 0; i < 3; i++) n4[i] = ax[i] * s; n4[3] = th; aa_tf_axang_normalize(n4); ckaa(c, "normalised axis and angle", n4, &P, t); SIM_CHECK(n4[3] >= 0 && n4[3] <= M_PI + 1e-12, "wrong-motion", "%s: normalised angle %g", c->name, n4[3]); double *m4 = vout(c, 4); aa_tf_axang_make(ax[0] * s, ax[1] * s, ax[2] * s, th, m4); ckaa(c, "made axis and angle", m4, &P, t); }
    int k = nint(c, -3, 3); aa_tf_axang_permute(aa, k, y4); ckaa(c, "axis and angle, turns added", y4, &P, t + 1e-13); ck1(c, "angle, turns added", y4[3], (L)th + 2 * M_PI * k, 1e-13); if (fabs(th) > 1e-300) { aa_tf_rotvec_permute(rv, k, y3); ckrv(c, "rotation vector, turns added", y3, &P, t + 1e-13); }
    /* of the same rotation's vectors, the nearest */
    double nv[3]; for (int i = 0; i < 3; i++) nv[i] = 6 * nun(c); double *near = vin(c, 3, nv), *z3 = vout(c, 3); int q2 = nint(c, 0, 1); if (q2) { aa_tf_quat2rotvec_near(q, near, z3); ckrv(c, "quaternion to nearest rotation vector", z3, &m, 1e-12); } else { aa_tf_rotvec_near(rv, near, z3); ckrv(c, "nearest rotation vector", z3, &P, t + 1e-13); }
    { double len = sqrt(z3[0] * z3[0] + z3[1] * z3[1] + z3[2] * z3[2]), d0 = 0; if (len > 1e-6 && fabs(fmod(len, 2 * M_PI)) > 1e-6 && fabs(fmod(len, 2 * M_PI) - 2 * M_PI) > 1e-6) { for (int i = 0; i < 3; i++) d0 += (z3[i] - nv[i]) * (z3[i] - nv[i]); for (int s = -1; s < 2; s += 2) { double d = 0; for (int i = 0; i < 3; i++) { double e = z3[i] * (1 + s * 2 * M_PI / len) - nv[i]; d += e * e; } SIM_CHECK(d >= d0 - 1e-6, "wrong-motion", "%s: a nearer rotation vector denotes the same rotation (%g, %g)", c->name, d, d0); } } }
    { double th2 = rang(c) * (nint(c, 0, 1) ? 1 : -1); for (int i = 0; i < 3; i++) { Mo z = m_id(); z.q[i] = sinl((L)th2 / 2); z.q[3] = cosl((L)th2 / 2); m_fix(&z); (i == 0 ? aa_tf_xangle2quat : i == 1 ? aa_tf_yangle2quat : aa_tf_zangle2quat)(th2, x4); ckq(c, "turn about a coordinate axis", x4, &z, EQ); (i == 0 ? aa_tf_xangle2rotmat : i == 1 ? aa_tf_yangle2rotmat : aa_tf_zangle2rotmat)(th2, e9); ckR(c, "turn about a coordinate axis", e9, &z, EQ); (i == 0 ? aa_tf_xangle2axang : i == 1 ? aa_tf_yangle2axang : aa_tf_zangle2axang)(th2, y4); ckaa(c, "turn about a coordinate axis", y4, &z, EQ); } }
    /* recognising and repairing matrices */
    SIM_CHECK(aa_tf_isrotmat(R), "wrong-motion", "%s: a rotation matrix is not recognised", c->name); { double B[9]; for (int i = 0; i < 9; i++) B[i] = R[i]; int kind = nint(c, 0, 2), col = nint(c, 0, 2); for (int i = 0; i < 3; i++) B[3 * col + i] = kind == 0 ? -B[3 * col + i] : kind == 1 ? 1.01 * B[3 * col + i] : B[(3 * col + 3) % 9 + i]; double *b = vin(c, 9, B); SIM_CHECK(!aa_tf_isrotmat(b), "wrong-motion", "%s: a matrix that is no rotation is taken for one", c->name); }
    { double *N = vout(c, 12), eps = nint(c, 0, 1) ? 0 : 1e-3; for (int i = 0; i < 9; i++) N[i] = R[i] + eps * nun(c); for (int i = 9; i < 12; i++) N[i] = i; if (nint(c, 0, 1)) aa_tf_rotmat_normalize(N); else aa_tf_tfmat_normalize(N); ckR(c, "normalised matrix", N, &m, eps ? 0.02 : 4 * EQ); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = 0; for (int l = 0; l < 3; l++) d += N[3 * i + l] * N[3 * j + l]; ck1(c, "product of columns", d, i == j, 1e-14); } for (int i = 9; i < 12; i++) SIM_CHECK(N[i] == i, "wrong-motion", "%s: normalising moved the translation", c->name); }
}
static Mo turn(int ax, double a) { Mo m = m_id(); m.q[ax] = sinl((L)a / 2); m.q[3] = cosl((L)a / 2); m_fix(&m); return m; }
#define EU(l) {aa_tf_euler##l##2rotmat, aa_tf_euler##l##2quat, #l}
static const struct { void (*r)(double, double, double, double *); void (*q)(double, double, double, double *); const char *n; } eu[] = {EU(xyz), EU(xzy), EU(yxz), EU(yzx), EU(zxy), EU(zyx), EU(xyx), EU(xzx), EU(yxy), EU(yzy), EU(zxz), EU(zyz)};
static void op_euler(struct nx *c) {
    double e[3]; for (int i = 0; i < 3; i++) e[i] = nint(c, 0, 2) ? 3.3 * nun(c) : M_PI / 2 * nint(c, -2, 2); int k = nint(c, 0, 11); double *R = vout(c, 9), *q = vout(c, 4); Mo a[3], m; for (int i = 0; i < 3; i++) a[i] = turn(eu[k].n[i] - 'x', e[i]); m = m_mul(&a[0], &a[1]); m = m_mul(&m, &a[2]); snprintf(c->why, sizeof c->why, "Euler angles %s %.17g %.17g %.17g", eu[k].n, e[0], e[1], e[2]);
    eu[k].r(e[0], e[1], e[2], R); ckR(c, "Euler angles to matrix", R, &m, EQ); eu[k].q(e[0], e[1], e[2], q); ckq(c, "Euler angles to quaternion", q, &m, EQ);
    /* and back, straight up and down included */
    Mo z = m; if (nint(c, 0, 2)) z = rrot(c); else { Mo b[3]; double f[3] = {3 * nun(c), M_PI / 2 * (nint(c, 0, 1) ? 1 : -1) * (1 - (nint(c, 0, 1) ? pow(10, -nint(c, 2, 16)) : 0)), 3 * nun(c)}; for (int i = 0; i < 3; i++) b[i] = turn(2 - i, f[i]); z = m_mul(&b[0], &b[1]); z = m_mul(&z, &b[2]); }
    double *zR = Rin(c, &z), *zq = qin(c, &z), *o = vout(c, 3); for (int s = 0; s < 2; s++) { if (s) aa_tf_quat2eulerzyx(zq, o); else aa_tf_rotmat2eulerzyx(zR, o); Mo b[3]; for (int i = 0; i < 3; i++) b[i] = turn(2 - i, o[i]); Mo y = m_mul(&b[0], &b[1]); y = m_mul(&y, &b[2]); double d[9]; for (int i = 0; i < 9; i++) d[i] = (double)y.R[i]; snprintf(c->why, sizeof c->why, "angles %.17g %.17g %.17g", o[0], o[1], o[2]); ckR(c, s ? "quaternion to Euler angles" : "matrix to Euler angles", d, &z, 1e-7); }
}
static void op_quat(struct nx *c) {
    L a[4], b[4], r[4], t[4]; for (int i = 0; i < 4; i++) { a[i] = 2 * nun(c); b[i] = 2 * nun(c); } double *A = lin(c, 4, a), *B = lin(c, 4, b), *o = vout(c, 4), *o2 = vout(c, 4); L na = ldot(4, a, a), nb = ldot(4, b, b), ac[4], bc[4]; if (na < 1e-3 || nb < 1e-3) return; lconj(a, ac); lconj(b, bc); double e = 1e-14, sa = (double)sqrtl(na), sb = (double)sqrtl(nb);
    aa_tf_qmul(A, B, o); lqmul(a, b, r); ck(c, "product", 4, o, r, 20 * e); aa_tf_qmulnorm(A, B, o); for (int i = 0; i < 4; i++) t[i] = r[i] / sqrtl(na * nb); ck(c, "normalised product", 4, o, t, e * 10); lqmul(ac, b, r); aa_tf_qcmul(A, B, o); ck(c, "conjugate times", 4, o, r, 20 * e); lqmul(a, bc, r); aa_tf_qmulc(A, B, o); ck(c, "times conjugate", 4, o, r, 20 * e);
    L v[4] = {b[0], b[1], b[2], 0}; double *V = lin(c, 3, v); lqmul(a, v, r); aa_tf_qmul_qv(A, V, o); ck(c, "quaternion times vector", 4, o, r, 20 * e); lqmul(v, a, r); aa_tf_qmul_vq(V, A, o); ck(c, "vector times quaternion", 4, o, r, 20 * e);
    aa_tf_qconj(A, o); ck(c, "conjugate", 4, o, ac, 0); aa_tf_qconj1(o); ck(c, "conjugate", 4, o, a, 0); for (int i = 0; i < 4; i++) t[i] = ac[i] / na; aa_tf_qinv(A, o); ck(c, "inverse", 4, o, t, e * (1 + 1 / sa)); for (int i = 0; i < 4; i++) t[i] = bc[i] / nb; lqmul(a, t, r); aa_tf_qrel(A, B, o); ck(c, "relative", 4, o, r, e * 20 * (1 + sa / sb));
    ck1(c, "norm", aa_tf_qnorm(A), sqrtl(na), e * 4); ck1(c, "dot product", aa_tf_qdot(A, B), ldot(4, a, b), e * 20); for (int i = 0; i < 4; i++) t[i] = a[i] - b[i]; ck1(c, "distance", aa_tf_qssd(A, B), sqrtl(ldot(4, t, t)), e * 10); ck1(c, "distance", aa_tf_vssd(A, B), sqrtl(ldot(3, t, t)), e * 10); ck1(c, "norm", aa_tf_vnorm(A), sqrtl(ldot(3, a, a)), e * 4); ck1(c, "dot product", aa_tf_vdot(A, B), ldot(3, a, b), e * 20);
    aa_tf_qsub(A, B, o); ck(c, "difference", 4, o, t, e); aa_tf_qiadd(o, B); ck(c, "sum", 4, o, a, e * 4); aa_tf_qadd(A, B, o); aa_tf_qisub(o, A); ck(c, "difference", 4, o, b, e * 4);
    for (int i = 0; i < 4; i++) t[i] = a[i] / sqrtl(na); aa_tf_qnormalize2(A, o); ck(c, "normalised", 4, o, t, e); memcpy(o, A, 32); aa_tf_qnormalize(o); ck(c, "normalised", 4, o, t, e); double k = 3 * nun(c); for (int i = 0; i < 4; i++) r[i] = k * t[i]; aa_tf_qscal(o, k); ck(c, "scaled", 4, o, r, e * 4);
    for (int i = 0; i < 4; i++) r[i] = a[3] < 0 ? -a[i] : a[i]; aa_tf_qminimize2(A, o); ck(c, "minimised", 4, o, r, 0); memcpy(o2, A, 32); aa_tf_qminimize(o2); ck(c, "minimised", 4, o2, r, 0); { double *w3 = vout(c, 3); L nv = sqrtl(ldot(3, a, a)); memcpy(w3, A, 24); if (nv > 1e-3) { aa_tf_vnormalize(w3); for (int i = 0; i < 3; i++) r[i] = a[i] / nv; ck(c, "normalised vector", 3, w3, r, e); } }
    { L l[4], x[4]; lqln(a, l); if (atan2l(sqrtl(ldot(3, a, a)), a[3]) < 3) { aa_tf_qln(A, o); ck(c, "logarithm", 4, o, l, 100 * e * (1 + 1 / sa)); } L h[3] = {b[0], b[1], b[2]}; lqpexp(h, x); L w = expl(b[3]); for (int i = 0; i < 4; i++) x[i] *= w; aa_tf_qexp(B, o); ck(c, "exponential", 4, o, x, 100 * e); }
    /* as matrices */
    for (int s = 0; s < 4; s++) { gm g = g_new(c, 4, 4, 8, 0); double *M = (double *)g.d; struct aa_dmat dm = AA_DMAT_INIT(4, 4, M, (size_t)g.ld); if (s == 0) aa_tf_qmatrix_l(A, M, (size_t)g.ld); else if (s == 1) aa_tf_qmatrix_r(A, M, (size_t)g.ld); else if (s == 2) aa_tf_qmat_l(A, &dm); else aa_tf_qmat_r(A, &dm); if (s & 1) lqmul(b, a, r); else lqmul(a, b, r); for (int i = 0; i < 4; i++) { L x = 0; for (int j = 0; j < 4; j++) x += M[j * g.ld + i] * b[j]; ck1(c, "product as a matrix", (double)x, r[i], 20 * e); } }
    for (int s = 0; s < 2; s++) { gm g = g_new(c, 3, 3, 8, 0); struct aa_dmat dm = AA_DMAT_INIT(3, 3, (double *)g.d, (size_t)g.ld); if (s) aa_tf_cross_mat_r(A, &dm); else aa_tf_cross_mat_l(A, &dm); if (s) lcross(b, a, r); else lcross(a, b, r); for (int i = 0; i < 3; i++) { L x = 0; for (int j = 0; j < 3; j++) x += dm.data[j * g.ld + i] * b[j]; ck1(c, "cross product as a matrix", (double)x, r[i], 20 * e); } }
    { double *x3 = vout(c, 3); lcross(a, b, r); aa_tf_cross(A, B, x3); ck(c, "cross product", 3, x3, r, 20 * e); for (int i = 0; i < 3; i++) r[i] *= 2; aa_tf_cross_a(A, B, x3); ck(c, "cross product, added", 3, x3, r, 40 * e); L bb = ldot(3, b, b), ab = ldot(3, a, b); if (bb > 0.01) { for (int i = 0; i < 3; i++) { r[i] = ab / bb * b[i]; t[i] = a[i] - r[i]; } aa_tf_proj(A, B, x3); ck(c, "projection", 3, x3, r, 200 * e); aa_tf_proj_orth(A, B, x3); ck(c, "rejection", 3, x3, t, 200 * e); }
      double *M = vout(c, 9); double p = nun(c), q = nun(c); aa_tf_skewsym_scal2(p, q, A, M); L y[3], z[3], w[3]; lcross(a, b, y); lcross(a, y, z); for (int i = 0; i < 3; i++) { w[i] = b[i] + p * y[i] + q * z[i]; L x = 0; for (int j = 0; j < 3; j++) x += M[3 * j + i] * b[j]; ck1(c, "sum of skew matrices", (double)x, w[i], 100 * e); } float fa[3] = {(float)a[0], (float)a[1], (float)a[2]}, fb[3] = {(float)b[0], (float)b[1], (float)b[2]}, fo[3]; aa_tf_crossf(fa, fb, fo); lcross(a, b, r); for (int i = 0; i < 3; i++) ck1(c, "cross product (f)", (double)fo[i], r[i], 1e-5); ck1(c, "dot product (f)", (double)aa_tf_vdotf(fa, fb), ldot(3, a, b), 1e-5); }
    /* unit quaternions: angles and turning a vector */
    Mo m = rrot(c), w = rrot(c); double *q1 = qin(c, &m), *q2 = qin(c, &w), pv[3]; rvec(c, pv); double *p = vin(c, 3, pv), *x = vout(c, 3); L P[3] = {pv[0], pv[1], pv[2]}; double ps = 1 + fabs(pv[0]) + fabs(pv[1]) + fabs(pv[2]); m_rot(&m, P, P); aa_tf_qrot(q1, p, x); ck(c, "rotation", 3, x, P, EQ * ps); memcpy(x, p, 24); aa_tf_qrot1(q1, x); ck(c, "rotation in place", 3, x, P, EQ * ps);
    ck1(c, "angle", aa_tf_qangle(q1), angle(&m) / 2, 1e-14); lconj(m.q, r); lqmul(r, w.q, t); if (t[3] < 0) for (int i = 0; i < 4; i++) t[i] = -t[i]; ck1(c, "relative angle", aa_tf_qangle_rel(q1, q2), atan2l(sqrtl(ldot(3, t, t)), t[3]), 1e-14); L d[4], s[4]; for (int i = 0; i < 4; i++) { d[i] = m.q[i] - w.q[i]; s[i] = m.q[i] + w.q[i]; } ck1(c, "angle between quaternions", aa_tf_quhypangle2(q1, q2), 2 * atan2l(sqrtl(ldot(4, d, d)), sqrtl(ldot(4, s, s))), 1e-14);
}
/* the shortest rotation that takes one direction to another */
static void op_vecs(struct nx *c) {
    double u[3], v[3], su = pow(10, nint(c, 0, 3) ? 0 : nint(c, -6, 6)), sv = pow(10, nint(c, 0, 3) ? 0 : nint(c, -6, 6)); raxis(c, u); raxis(c, v); int kind = nint(c, 0, 4); double eps = pow(10, -nint(c, 1, 16)); if (kind < 2) for (int i = 0; i < 3; i++) v[i] = (kind ? -u[i] : u[i]) + eps * v[i]; else if (kind == 2) for (int i = 0; i < 3; i++) v[i] = nint(c, 0, 0) + (nint(c, 0, 0) ? 0 : u[i]) * (eps > 1e-8 ? -1 : 1);
    for (int i = 0; i < 3; i++) { u[i] *= su; v[i] *= sv; } double *U = vin(c, 3, u), *V = vin(c, 3, v), *q = vout(c, 4); aa_tf_vecs2quat(U, V, q); L lu[3] = {u[0], u[1], u[2]}, lv[3] = {v[0], v[1], v[2]}, nu = sqrtl(ldot(3, lu, lu)), nv = sqrtl(ldot(3, lv, lv)), r[3], x[3]; snprintf(c->why, sizeof c->why, "%.17g %.17g %.17g to %.17g %.17g %.17g", u[0], u[1], u[2], v[0], v[1], v[2]);
    Mo m; for (int i = 0; i < 4; i++) m.q[i] = q[i]; L n = sqrtl(ldot(4, m.q, m.q)); ck1(c, "norm", (double)n, 1, 1e-12); m_fix(&m); for (int i = 0; i < 3; i++) { lu[i] /= nu; lv[i] /= nv; } m_rot(&m, lu, r); for (int i = 0; i < 3; i++) ck1(c, "rotated direction", (double)r[i], lv[i], 2e-7);
    lcross(lu, lv, x); L an = atan2l(sqrtl(ldot(3, x, x)), ldot(3, lu, lv)), got = angle(&m); if (got > M_PI) got = 2 * (L)M_PI - got; ck1(c, "angle", (double)got, an, 4e-7);
}
/* ---- motions */
static void op_rigid(struct nx *c) {
    Mo a = rmot(c), b = rmot(c), r; if (nint(c, 0, 5) == 0) b = a; double *Ea = Ein(c, &a), *Sa = Sin(c, &a), *Ta = Tin(c, &a), *Eb = Ein(c, &b), *Sb = Sin(c, &b), *Tb = Tin(c, &b), *E = vout(c, 7), *S = vout(c, 8), *T = vout(c, 12), *q = vout(c, 4), *v = vout(c, 3), *R = vout(c, 9); double t = 4 * EQ, tt = t * psc(&a) * 2;
    aa_tf_qutr2duqu(Ea, S); ckS(c, "qutr to duqu", S, &a, t); aa_tf_qutr2tfmat(Ea, T); ckT(c, "qutr to tfmat", T, &a, t); aa_tf_tfmat2qutr(Ta, E); ckE(c, "tfmat to qutr", E, &a, t); aa_tf_duqu2qutr(Sa, E); ckE(c, "duqu to qutr", E, &a, t); aa_tf_duqu2tfmat(Sa, T); ckT(c, "duqu to tfmat", T, &a, t); aa_tf_tfmat2duqu(Ta, S); ckS(c, "tfmat to duqu", S, &a, t);
    aa_tf_qv2duqu(Ea, Ea + 4, S); ckS(c, "qv to duqu", S, &a, t); aa_tf_qv2tfmat(Ea, Ea + 4, T); ckT(c, "qv to tfmat", T, &a, t); aa_tf_duqu2qv(Sa, q, v); ckq(c, "duqu to qv", q, &a, t); ckp(c, "duqu to qv", v, &a, t); aa_tf_tfmat2qv(Ta, q, v); ckq(c, "tfmat to qv", q, &a, t); ckp(c, "tfmat to qv", v, &a, t); aa_tf_duqu_trans(Sa, v); ckp(c, "translation of a duqu", v, &a, t);
    { double x[3]; rvec(c, x); double ps = 1 + fabs(x[0]) + fabs(x[1]) + fabs(x[2]), *p = vin(c, 3, x); L w[3] = {x[0], x[1], x[2]}, y[3]; m_rot(&a, w, y); ps *= t * psc(&a); aa_tf_rotmat_rot(Ta, p, v); ck(c, "matrix applied", 3, v, y, ps); aa_tf_9(Ta, p, v); ck(c, "matrix applied", 3, v, y, ps); aa_tf_9rot(Ta, p, v); ck(c, "matrix applied", 3, v, y, ps); for (int i = 0; i < 3; i++) y[i] += a.p[i];
      aa_tf_12(Ta, p, v); ck(c, "tfmat applied", 3, v, y, ps); aa_tf_tfmat_tf(Ta, p, v); ck(c, "tfmat applied", 3, v, y, ps); aa_tf_93(Ta, Ta + 9, p, v); ck(c, "matrix and vector applied", 3, v, y, ps); aa_tf_tfmat2_tf(Ta, Ta + 9, p, v); ck(c, "matrix and vector applied", 3, v, y, ps); aa_tf_tf_qv(Ea, Ea + 4, p, v); ck(c, "qv applied", 3, v, y, ps); aa_tf_qutr_tf(Ea, p, v); ck(c, "qutr applied", 3, v, y, ps); aa_tf_tf_duqu(Sa, p, v); ck(c, "duqu applied", 3, v, y, ps); aa_tf_duqu_tf(Sa, p, v); ck(c, "duqu applied", 3, v, y, ps); }
    tt = t * (1 + psc(&b)); (void)tt;
#define TOL (t * (psc(&a) + psc(&b)) / psc(&r))
    r = m_mul(&a, &b); aa_tf_qutr_mul(Ea, Eb, E); ckE(c, "qutr product", E, &r, TOL); aa_tf_qutr_mulnorm(Ea, Eb, E); ckE(c, "qutr product, normalised", E, &r, TOL); aa_tf_duqu_mul(Sa, Sb, S); ckS(c, "duqu product", S, &r, TOL); aa_tf_tfmat_mul(Ta, Tb, T); ckT(c, "tfmat product", T, &r, TOL); aa_tf_12chain(Ta, Tb, T); ckT(c, "tfmat product", T, &r, TOL); aa_tf_93chain(Ta, Ta + 9, Tb, Tb + 9, R, v); ckR(c, "matrix and vector product", R, &r, TOL); ckp(c, "matrix and vector product", v, &r, TOL); aa_tf_tfmat2_mul(Ta, Ta + 9, Tb, Tb + 9, R, v); ckR(c, "matrix and vector product", R, &r, TOL); ckp(c, "matrix and vector product", v, &r, TOL); aa_tf_qv_chain(Ea, Ea + 4, Eb, Eb + 4, q, v); ckq(c, "qv product", q, &r, TOL); ckp(c, "qv product", v, &r, TOL); aa_tf_rotmat_mul(Ta, Tb, R); ckR(c, "matrix product", R, &r, t); aa_tf_9mul(Ta, Tb, R); ckR(c, "matrix product", R, &r, t);
    { Mo x = m_mul(&r, &a); aa_tf_v12chain(T, Ta, Tb, Ta, (double *)NULL); double k = t * (psc(&a) + psc(&b)) * 3 / psc(&x); ckT(c, "product of three", T, &x, k); x = m_mul(&x, &b); aa_tf_v12chain(T, Ta, Tb, Ta, Tb, (double *)NULL); ckT(c, "product of four", T, &x, t * (psc(&a) + psc(&b)) * 4 / psc(&x)); aa_tf_v9mul(R, Ta, Tb, Ta, Tb, (double *)NULL); ckR(c, "product of four", R, &x, t); }
    Mo i = m_inv(&a); r = i; aa_tf_qutr_conj(Ea, E); ckE(c, "qutr inverse", E, &r, TOL); aa_tf_qv_conj(Ea, Ea + 4, q, v); ckq(c, "qv inverse", q, &r, TOL); ckp(c, "qv inverse", v, &r, TOL); aa_tf_duqu_conj(Sa, S); ckS(c, "duqu inverse", S, &r, TOL); memcpy(S, Sa, 64); aa_tf_duqu_conj1(S); ckS(c, "duqu inverse", S, &r, TOL); aa_tf_tfmat_inv2(Ta, T); ckT(c, "tfmat inverse", T, &r, TOL); memcpy(T, Ta, 96); aa_tf_tfmat_inv1(T); ckT(c, "tfmat inverse", T, &r, TOL); aa_tf_12inv(Ta, T); ckT(c, "tfmat inverse", T, &r, TOL); aa_tf_93inv(Ta, Ta + 9, R, v); ckR(c, "matrix and vector inverse", R, &r, TOL); ckp(c, "matrix and vector inverse", v, &r, TOL); aa_tf_rotmat_inv2(Ta, R); ckR(c, "matrix inverse", R, &r, t); memcpy(R, Ta, 72); aa_tf_rotmat_inv1(R); ckR(c, "matrix inverse", R, &r, t);
    r = m_mul(&i, &b); aa_tf_qutr_cmul(Ea, Eb, E); ckE(c, "qutr inverse times", E, &r, TOL); aa_tf_duqu_cmul(Sa, Sb, S); ckS(c, "duqu inverse times", S, &r, TOL); aa_tf_12rel(Ta, Tb, T); ckT(c, "tfmat relative", T, &r, TOL); aa_tf_93rel(Ta, Ta + 9, Tb, Tb + 9, R, v); ckR(c, "matrix and vector relative", R, &r, TOL); ckp(c, "matrix and vector relative", v, &r, TOL);
    i = m_inv(&b); r = m_mul(&a, &i); aa_tf_qutr_mulc(Ea, Eb, E); ckE(c, "qutr times inverse", E, &r, TOL); aa_tf_duqu_mulc(Sa, Sb, S); ckS(c, "duqu times inverse", S, &r, TOL); aa_tf_9rel(Ta, Tb, R); ckR(c, "matrix relative", R, &r, t); aa_tf_qrel(Ea, Eb, q); ckq(c, "quaternion relative", q, &r, t);
    { double k = 0.5 + fabs(nun(c)) * 3, x[8], nr, nd; for (int j = 0; j < 8; j++) x[j] = k * Sa[j]; memcpy(S, x, 64); aa_tf_duqu_normalize(S); ckS(c, "normalised duqu", S, &a, t); double *X = vin(c, 8, x); aa_tf_duqu_norm(X, &nr, &nd); ck1(c, "norm of a duqu", nr, k, 1e-14 * 8); ck1(c, "dual norm of a duqu", nd, 0, 1e-14 * psc(&a) * 8); aa_tf_duqu_minimize(S); SIM_CHECK(S[3] >= 0, "wrong-motion", "%s: not minimised", c->name); ckS(c, "minimised duqu", S, &a, t); L y[8]; aa_tf_duqu_smul(k, Sb, S); for (int j = 0; j < 8; j++) y[j] = (L)k * Sb[j]; ck(c, "scaled duqu", 8, S, y, t * psc(&b)); aa_tf_duqu_add(Sa, Sb, S); for (int j = 0; j < 8; j++) y[j] = (L)Sa[j] + Sb[j]; ck(c, "sum of duqus", 8, S, y, t * (psc(&a) + psc(&b))); aa_tf_duqu_sub(Sa, Sb, S); for (int j = 0; j < 8; j++) y[j] = (L)Sa[j] - Sb[j]; ck(c, "difference of duqus", 8, S, y, t * (psc(&a) + psc(&b))); }
    for (int s = 0; s < 4; s++) { gm g = g_new(c, 8, 8, 8, 0); double *M = (double *)g.d; struct aa_dmat dm = AA_DMAT_INIT(8, 8, M, (size_t)g.ld); if (s == 0) aa_tf_duqu_matrix_l(Sa, M, (size_t)g.ld); else if (s == 1) aa_tf_duqu_matrix_r(Sa, M, (size_t)g.ld); else if (s == 2) aa_tf_duqu_mat_l(Sa, &dm); else aa_tf_duqu_mat_r(Sa, &dm); r = s & 1 ? m_mul(&b, &a) : m_mul(&a, &b); double y[8]; for (int j = 0; j < 8; j++) { L x = 0; for (int l = 0; l < 8; l++) x += (L)M[l * g.ld + j] * Sb[l]; y[j] = (double)x; } ckS(c, "duqu product as a matrix", y, &r, TOL); }
    { double th = rang(c), x[3]; rvec(c, x); int ax = nint(c, 0, 3); Mo m = ax == 3 ? m_id() : turn(ax, th); for (int j = 0; j < 3; j++) m.p[j] = x[j]; if (ax == 3) aa_tf_xyz2duqu(x[0], x[1], x[2], S); else (ax == 0 ? aa_tf_xxyz2duqu : ax == 1 ? aa_tf_yxyz2duqu : aa_tf_zxyz2duqu)(th, x[0], x[1], x[2], S); ckS(c, "turn and translation to duqu", S, &m, t); }
    { double al = rang(c) * (nint(c, 0, 1) ? 1 : -1), ph = rang(c) * (nint(c, 0, 1) ? 1 : -1), aa = 2 * nun(c), d = 2 * nun(c); int dist = nint(c, 0, 1); Mo x = turn(0, al), z = turn(2, ph), m; x.p[0] = aa; z.p[2] = d; m = dist ? m_mul(&z, &x) : m_mul(&x, &z); snprintf(c->why, sizeof c->why, "Denavit-Hartenberg %s %g %g %g %g", dist ? "distal" : "proximal", al, aa, d, ph);
      (dist ? aa_tf_dhdist2tfmat : aa_tf_dhprox2tfmat)(al, aa, d, ph, T); ckT(c, "DH to tfmat", T, &m, t); (dist ? aa_tf_dhdist2duqu : aa_tf_dhprox2duqu)(al, aa, d, ph, S); ckS(c, "DH to duqu", S, &m, t); (dist ? aa_tf_dhdist2qutr : aa_tf_dhprox2qutr)(al, aa, d, ph, E); ckE(c, "DH to qutr", E, &m, t); (dist ? aa_tf_dhdist2qv : aa_tf_dhprox2qv)(al, aa, d, ph, q, v); ckq(c, "DH to qv", q, &m, t); ckp(c, "DH to qv", v, &m, t); }
}
static void op_axes(struct nx *c) {
    Mo m = rmot(c); double s1 = 0.1 + 5 * fabs(nun(c)), s2 = 0.1 + 5 * fabs(nun(c)), x[3][3]; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) x[j][i] = (double)m.R[3 * j + i] * (j ? s1 : s2); double *X = vin(c, 3, x[0]), *Y = vin(c, 3, x[1]), *Z = vin(c, 3, x[2]), *R = vout(c, 9), *T = vout(c, 12), *E = vout(c, 7), *q = vout(c, 4), *v = vout(c, 3);
    aa_tf_rotmat_xy(X, Y, R); ckR(c, "matrix of two axes", R, &m, 4 * EQ); aa_tf_rotmat_yz(Y, Z, R); ckR(c, "matrix of two axes", R, &m, 4 * EQ); aa_tf_rotmat_zx(Z, X, R); ckR(c, "matrix of two axes", R, &m, 4 * EQ);
    /* looking along -z */
    L d = 0.5L + 3 * fabsl((L)nun(c)), up[3], tg[3]; L k = 3 * nun(c), sc = 0.3L + fabsl((L)nun(c)); if (psc(&m) > 100) for (int i = 0; i < 3; i++) m.p[i] /= 1000; for (int i = 0; i < 3; i++) { m.p[i] = (double)m.p[i]; tg[i] = m.p[i] - d * m.R[6 + i]; up[i] = sc * m.R[3 + i] + k * m.R[6 + i]; } double *e = pin(c, &m), *t = lin(c, 3, tg), *u = lin(c, 3, up); double tol = 1e-12 * 4;
    aa_tf_rotmat_mzlook(e, t, u, R); ckR(c, "looking at a point", R, &m, tol); aa_tf_tfmat_mzlook(e, t, u, T); ckT(c, "looking at a point", T, &m, tol); aa_tf_qmzlook(e, t, u, q); ckq(c, "looking at a point", q, &m, tol); aa_tf_qv_mzlook(e, t, u, q, v); ckq(c, "looking at a point", q, &m, tol); ckp(c, "looking at a point", v, &m, tol); aa_tf_qutr_mzlook(e, t, u, E); ckE(c, "looking at a point", E, &m, tol);
}
/* exponentials and logarithms of motions */
static void op_expln(struct nx *c) {
    double ax[3], th = rang(c), dv[3]; if (nint(c, 0, 5) == 0) th *= -1; raxis(c, ax); rvec(c, dv); L w[3], v[3]; for (int i = 0; i < 3; i++) { w[i] = (double)(ax[i] * th); v[i] = dv[i]; } Mo m = m_exp(w, v); double ps = 1 + fabs(dv[0]) + fabs(dv[1]) + fabs(dv[2]), t = 1e-11; L full[6], half[6], h8[8]; for (int i = 0; i < 3; i++) { full[i] = v[i]; full[3 + i] = w[i]; half[i] = v[i] / 2; half[3 + i] = w[i] / 2; h8[i] = w[i] / 2; h8[4 + i] = v[i] / 2; } h8[3] = h8[7] = 0; snprintf(c->why, sizeof c->why, "twist by %.17g", th); Mo r = m;
#define TX (t * ps / psc(&r))
    double *F = lin(c, 6, full), *H = lin(c, 6, half), *D = lin(c, 8, h8), *T = vout(c, 12), *E = vout(c, 7), *S = vout(c, 8), *q = vout(c, 4), *p = vout(c, 3), *l6 = vout(c, 6), *l8 = vout(c, 8), *l3 = vout(c, 3), *k3 = vout(c, 3);
    aa_tf_tfmat_expv(F, T); ckT(c, "exponential to tfmat", T, &m, TX); aa_tf_qutr_expv(H, E); ckE(c, "exponential to qutr", E, &m, TX); aa_tf_qv_expv(H + 3, H, q, p); ckq(c, "exponential to qv", q, &m, TX); ckp(c, "exponential to qv", p, &m, TX); aa_tf_duqu_exp(D, S); ckS(c, "exponential to duqu", S, &m, TX); { double *P = vout(c, 8), *p6 = vout(c, 6); aa_tf_pure2duqu(H, P); ck(c, "pure duqu", 8, P, h8, 1e-15 * ps); aa_tf_duqu2pure(D, p6); ck(c, "pure duqu", 6, p6, half, 1e-15 * ps); }
    { double s0 = nun(c), s1 = nun(c); L z[8], o[8], dd[4], er = expl(s0); memcpy(z, h8, sizeof z); z[3] = s0; z[7] = s1; double *Z = lin(c, 8, z), *O = vout(c, 8); m_dual(&m, dd); for (int i = 0; i < 4; i++) { o[i] = er * m.q[i]; o[4 + i] = er * (dd[i] + (L)s1 * m.q[i]); } aa_tf_duqu_exp(Z, O); ck(c, "exponential with a scalar part", 8, O, o, 4 * t * (ps + psc(&m))); if (fabs(th) < 3) { double *I8 = lin(c, 8, o); aa_tf_duqu_ln(I8, O); ck(c, "logarithm with a scalar part", 8, O, z, 40 * t * (ps + psc(&m)) / (M_PI - fabs(th))); } }
    /* back: of the rotations with the same end point the one of at most a half turn, for which any axis sign does at exactly a half turn */
    Mo g = rmot(c); if (nint(c, 0, 2) == 0) g = m; double *gT = Tin(c, &g), *gE = Ein(c, &g), *gS = Sin(c, &g); L an = angle(&g); L lim = 2 * (L)M_PI - an; if (lim < 1e-3L) return; double u = 1e-11 * psc(&g) / (double)(lim < 1 ? lim * lim : 1); r = g; snprintf(c->why, sizeof c->why, "logarithm of a turn by %.17Lg", an);
    for (int s = 0; s < 5; s++) { L k = 2; const char *what = "logarithm of a qutr"; if (s == 0) aa_tf_qutr_lnv(gE, l6); else if (s == 1) { aa_tf_qv_lnv(gE, gE + 4, l3, k3); for (int i = 0; i < 3; i++) { l6[i] = k3[i]; l6[3 + i] = l3[i]; } what = "logarithm of a qv"; } else if (s == 2) { aa_tf_duqu_lnv(gS, l6); what = "logarithm of a duqu"; } else if (s == 3) { aa_tf_duqu_ln(gS, l8); for (int i = 0; i < 3; i++) { l6[i] = l8[4 + i]; l6[3 + i] = l8[i]; } ck1(c, "scalar part of a logarithm", l8[3], 0, 1e-15 * 4); ck1(c, "scalar part of a logarithm", l8[7], 0, 1e-14 * psc(&g)); what = "logarithm of a duqu"; } else { aa_tf_tfmat_lnv(gT, l6); k = 1; what = "logarithm of a tfmat"; }
        L lw[3], lv[3]; for (int i = 0; i < 3; i++) { lw[i] = k * l6[3 + i]; lv[i] = k * l6[i]; } Mo x = m_exp(lw, lv); double e7[7]; for (int i = 0; i < 4; i++) e7[i] = (double)x.q[i]; for (int i = 0; i < 3; i++) e7[4 + i] = (double)x.p[i]; ckE(c, what, e7, &g, s == 4 ? 100 * u : u); if (s == 4) SIM_CHECK(sqrtl(ldot(3, lw, lw)) < M_PI + 0.1, "wrong-motion", "%s: the logarithm of a matrix turns more than half", c->name); }
}
/* derivatives and integrals */
struct qt { const L *a, *b; };
static void f_exp(const void *u, L t, L *o) { const struct qt *x = (const struct qt *)u; L e[3]; for (int i = 0; i < 3; i++) e[i] = x->a[i] + t * x->b[i]; lqpexp(e, o); }
static void f_ln(const void *u, L t, L *o) { const struct qt *x = (const struct qt *)u; L e[4]; for (int i = 0; i < 4; i++) e[i] = x->a[i] + t * x->b[i]; lqln(e, o); }
static void op_vel(struct nx *c) {
    Mo m = rmot(c), r; double wv[3], vv[3]; rvec(c, wv); rvec(c, vv); double sw = fabs(wv[0]) + fabs(wv[1]) + fabs(wv[2]), dt = nint(c, 0, 3) ? fabs(nun(c)) : pow(10, -nint(c, 1, 9)); if (sw * dt > 20) dt = 20 / sw; if (nint(c, 0, 5) == 0) dt = -dt; L w[3], v[3], dx[6], dq[4], dR[9], cr[3]; for (int i = 0; i < 3; i++) { dx[i] = v[i] = vv[i]; dx[3 + i] = w[i] = wv[i]; } L hw[4] = {w[0] / 2, w[1] / 2, w[2] / 2, 0}; lqmul(hw, m.q, dq); for (int j = 0; j < 3; j++) lcross(w, m.R + 3 * j, dR + 3 * j); lcross(m.p, w, cr); L tw[8] = {w[0], w[1], w[2], 0, v[0] + cr[0], v[1] + cr[1], v[2] + cr[2], 0}, dS[8], ht[4], a[4], b[4], dual[4]; m_dual(&m, dual); memcpy(dS, dq, sizeof dq); for (int i = 0; i < 4; i++) ht[i] = tw[4 + i] / 2; lqmul(ht, m.q, a); lqmul(hw, dual, b); for (int i = 0; i < 4; i++) dS[4 + i] = a[i] + b[i];
    double sv = 1 + fabs(vv[0]) + fabs(vv[1]) + fabs(vv[2]), s = 1e-14 * (1 + sw), sp = 4 * s * psc(&m) + 1e-14 * 4 * sv; L dE[7], dT[12]; memcpy(dE, dq, sizeof dq); memcpy(dE + 4, v, sizeof v); memcpy(dT, dR, sizeof dR); memcpy(dT + 9, v, sizeof v);
    double *q = qin(c, &m), *R = Rin(c, &m), *E = Ein(c, &m), *S = Sin(c, &m), *T = Tin(c, &m), *W = lin(c, 3, w), *X = lin(c, 6, dx), *DQ = lin(c, 4, dq), *DR = lin(c, 9, dR), *DE = lin(c, 7, dE), *DS = lin(c, 8, dS), *DT = lin(c, 12, dT), *TW = lin(c, 8, tw), *o4 = vout(c, 4), *o9 = vout(c, 9), *o3 = vout(c, 3), *o7 = vout(c, 7), *o8 = vout(c, 8), *o12 = vout(c, 12), *o6 = vout(c, 6);
    aa_tf_qvel2diff(q, W, o4); ck(c, "velocity to quaternion derivative", 4, o4, dq, s); aa_tf_qdiff2vel(q, DQ, o3); ck(c, "quaternion derivative to velocity", 3, o3, w, 4 * s); aa_tf_rotmat_vel2diff(R, W, o9); ck(c, "velocity to matrix derivative", 9, o9, dR, 4 * s); aa_tf_rotmat_diff2vel(R, DR, o3); ck(c, "matrix derivative to velocity", 3, o3, w, 4 * s * (1 + sw)); aa_tf_qutr_vel2diff(E, X, o7); ck(c, "velocity to qutr derivative", 7, o7, dE, sp); aa_tf_qutr_diff2vel(E, DE, o6); ck(c, "qutr derivative to velocity", 6, o6, dx, sp);
    aa_tf_tfmat_vel2diff(T, X, o12); ck(c, "velocity to tfmat derivative", 12, o12, dT, sp); aa_tf_tfmat_diff2vel(T, DT, o6); ck(c, "tfmat derivative to velocity", 6, o6, dx, sp * (1 + sw)); aa_tf_duqu_vel2twist(S, X, o8); ck(c, "velocity to twist", 8, o8, tw, sp); aa_tf_duqu_twist2vel(S, TW, o6); ck(c, "twist to velocity", 6, o6, dx, sp); aa_tf_duqu_twist2diff(S, TW, o8); ck(c, "twist to duqu derivative", 8, o8, dS, sp); aa_tf_duqu_vel2diff(S, X, o8); ck(c, "velocity to duqu derivative", 8, o8, dS, sp); aa_tf_duqu_diff2vel(S, DS, o6); ck(c, "duqu derivative to velocity", 6, o6, dx, 4 * sp); aa_tf_duqu_diff2twist(S, DS, o8); ck(c, "duqu derivative to twist", 8, o8, tw, 4 * sp);
    { double *a3 = vout(c, 3), *b3 = vout(c, 3); L tv[6] = {tw[4], tw[5], tw[6], w[0], w[1], w[2]}; aa_tf_qv_vel2twist(E, E + 4, X + 3, X, a3, b3); ck(c, "velocity to twist", 3, a3, w, s); ck(c, "velocity to twist", 3, b3, tv, sp); double *tv6 = lin(c, 6, tv); aa_tf_qv_twist2vel(E, E + 4, tv6 + 3, tv6, a3, b3); ck(c, "twist to velocity", 3, a3, w, s); ck(c, "twist to velocity", 3, b3, v, sp); aa_tf_qutr_twist2vel(E, tv6, o6); ck(c, "twist to velocity", 6, o6, dx, sp); }
    /* moving along a constant twist */
    L wd[3], vd[3]; for (int i = 0; i < 3; i++) { wd[i] = w[i] * dt; vd[i] = tw[4 + i] * dt; } Mo x = m_exp(wd, vd); r = m_mul(&x, &m); double ad = sw * fabs(dt), k = 4e-14 * (1 + ad), kp = k * ((1 + ad) * psc(&m) + sv * fabs(dt)) / psc(&r); if (kp < k) kp = k;
    snprintf(c->why, sizeof c->why, "turned by about %g in %g", ad, dt); aa_tf_qsvel(q, W, dt, o4); ckq(c, "integrated quaternion", o4, &r, k); aa_tf_qsdiff(q, DQ, dt, o4); ckq(c, "integrated quaternion derivative", o4, &r, 4 * k); aa_tf_rotmat_svel(R, W, dt, o9); ckR(c, "integrated matrix", o9, &r, 4 * k); aa_tf_tfmat_svel(T, X, dt, o12); ckT(c, "integrated tfmat", o12, &r, 20 * kp); aa_tf_qutr_svel(E, X, dt, o7); ckE(c, "integrated qutr", o7, &r, 4 * kp); aa_tf_qutr_sdiff(E, DE, dt, o7); ckE(c, "integrated qutr derivative", o7, &r, 8 * kp); aa_tf_duqu_svel(S, X, dt, o8); ckS(c, "integrated duqu", o8, &r, 4 * kp); aa_tf_duqu_stwist(S, TW, dt, o8); ckS(c, "integrated twist", o8, &r, 4 * kp); aa_tf_duqu_sdiff(S, DS, dt, o8); ckS(c, "integrated duqu derivative", o8, &r, 16 * kp);
    { L y[4]; for (int i = 0; i < 4; i++) y[i] = m.q[i] + dt * dq[i]; aa_tf_qrk1(q, DQ, dt, o4); ck(c, "Euler step", 4, o4, y, k * (1 + ad)); aa_tf_qvelrk1(q, W, dt, o4); ck(c, "Euler step", 4, o4, y, k * (1 + ad)); aa_tf_qvelrk4(q, W, dt, o4); if (ad < 0.3) { L s2 = 1; for (int i = 0; i < 4; i++) if (0) s2 = 0; (void)s2; double tol = 0.01 * pow(ad, 5) + 4 * k; ckq(c, "Runge-Kutta step", o4, &r, tol); } }
    { double al = 2 * nun(c), av[3]; for (int i = 0; i < 3; i++) av[i] = al * wv[i]; double *A = vin(c, 3, av); L t[3]; for (int i = 0; i < 3; i++) t[i] = w[i] * dt + (L)av[i] * dt * dt / 2; L z[3] = {0, 0, 0}; Mo y = m_exp(t, z); y = m_mul(&y, &m); aa_tf_qsacc(q, W, A, dt, o4); ckq(c, "integrated acceleration", o4, &y, 4 * k * (1 + 2 * fabs(dt) * (1 + ad))); }
    /* derivatives of the exponential and the logarithm */
    L e[3], de[3], g[4], ti[4]; double ax[3], th = rang(c) * 0.9; raxis(c, ax); for (int i = 0; i < 3; i++) { e[i] = (double)(ax[i] * th); de[i] = nun(c); } double *e3 = lin(c, 3, e), *d3 = lin(c, 3, de); struct qt u = {e, de}; ddt(f_exp, &u, 4, 1e-3L, g); snprintf(c->why, sizeof c->why, "angle %.17g", th); aa_tf_qdpexp(e3, d3, o4); ck(c, "derivative of the exponential", 4, o4, g, 1e-10); aa_tf_qdpexpj(e3, d3, o4); ck(c, "derivative of the exponential", 4, o4, g, 1e-10); lqpexp(e, ti);
    double *tq = lin(c, 4, ti), *tg = lin(c, 4, g); aa_tf_qduln(tq, tg, o3); ck(c, "derivative of the logarithm", 3, o3, de, 4e-9); aa_tf_qdulnj(tq, tg, o3); ck(c, "derivative of the logarithm", 3, o3, de, 4e-9);
    { L e2[3], y[3], gc[4], om[4]; for (int i = 0; i < 3; i++) e2[i] = 2 * e[i]; (void)e2; lconj(ti, gc); lqmul(g, gc, om); for (int i = 0; i < 3; i++) { om[i] *= 2; y[i] = 2 * de[i]; } double *rv = lin(c, 3, e2), *dv = lin(c, 3, y); aa_tf_rotvec_diff2vel(rv, dv, o3); ck(c, "rotation vector derivative to velocity", 3, o3, om, 1e-10); }
}
/* Jacobians */
struct dt2 { const L *q, *d, *e, *f; };
static void f_ln1(const void *u, L t, L *o) { f_ln(u, t, o); }
static void f_dln(const void *u, L t, L *o) { /* dual part of the logarithm of (q + t e) + eps (d + t f) */ const struct dt2 *x = (const struct dt2 *)u; L q[4], d[4]; for (int i = 0; i < 4; i++) { q[i] = x->q[i] + t * x->e[i]; d[i] = x->d[i] + t * x->f[i]; } struct qt y = {q, d}; ddt(f_ln, &y, 4, 1e-4L / (1e-3L + sqrtl(ldot(4, d, d))), o); }
static void op_jac(struct nx *c) {
    L S[8]; double ax[3], th = rang(c) * 0.43, k = nint(c, 0, 1) ? 1 : 0.6 + fabs(nun(c)); raxis(c, ax); for (int i = 0; i < 3; i++) S[i] = (double)(k * ax[i] * sin(th)); S[3] = (double)(k * cos(th)); for (int i = 4; i < 8; i++) S[i] = nun(c); L z[4] = {0}; double *s = lin(c, 8, S); gm g4 = g_new(c, 4, 4, 8, 0), g8 = g_new(c, 8, 8, 8, 0), gc = g_new(c, 8, 8, 8, 0); struct aa_dmat J4 = AA_DMAT_INIT(4, 4, (double *)g4.d, (size_t)g4.ld), J8 = AA_DMAT_INIT(8, 8, (double *)g8.d, (size_t)g8.ld), JC = AA_DMAT_INIT(8, 8, (double *)gc.d, (size_t)gc.ld); snprintf(c->why, sizeof c->why, "half angle %.17g, norm %g", th, k);
    double *o8 = vout(c, 8); { L l[8]; struct qt y = {S, S + 4}; lqln(S, l); ddt(f_ln, &y, 4, 1e-3L, l + 4); aa_tf_duqu_ln(s, o8); ck(c, "logarithm of a duqu", 8, o8, l, 1e-9); }
    aa_tf_qln_jac(s, &J4); aa_tf_duqu_ln_jac(s, &J8); aa_tf_duqu_conj_jac(&JC);
    for (int j = 0; j < 8; j++) { L e[8] = {0}, o[8]; e[j] = 1; if (j < 4) { struct qt y = {S, e}; ddt(f_ln, &y, 4, 1e-3L, o); for (int i = 0; i < 4; i++) ck1(c, "Jacobian of the logarithm", J4.data[j * g4.ld + i], o[i], 1e-8); } else memset(o, 0, sizeof o); struct dt2 y = {S, S + 4, e, e + 4}; ddt(f_dln, &y, 4, 1e-3L, o + 4); for (int i = 0; i < 8; i++) ck1(c, "Jacobian of the logarithm of a duqu", J8.data[j * g8.ld + i], o[i], 2e-6); for (int i = 0; i < 8; i++) ck1(c, "Jacobian of the conjugate", JC.data[j * gc.ld + i], i != j ? 0 : (i & 3) == 3 ? 1 : -1, 0); }
    (void)z; Mo m = rmot(c); if (psc(&m) > 100) for (int i = 0; i < 3; i++) m.p[i] /= 1000; double *ms = Sin(c, &m); int n = nint(c, 1, 5); gm gv = g_new(c, 6, n, 8, 1), gs = g_new(c, 8, n, 8, 0); for (int j = 0; j < n; j++) for (int i = 0; i < 6; i++) { double v = nun(c); if (!gv.reuse) ((double *)gv.d)[j * gv.ld + i] = v; } seal(c); struct aa_dmat JV = AA_DMAT_INIT(6, (size_t)n, (double *)gv.d, (size_t)gv.ld), JS = AA_DMAT_INIT(8, (size_t)n, (double *)gs.d, (size_t)gs.ld); aa_tf_duqu_jac_vel2diff(ms, &JV, &JS);
    for (int j = 0; j < n; j++) { L w[3], v[3], cr[3], hw[4], ht[4], d[4], a[4], b[4], o[8]; for (int i = 0; i < 3; i++) { v[i] = JV.data[j * gv.ld + i]; w[i] = JV.data[j * gv.ld + 3 + i]; } lcross(m.p, w, cr); for (int i = 0; i < 3; i++) { hw[i] = w[i] / 2; ht[i] = (v[i] + cr[i]) / 2; } hw[3] = ht[3] = 0; m_dual(&m, d); lqmul(hw, m.q, o); lqmul(ht, m.q, a); lqmul(hw, d, b); for (int i = 0; i < 4; i++) o[4 + i] = a[i] + b[i]; for (int i = 0; i < 8; i++) ck1(c, "Jacobian as derivatives", JS.data[j * gs.ld + i], o[i], 1e-13 * psc(&m)); }
}
/* ---- interpolation */
static void lslerp(L t, const L *a, const L *b, L *o) { L d = ldot(4, a, b), s = d < 0 ? -1 : 1, x[4], y[4]; for (int i = 0; i < 4; i++) { x[i] = a[i] - s * b[i]; y[i] = a[i] + s * b[i]; } L th = 2 * atan2l(sqrtl(ldot(4, x, x)), sqrtl(ldot(4, y, y))), p, q; if (th > 1e-9L) { p = sinl((1 - t) * th) / sinl(th); q = sinl(t * th) / sinl(th); } else { p = 1 - t; q = t; } for (int i = 0; i < 4; i++) o[i] = p * a[i] + s * q * b[i]; }
struct sl { const L *a, *b, *da, *db; L u, du; };
static void f_slerp(const void *u, L t, L *o) { const struct sl *x = (const struct sl *)u; L a[4], b[4], n, k; for (int i = 0; i < 4; i++) { a[i] = x->a[i] + (x->da ? t * x->da[i] : 0); b[i] = x->b[i] + (x->db ? t * x->db[i] : 0); } n = sqrtl(ldot(4, a, a)); k = sqrtl(ldot(4, b, b)); for (int i = 0; i < 4; i++) { a[i] /= n; b[i] /= k; } lslerp(x->u + t * x->du, a, b, o); }
struct s3 { struct sl a, b; L u, du; };
static void f_slerp3(const void *u, L t, L *o) { const struct s3 *x = (const struct s3 *)u; L a[4], b[4]; f_slerp(&x->a, t, a); f_slerp(&x->b, t, b); lslerp(x->u + t * x->du, a, b, o); }
static Mo nearrot(struct nx *c, const Mo *a) { Mo d; double ax[3], t = nint(c, 0, 2) ? fabs(nun(c)) * 3 : pow(10, -nint(c, 1, 12)); raxis(c, ax); for (int i = 0; i < 3; i++) d.q[i] = ax[i] * sinl((L)t / 2); d.q[3] = cosl((L)t / 2); d.p[0] = d.p[1] = d.p[2] = 0; m_fix(&d); Mo r = m_mul(&d, a); if (nint(c, 0, 3) == 0) { for (int i = 0; i < 4; i++) r.q[i] = -r.q[i]; } for (int i = 0; i < 4; i++) r.q[i] = (double)r.q[i]; m_fix(&r); return r; }
static void tang(struct nx *c, const L *q, L *d) { L w[4] = {nun(c), nun(c), nun(c), 0}; lqmul(w, q, d); }
static void op_slerp(struct nx *c) {
    Mo a = rrot(c), b = nint(c, 0, 5) ? nearrot(c, &a) : a, p = nearrot(c, &a), r = nearrot(c, &p); L dd = ldot(4, a.q, b.q); if (fabsl(dd) < 1e-3L) return; double u = nint(c, 0, 3) ? fabs(nun(c)) : nint(c, 0, 1); double *A = qin(c, &a), *B = qin(c, &b), *o = vout(c, 4), *o2 = vout(c, 4); L w[4], g[4]; lslerp(u, a.q, b.q, w); L th = acosl(fminl(1, fabsl(dd))); snprintf(c->why, sizeof c->why, "u %.17g, 4D angle about %Lg", u, th);
    aa_tf_qslerp(u, A, B, o); ck(c, "slerp", 4, o, w, 1e-13); aa_tf_qslerpalg(u, A, B, o); Mo m; memcpy(m.q, w, sizeof w); m_fix(&m); ckq(c, "slerp", o, &m, 1e-13);
    struct sl x = {a.q, b.q, NULL, NULL, u, 1}; ddt(f_slerp, &x, 4, 1e-3L, g); aa_tf_qslerpdiff(u, A, B, o); ck(c, "derivative of slerp", 4, o, g, 1e-10); aa_tf_qslerpdiffalg(u, A, B, o); ck(c, "derivative of slerp", 4, o, g, 1e-10);
    /* end points that move, too */
    L da[4], db[4]; double du = nun(c); tang(c, a.q, da); tang(c, b.q, db); double *DA = lin(c, 4, da), *DB = lin(c, 4, db); struct sl y = {a.q, b.q, da, db, u, du}; ddt(f_slerp, &y, 4, 1e-4L, g); aa_tf_qslerpchaindiff(u, du, A, DA, B, DB, o, o2); ck(c, "slerp between moving orientations", 4, o, w, 1e-13); ck(c, "derivative of slerp between moving orientations", 4, o2, g, 2e-7);
    { double u1 = fabs(nun(c)), u3 = fabs(nun(c)), d1 = nun(c), d3 = nun(c); double *P = qin(c, &p), *R = qin(c, &r); struct s3 z = {{a.q, b.q, NULL, NULL, u1, d1}, {p.q, r.q, NULL, NULL, u3, d3}, u, du}; L q1[4], q2[4]; f_slerp(&z.a, 0, q1); f_slerp(&z.b, 0, q2); if (fabsl(ldot(4, p.q, r.q)) > 1e-3L && fabsl(ldot(4, q1, q2)) > 0.02L) { f_slerp3(&z, 0, w); ddt(f_slerp3, &z, 4, 1e-4L, g); aa_tf_qslerp3diff(u1, d1, A, B, u3, d3, P, R, u, du, o, o2); ck(c, "slerp of slerps", 4, o, w, 1e-12); ck(c, "derivative of slerp of slerps", 4, o2, g, 2e-7); } }
}
/* ---- averages */
static void op_avg(struct nx *c) {
    int n = nint(c, 1, 6); Mo m = rmot(c); gm Q = g_new(c, 7, n, 8, 1), w = *g_add(c, n, 1, n, 8, 1); double *W = (double *)w.d, *M = vout(c, 16), *o = vout(c, 4), *a = vout(c, 7); double s = 0;
    for (int j = 0; j < n; j++) { Mo x = nint(c, 0, 1) ? nearrot(c, &m) : rrot(c); double v[3]; rvec(c, v); for (int i = 0; i < 7; i++) if (!Q.reuse) ((double *)Q.d)[j * Q.ld + i] = i < 4 ? (double)x.q[i] : v[i - 4]; double k = 0.1 + fabs(nun(c)); if (!w.reuse) W[j] = k; s += k; } if (!w.reuse) for (int j = 0; j < n; j++) W[j] /= s; seal(c);
#define QQ(i, j) ((double *)Q.d)[(j) * Q.ld + (i)]
    L D[16]; double mx = 0; int even = nint(c, 0, 2) == 0; for (int p = 0; p < 2; p++) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { D[4 * j + i] = 0; for (int k = 0; k < n; k++) D[4 * j + i] += (L)QQ(i, k) * QQ(j, k) * (p && even ? 1.0L / n : W[k]); } if (!p) { aa_tf_quat_davenport_matrix((size_t)n, W, (double *)Q.d, (size_t)Q.ld, M); ck(c, "Davenport's matrix", 16, M, D, 1e-14); } }
    aa_tf_quat_davenport((size_t)n, even ? NULL : W, (double *)Q.d, (size_t)Q.ld, o); L v[4] = {o[0], o[1], o[2], o[3]}, Dv[4], lam; ck1(c, "norm of the average", (double)sqrtl(ldot(4, v, v)), 1, 1e-12); for (int i = 0; i < 4; i++) { Dv[i] = 0; for (int j = 0; j < 4; j++) Dv[i] += D[4 * j + i] * v[j]; } lam = ldot(4, v, Dv); for (int i = 0; i < 4; i++) SIM_CHECK(fabsl(Dv[i] - lam * v[i]) < 1e-12, "wrong-motion", "%s: the average quaternion is not stationary", c->name); L tr = D[0] + D[5] + D[10] + D[15]; (void)tr;
    for (int k = 0; k < n + 8; k++) { L x[4], d = 0, l; for (int i = 0; i < 4; i++) x[i] = k < n ? QQ(i, k) : nun(c); l = ldot(4, x, x); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) d += x[i] * D[4 * j + i] * x[j]; SIM_CHECK(d <= (lam + 1e-12L) * l, "wrong-motion", "%s: another quaternion is closer to the %d given", c->name, n); } (void)mx;
    aa_tf_qutr_wavg((size_t)n, W, (double *)Q.d, (size_t)Q.ld, a); ck1(c, "norm of the average", sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]), 1, 1e-12); for (int i = 0; i < 3; i++) { L x = 0, z = 1; for (int k = 0; k < n; k++) { x += (L)W[k] * QQ(4 + i, k); z += fabsl((L)QQ(4 + i, k)); } ck1(c, "average translation", a[4 + i], x, 1e-14 * (double)z); }
    /* translation between two sets of points */
    gm X = g_new(c, 3, n, 8, 1), Y = g_new(c, 3, n, 8, 1); for (int j = 0; j < n; j++) for (int i = 0; i < 3; i++) { double p = 3 * nun(c), q = 3 * nun(c); if (!X.reuse) ((double *)X.d)[j * X.ld + i] = p; if (!Y.reuse) ((double *)Y.d)[j * Y.ld + i] = q; } seal(c); double *R = Rin(c, &m), *o3 = vout(c, 3), *m3 = vout(c, 3); L t[3][8], mean[3], med[3]; for (int j = 0; j < n; j++) { L x[3]; for (int i = 0; i < 3; i++) x[i] = ((double *)X.d)[j * X.ld + i]; m_rot(&m, x, x); for (int i = 0; i < 3; i++) t[i][j] = ((double *)Y.d)[j * Y.ld + i] - x[i]; }
    for (int i = 0; i < 3; i++) { mean[i] = 0; for (int j = 0; j < n; j++) mean[i] += t[i][j] / n; for (int j = 1; j < n; j++) for (int k = j; k && t[i][k] < t[i][k - 1]; k--) { L x = t[i][k]; t[i][k] = t[i][k - 1]; t[i][k - 1] = x; } med[i] = n & 1 ? t[i][n / 2] : (t[i][n / 2] + t[i][n / 2 - 1]) / 2; } aa_tf_relx_mean((size_t)n, R, (double *)X.d, (size_t)X.ld, (double *)Y.d, (size_t)Y.ld, o3); ck(c, "mean displacement", 3, o3, mean, 1e-13); aa_tf_relx_median((size_t)n, R, (double *)X.d, (size_t)X.ld, (double *)Y.d, (size_t)Y.ld, m3); ck(c, "median displacement", 3, m3, med, 1e-13);
}
/* ---- the plane */
static void cks(struct nx *c, const char *what, aa_tf_cmplx z, L x, L y, double tol) { ck1(c, what, creal(z), x, tol); ck1(c, what, cimag(z), y, tol); }
static void op_plane(struct nx *c) {
    double a = rang(c) * (nint(c, 0, 1) ? 1 : -1), b = rang(c), v[2][2], p[2]; for (int i = 0; i < 2; i++) { p[i] = 3 * nun(c); for (int j = 0; j < 2; j++) v[j][i] = 3 * nun(c); } L ca = cosl(a), sa = sinl(a), cb = cosl(b), sb = sinl(b); double t = 1e-14, *R = vout(c, 4), *T = vout(c, 6), *o4 = vout(c, 4), *o6 = vout(c, 6); L Ra[4] = {ca, sa, -sa, ca}, Rb[4] = {cb, sb, -sb, cb}, Rc[4] = {cosl((L)a + b), sinl((L)a + b), -sinl((L)a + b), cosl((L)a + b)}, Ri[4] = {ca, -sa, sa, ca}; double *A = lin(c, 4, Ra), *B = lin(c, 4, Rb); aa_tf_cmplx za = aa_tf_angle2cmplx(a), zb = aa_tf_cpexp(b); cks(c, "angle to complex", za, ca, sa, t); cks(c, "exponential", zb, cb, sb, t);
    ck1(c, "logarithm", sin((aa_tf_culn(za) - a) / 2), 0, t * 4); ck1(c, "complex to angle", sin((aa_tf_cmplx2angle(zb) - b) / 2), 0, t * 4); aa_tf_cmplx2rotmatp(za, R); ck(c, "complex to matrix", 4, R, Ra, t); aa_tf_angle2rotmatp(a, R); ck(c, "angle to matrix", 4, R, Ra, t); aa_tf_rotmatp_pexp(a, R); ck(c, "angle to matrix", 4, R, Ra, t); cks(c, "matrix to complex", aa_tf_rotmatp2cmplx(A), ca, sa, t); ck1(c, "matrix to angle", sin((aa_tf_rotmatp2angle(A) - a) / 2), 0, t * 4); ck1(c, "matrix to angle", sin((aa_tf_rotmatp_uln(A) - a) / 2), 0, t * 4); SIM_CHECK(cos(aa_tf_rotmatp2angle(A) - a) > 0 && cos(aa_tf_culn(za) - a) > 0, "wrong-motion", "%s: opposite angle", c->name);
    aa_tf_vec2 V = AA_TF_VEC2(p[0], p[1]), va = AA_TF_VEC2(v[0][0], v[0][1]), vb = AA_TF_VEC2(v[1][0], v[1][1]); L x = ca * p[0] - sa * p[1], y = sa * p[0] + ca * p[1]; cks(c, "rotation", aa_tf_crot(za, V), x, y, 9 * t); cks(c, "rotation", aa_tf_rotmatp_rot(A, V), x, y, 9 * t); cks(c, "conjugate", aa_tf_cconj(za), ca, -sa, t); aa_tf_rotmatp_inv2(A, R); ck(c, "inverse", 4, R, Ri, t); cks(c, "product", aa_tf_cmul(za, zb), Rc[0], Rc[1], 9 * t); aa_tf_rotmatp_mul(A, B, o4); ck(c, "product", 4, o4, Rc, 9 * t);
    L Ta[6] = {Ra[0], Ra[1], Ra[2], Ra[3], v[0][0], v[0][1]}, Tb[6] = {Rb[0], Rb[1], Rb[2], Rb[3], v[1][0], v[1][1]}; double *TA = lin(c, 6, Ta), *TB = lin(c, 6, Tb); cks(c, "transform", aa_tf_cv_tf(za, va, V), x + v[0][0], y + v[0][1], 9 * t); cks(c, "transform", aa_tf_tfmatp_tf(TA, V), x + v[0][0], y + v[0][1], 9 * t); aa_tf_cv2tfmatp(za, va, T); ck(c, "cv to tfmatp", 6, T, Ta, t); aa_tf_cmplx zc; aa_tf_vec2 vc; aa_tf_tfmatp2cv(TA, &zc, &vc); cks(c, "tfmatp to cv", zc, ca, sa, t); cks(c, "tfmatp to cv", vc, v[0][0], v[0][1], t);
    L Tc[6] = {Rc[0], Rc[1], Rc[2], Rc[3], ca * v[1][0] - sa * v[1][1] + v[0][0], sa * v[1][0] + ca * v[1][1] + v[0][1]}, Ti[6] = {ca, -sa, sa, ca, -(ca * v[0][0] + sa * v[0][1]), -(-sa * v[0][0] + ca * v[0][1])}; aa_tf_cv_mul(za, va, zb, vb, &zc, &vc); cks(c, "product", zc, Tc[0], Tc[1], 9 * t); cks(c, "product", vc, Tc[4], Tc[5], 19 * t); aa_tf_tfmatp_mul(TA, TB, o6); ck(c, "product", 6, o6, Tc, 19 * t); aa_tf_cv_inv(za, va, &zc, &vc); cks(c, "inverse", zc, ca, -sa, t); cks(c, "inverse", vc, Ti[4], Ti[5], 19 * t); aa_tf_tfmatp_inv2(TA, o6); ck(c, "inverse", 6, o6, Ti, 19 * t);
}
static const struct opdef tops[] = {{"rotations", op_conv}, {"rotations", op_conv}, {"Euler angles", op_euler}, {"quaternions", op_quat}, {"vectors", op_vecs}, {"motions", op_rigid}, {"motions", op_rigid}, {"axes", op_axes}, {"exponentials", op_expln}, {"exponentials", op_expln}, {"velocities", op_vel}, {"Jacobians", op_jac}, {"interpolation", op_slerp}, {"interpolation", op_slerp}, {"averages", op_avg}, {"plane", op_plane}};
#define NT ((int)(sizeof tops / sizeof tops[0]))
static void tf_pure(void) { ops_pure(tops, NT); }
static void tf_threads(void) { ops_threads(tops, NT); }
SIM_SCENARIO("P26", tf_pure, tf_pure, 3);
SIM_SCENARIO("P26", tf_threads, tf_threads, 1);
/* ---- a motion followed for a long time in all representations at once */
static void tf_track(void) {
    sim_set_step_limit(400000000); struct opinst o; memset(&o, 0, sizeof o); struct nx cx, *c = &cx; memset(c, 0, sizeof *c); c->s = (uint64_t)op_choose(1u << 30) * 77777 + 5; c->o = &o; c->name = "tracking"; double got[MAXREF]; c->got = got; /* draws from c are derived from this choice */
    Mo m = m_id(); double E[7] = {0, 0, 0, 1, 0, 0, 0}, S[8] = {0, 0, 0, 1, 0, 0, 0, 0}, T[12] = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; int n = op_range(5, 60); double err = 1e-14, now = 0, far = 1;
    for (int k = 0; k < n; k++) {
        int op = (int)op_choose(12); double e2[8], s2[8], t2[12], x[8], y[12], z[8]; c->ng = c->nin = 0; c->ngot = 0; c->dense = 0; Mo d = rmot(c), r; if (psc(&d) > 100) for (int i = 0; i < 3; i++) d.p[i] = (double)(d.p[i] / 1000); L ld[4]; m_dual(&d, ld); for (int i = 0; i < 4; i++) { x[i] = z[i] = (double)d.q[i]; z[4 + i] = (double)ld[i]; } for (int i = 0; i < 9; i++) y[i] = (double)d.R[i]; for (int i = 0; i < 3; i++) x[4 + i] = y[9 + i] = (double)d.p[i]; far += psc(&d); err += 1e-15 * 40 * far;
        sim_log("step %d: operation %d", k, op);
        switch (op) {
        case 0: case 1: r = m_mul(&m, &d); if (op) aa_tf_qutr_mulnorm(E, x, e2); else aa_tf_qutr_mul(E, x, e2); aa_tf_duqu_mul(S, z, s2); aa_tf_tfmat_mul(T, y, t2); break;
        case 2: r = m_mul(&d, &m); aa_tf_qutr_mul(x, E, e2); aa_tf_duqu_mul(z, S, s2); aa_tf_12chain(y, T, t2); break;
        case 3: r = m_inv(&m); aa_tf_qutr_conj(E, e2); aa_tf_duqu_conj(S, s2); aa_tf_tfmat_inv2(T, t2); break;
        case 4: { Mo i = m_inv(&d); r = m_mul(&m, &i); aa_tf_qutr_mulc(E, x, e2); aa_tf_duqu_mulc(S, z, s2); double yi[12]; aa_tf_tfmat_inv2(y, yi); aa_tf_tfmat_mul(T, yi, t2); break; }
        case 5: { Mo i = m_inv(&m); r = m_mul(&i, &d); aa_tf_qutr_cmul(E, x, e2); aa_tf_duqu_cmul(S, z, s2); aa_tf_12rel(T, y, t2); break; }
        case 6: case 7: { double dx[6], dt = op_choose(3) ? 0.01 * op_range(1, 100) : 1e-6 * op_range(1, 100); for (int i = 0; i < 6; i++) dx[i] = 2 * nun(c) * (i < 3 ? 1 : op_choose(3) ? 1 : 1e-5); L w[3], v[3], wl[3], cr[3]; for (int i = 0; i < 3; i++) { w[i] = dx[3 + i] * (L)dt; wl[i] = dx[3 + i]; } lcross(m.p, wl, cr); for (int i = 0; i < 3; i++) v[i] = (dx[i] + cr[i]) * dt; Mo i = m_exp(w, v); r = m_mul(&i, &m); now += dt; sim_advance_ns((int64_t)(dt * 1e9)); far += 4; err += 1e-15 * 40 * far;
            if (op == 6) { aa_tf_qutr_svel(E, dx, dt, e2); aa_tf_duqu_svel(S, dx, dt, s2); aa_tf_tfmat_svel(T, dx, dt, t2); } else { double de[7], ds[8]; aa_tf_qutr_vel2diff(E, dx, de); aa_tf_qutr_sdiff(E, de, dt, e2); aa_tf_duqu_vel2diff(S, dx, ds); aa_tf_duqu_sdiff(S, ds, dt, s2); aa_tf_tfmat_svel(T, dx, dt, t2); } break; }
        case 8: r = m; aa_tf_duqu2qutr(S, e2); aa_tf_tfmat2duqu(T, s2); aa_tf_qutr2tfmat(E, t2); sim_probe("representations swapped"); break;
        case 9: r = m; { double k2 = 0.5 + 0.1 * op_range(0, 30); for (int i = 0; i < 8; i++) { s2[i] = -k2 * S[i]; if (i < 7) e2[i] = i < 4 ? -k2 * E[i] : E[i]; } aa_tf_duqu_normalize(s2); aa_tf_qnormalize(e2); memcpy(t2, T, sizeof t2); aa_tf_tfmat_normalize(t2); sim_probe("norm and sign disturbed"); } break;
        case 10: { L an = 2 * (L)M_PI - 2 * atan2l(sqrtl((L)E[0] * E[0] + (L)E[1] * E[1] + (L)E[2] * E[2]), E[3]), as = 2 * (L)M_PI - 2 * atan2l(sqrtl((L)S[0] * S[0] + (L)S[1] * S[1] + (L)S[2] * S[2]), S[3]); r = m; if (an < 0.2L || as < 0.2L) { memcpy(e2, E, 56); memcpy(s2, S, 64); memcpy(t2, T, 96); break; } double l[6]; aa_tf_qutr_lnv(E, l); aa_tf_qutr_expv(l, e2); aa_tf_duqu_lnv(S, l); double p8[8]; aa_tf_pure2duqu(l, p8); aa_tf_duqu_exp(p8, s2); aa_tf_tfmat_lnv(T, l); aa_tf_tfmat_expv(l, t2); err += 1e-11 * far; sim_probe("logarithm and back"); break; }
        default: { r = m; double a[4], v[3], q[4]; aa_tf_rotmat2axang(T, a); aa_tf_axang2rotmat(a, t2); memcpy(t2 + 9, T + 9, 24); aa_tf_duqu2qv(S, q, v); aa_tf_qv2duqu(q, v, s2); aa_tf_quat2rotvec(E, a); aa_tf_rotvec2quat(a, e2); memcpy(e2 + 4, E + 4, 24); err += 1e-11; break; } }
        m = r; memcpy(E, e2, 56); memcpy(S, s2, 64); memcpy(T, t2, 96); double tol = err * far / psc(&m); if (tol < err) tol = err; snprintf(c->why, sizeof c->why, "step %d (%d) of %d, time %g", k, op, n, now); ckE(c, "quaternion-translation", E, &m, tol); c->ngot = 0; ckS(c, "dual quaternion", S, &m, tol); c->ngot = 0; ckT(c, "matrix", T, &m, tol); far = fmax(psc(&m), 1) + 1;
    }
    sim_hash(E, 56); sim_hash(S, 64); sim_hash(T, 96);
}
SIM_SCENARIO("P26", tf_track, tf_track, 2);
