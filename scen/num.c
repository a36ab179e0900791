/* Numerical routines: the same answer whatever else happens, from and to exactly the elements named. */
#include "num_core.h"
#include <amino/diffeq.h>
#define T double
#define TN(x) aa_la_d_##x
#define TL(x) nd_##x
#define TEPS 1e-11
#include "num_t.h"
#undef T
#undef TN
#undef TL
#undef TEPS
#define T float
#define TN(x) aa_la_s_##x
#define TL(x) ns_##x
#define TEPS 2e-5
#include "num_t.h"
#undef T
#undef TN
#undef TL
#undef TEPS

/* ---- double only: vectors and matrices as objects */
#define E(g, i, j) (((double *)(g).d)[(size_t)(j) * (size_t)(g).ld + (size_t)(i)])
#define D(g) ((double *)(g).d)
#define DM(g) AA_DMAT_INIT((size_t)(g).m, (size_t)(g).n, D(g), (size_t)(g).ld)
#define DV(g) AA_DVEC_INIT((size_t)(g).n, D(g), (size_t)(g).ld)
static void same(struct nx *c, const char *what, double got, double want, double scale) { nd_same(c, what, got, want, scale); }
static void op_dvec(struct nx *c) {
    int n = nint(c, 1, 10); gm x = nd_invec(c, n, 0), w = nd_invec(c, n, 0), y = nd_outvec(c, n), z = nd_outvec(c, n); struct aa_dvec vx = DV(x), vw = DV(w), vy = DV(y), vz = DV(z); double a = nval(c, 0), b = nval(c, 0), s = 0, q = 0, d = 0, e[12];
    aa_dvec_copy(&vx, &vy); for (int i = 0; i < n; i++) { SIM_CHECK(E(y, 0, i) == E(x, 0, i), "wrong-result", "%s: copy", c->name); e[i] = E(x, 0, i); s += e[i] * E(w, 0, i); q += e[i] * e[i]; d += (e[i] - E(w, 0, i)) * (e[i] - E(w, 0, i)); }
    same(c, "dot product", aa_dvec_dot(&vx, &vw), s, 90); same(c, "norm", aa_dvec_nrm2(&vx), sqrt(q), 9); same(c, "squared distance", aa_dvec_ssd(&vx, &vw), d, 90);
    aa_dvec_axpy(a, &vw, &vy); for (int i = 0; i < n; i++) same(c, "y + a x", E(y, 0, i), e[i] += a * E(w, 0, i), 9);
    aa_dvec_scal(b, &vy); for (int i = 0; i < n; i++) same(c, "a y", E(y, 0, i), e[i] *= b, 9);
    aa_dvec_inc(a, &vy); for (int i = 0; i < n; i++) same(c, "y + a", E(y, 0, i), e[i] += a, 9);
    aa_dvec_set(&vz, b); for (int i = 0; i < n; i++) SIM_CHECK(E(z, 0, i) == b, "wrong-result", "%s: set", c->name);
    aa_dvec_swap(&vy, &vz); for (int i = 0; i < n; i++) { SIM_CHECK(E(y, 0, i) == b, "wrong-result", "%s: swap", c->name); same(c, "swapped", E(z, 0, i), e[i], 9); }
    aa_dvec_zero(&vy); for (int i = 0; i < n; i++) SIM_CHECK(E(y, 0, i) == 0, "wrong-result", "%s: zero", c->name);
    nd_rec(c, &z);
    int lo = nint(c, 0, n - 1), hi = nint(c, lo + 1, n), st = nint(c, 1, 3); struct aa_dvec sl; aa_dvec_slice(&vx, (size_t)lo, (size_t)hi, (size_t)st, &sl);
    if ((hi - lo) % st == 0) SIM_CHECK(sl.len == (size_t)((hi - lo) / st), "wrong-result", "%s: slice of %d..%d by %d has %zu elements", c->name, lo, hi, st, sl.len);
    for (size_t i = 0; i < sl.len; i++) { SIM_CHECK(lo + (int)i * st < hi, "wrong-result", "%s: slice runs over", c->name); SIM_CHECK(sl.data[i * sl.inc] == E(x, 0, lo + (int)i * st), "wrong-result", "%s: slice element", c->name); }
    struct aa_mem_region *reg = aa_mem_region_local_get(); struct aa_dvec *p = aa_dvec_dup(reg, &vx), *m = aa_dvec_mdup(&vx);
    for (int i = 0; i < n; i++) SIM_CHECK(p->data[(size_t)i * p->inc] == E(x, 0, i) && m->data[(size_t)i * m->inc] == E(x, 0, i), "wrong-result", "%s: duplicate", c->name);
    SIM_CHECK(sim_heap_addressable(m->data, m->len * sizeof(double)) == 1 && m->len == (size_t)n && p->len == (size_t)n, "wrong-result", "%s: duplicate's length", c->name);
    struct aa_dvec *r2 = aa_dvec_alloc(reg, (size_t)n); aa_dvec_set(r2, 4); for (int i = 0; i < n; i++) SIM_CHECK(p->data[i] == E(x, 0, i), "wrong-result", "%s: an allocated vector overlaps another", c->name);
    aa_mem_region_pop(reg, p); free(m);
    if (n > 1) { struct aa_dvec sh = vy; sh.len--; MUSTFAIL("copy", aa_dvec_copy(&vx, &sh)); MUSTFAIL("swap", aa_dvec_swap(&sh, &vz)); MUSTFAIL("axpy", aa_dvec_axpy(2, &vx, &sh)); MUSTFAIL("dot", aa_dvec_dot(&vx, &sh)); MUSTFAIL("ssd", aa_dvec_ssd(&vx, &sh)); for (int i = 0; i < n; i++) SIM_CHECK(E(y, 0, i) == 0, "size-error", "%s: written although the sizes do not agree", c->name); MUSTFAIL("slice", aa_dvec_slice(&vx, 0, (size_t)n + 1, 1, &sl)); MUSTFAIL("slice", aa_dvec_slice(&vx, 2, 1, 1, &sl)); }
}
static void op_dmat(struct nx *c) {
    int m = nint(c, 1, 6), n = nint(c, 1, 6); if (nint(c, 0, 2) == 0) n = m; gm A = nd_in(c, m, n, 0), B = nd_in(c, m, n, 0), Y = nd_out(c, m, n), At = nd_out(c, n, m); struct aa_dmat mA = DM(A), mB = DM(B), mY = DM(Y), mT = DM(At); double a = nval(c, 0), b = nval(c, 0), e[6][6], q = 0, d = 0;
    aa_dmat_copy(&mA, &mY); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { SIM_CHECK(E(Y, i, j) == E(A, i, j), "wrong-result", "%s: copy", c->name); e[i][j] = E(A, i, j); q += e[i][j] * e[i][j]; d += (e[i][j] - E(B, i, j)) * (e[i][j] - E(B, i, j)); }
    same(c, "norm", aa_dmat_nrm2(&mA), sqrt(q), 9); same(c, "squared distance", aa_dmat_ssd(&mA, &mB), d, 90);
    aa_dmat_axpy(a, &mB, &mY); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) same(c, "Y + a X", E(Y, i, j), e[i][j] += a * E(B, i, j), 9);
    aa_dmat_inc(&mY, b); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) same(c, "Y + a", E(Y, i, j), e[i][j] += b, 9);
    aa_dmat_scal(&mY, a); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) same(c, "a Y", E(Y, i, j), e[i][j] *= a, 9);
    nd_rec(c, &Y);
    aa_dmat_trans(&mA, &mT); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(At, j, i) == E(A, i, j), "wrong-result", "%s: transpose", c->name);
    aa_dmat_set(&mY, a, b); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(Y, i, j) == (i == j ? b : a), "wrong-result", "%s: set", c->name);
    int up = nint(c, 0, 1); aa_dmat_lacpy(up ? "U" : "L", &mA, &mY); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(Y, i, j) == (i == j || (i < j) == up ? E(A, i, j) : a), "wrong-result", "%s: copy of a triangle", c->name);
    aa_dmat_zero(&mY); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(Y, i, j) == 0, "wrong-result", "%s: zero", c->name);
    struct aa_dvec v; int r = nint(c, 0, m - 1), k = nint(c, 0, n - 1);
    aa_dmat_row_vec(&mA, (size_t)r, &v); SIM_CHECK(v.len == (size_t)n, "wrong-result", "%s: row", c->name); for (int j = 0; j < n; j++) SIM_CHECK(v.data[(size_t)j * v.inc] == E(A, r, j), "wrong-result", "%s: row", c->name);
    aa_dmat_col_vec(&mA, (size_t)k, &v); SIM_CHECK(v.len == (size_t)m, "wrong-result", "%s: column", c->name); for (int i = 0; i < m; i++) SIM_CHECK(v.data[(size_t)i * v.inc] == E(A, i, k), "wrong-result", "%s: column", c->name);
    aa_dmat_diag_vec(&mA, &v); SIM_CHECK(v.len == (size_t)(m < n ? m : n), "wrong-result", "%s: diagonal", c->name); for (size_t i = 0; i < v.len; i++) SIM_CHECK(v.data[i * v.inc] == E(A, (int)i, (int)i), "wrong-result", "%s: diagonal", c->name);
    int r2 = nint(c, r + 1, m), k2 = nint(c, k + 1, n); struct aa_dmat bl; if (nint(c, 0, 1)) aa_dmat_block(&mA, (size_t)r, (size_t)k, (size_t)r2, (size_t)k2, &bl); else aa_dmat_view_block(&bl, &mA, (size_t)r, (size_t)k, (size_t)(r2 - r), (size_t)(k2 - k));
    SIM_CHECK(bl.rows == (size_t)(r2 - r) && bl.cols == (size_t)(k2 - k), "wrong-result", "%s: block", c->name); for (int i = r; i < r2; i++) for (int j = k; j < k2; j++) SIM_CHECK(bl.data[(size_t)(j - k) * bl.ld + (size_t)(i - r)] == E(A, i, j), "wrong-result", "%s: block", c->name);
    struct aa_mem_region *reg = aa_mem_region_local_get(); struct aa_dmat *p = aa_dmat_dup(reg, &mA), *h = aa_dmat_mdup(&mA), *z = aa_dmat_alloc(reg, (size_t)m, (size_t)n); aa_dmat_set(z, 7, 7);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(p->data[(size_t)j * p->ld + (size_t)i] == E(A, i, j) && h->data[(size_t)j * h->ld + (size_t)i] == E(A, i, j), "wrong-result", "%s: duplicate", c->name);
    aa_mem_region_pop(reg, p); free(h);
    MUSTFAIL("row", aa_dmat_row_vec(&mA, (size_t)m, &v)); MUSTFAIL("column", aa_dmat_col_vec(&mA, (size_t)n, &v)); MUSTFAIL("block", aa_dmat_block(&mA, 0, 0, (size_t)m + 1, 1, &bl)); MUSTFAIL("block", aa_dmat_block(&mA, 0, 0, 1, (size_t)n + 1, &bl));
    struct aa_dmat sh = mY; if (nint(c, 0, 1)) sh.cols++; else sh.rows++; MUSTFAIL("copy", aa_dmat_copy(&mA, &sh)); MUSTFAIL("axpy", aa_dmat_axpy(2, &mA, &sh)); MUSTFAIL("ssd", aa_dmat_ssd(&mA, &sh)); sh = mT; sh.cols++; MUSTFAIL("transpose", aa_dmat_trans(&mA, &sh)); sh = mT; sh.rows++; MUSTFAIL("transpose", aa_dmat_trans(&mA, &sh));
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(Y, i, j) == 0, "size-error", "%s: written although the sizes do not agree", c->name);
}
static void op_gemm(struct nx *c) {
    int m = nint(c, 1, 5), n = nint(c, 1, 5), k = nint(c, 1, 5), ta = nint(c, 0, 2) == 0, tb = nint(c, 0, 2) == 0; gm A = ta ? nd_in(c, k, m, 0) : nd_in(c, m, k, 0), B = tb ? nd_in(c, n, k, 0) : nd_in(c, k, n, 0), C = nd_out(c, m, n), x = nd_invec(c, k, 0), y = nd_outvec(c, m); double a = nval(c, 0), b = nval(c, 3), C0[5][5], y0[5];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) E(C, i, j) = C0[i][j] = nval(c, 0); for (int i = 0; i < m; i++) E(y, 0, i) = y0[i] = nval(c, 0);
    struct aa_dmat mA = DM(A), mB = DM(B), mC = DM(C); struct aa_dvec vx = DV(x), vy = DV(y); AA_CBLAS_TRANSPOSE qa = ta ? CblasTrans : CblasNoTrans, qb = tb ? CblasTrans : CblasNoTrans;
    snprintf(c->why, sizeof c->why, "%dx%d times %dx%d%s%s", m, k, k, n, ta ? ", first transposed" : "", tb ? ", second transposed" : "");
    { struct aa_dmat w = mC; w.rows++; MUSTFAIL("gemm", aa_dmat_gemm(qa, qb, a, &mA, &mB, b, &w)); w = mC; w.cols++; MUSTFAIL("gemm", aa_dmat_gemm(qa, qb, a, &mA, &mB, b, &w)); w = mB; if (tb) w.cols++; else w.rows++; MUSTFAIL("gemm", aa_dmat_gemm(qa, qb, a, &mA, &w, b, &mC)); struct aa_dvec z = vx; z.len++; MUSTFAIL("gemv", aa_dmat_gemv(qa, a, &mA, &z, b, &vy)); z = vy; z.len++; MUSTFAIL("gemv", aa_dmat_gemv(qa, a, &mA, &vx, b, &z)); }
    aa_dmat_gemm(qa, qb, a, &mA, &mB, b, &mC); aa_dmat_gemv(qa, a, &mA, &vx, b, &vy);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = b * C0[i][j]; for (int l = 0; l < k; l++) s += a * (ta ? E(A, l, i) : E(A, i, l)) * (tb ? E(B, j, l) : E(B, l, j)); same(c, "product", E(C, i, j), s, 200); }
    for (int i = 0; i < m; i++) { double s = b * y0[i]; for (int l = 0; l < k; l++) s += a * (ta ? E(A, l, i) : E(A, i, l)) * E(x, 0, l); same(c, "matrix times vector", E(y, 0, i), s, 200); }
    nd_rec(c, &C); nd_rec(c, &y);
}
static double smin2(gm *A) { /* smallest singular value, by Jacobi on the smaller Gram matrix */
    int m = A->m, n = A->n, k = m < n ? m : n; double G[8][8]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { G[i][j] = 0; for (int l = 0; l < (m < n ? n : m); l++) G[i][j] += m < n ? E(*A, i, l) * E(*A, j, l) : E(*A, l, i) * E(*A, l, j); }
    for (int it = 0; it < 60; it++) for (int p = 0; p < k; p++) for (int q = p + 1; q < k; q++) { if (fabs(G[p][q]) < 1e-300) continue; double th = 0.5 * atan2(2 * G[p][q], G[q][q] - G[p][p]), cs = cos(th), sn = sin(th);
        for (int i = 0; i < k; i++) { double u = G[i][p], v = G[i][q]; G[i][p] = cs * u - sn * v; G[i][q] = sn * u + cs * v; } for (int i = 0; i < k; i++) { double u = G[p][i], v = G[q][i]; G[p][i] = cs * u - sn * v; G[q][i] = sn * u + cs * v; } }
    double s = 1e300; for (int i = 0; i < k; i++) if (G[i][i] < s) s = G[i][i]; return s > 0 ? sqrt(s) : 0;
}
static void mulm(int m, int k, int n, const double *A, int lda, const double *B, int ldb, double *C, int ldc) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int l = 0; l < k; l++) s += A[l * lda + i] * B[j * ldb + l]; C[j * ldc + i] = s; } }
/* the four Moore-Penrose conditions */
static void moore(struct nx *c, gm *A, gm *P, double slack) {
    int m = A->m, n = A->n; double AP[64], PA[64], X[64], na = nd_nrm(A), np = nd_nrm(P), z = slack * (1 + na * np);
    mulm(m, n, m, D(*A), A->ld, D(*P), P->ld, AP, 8); mulm(n, m, n, D(*P), P->ld, D(*A), A->ld, PA, 8);
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) same(c, "symmetry of A*pinv(A)", AP[j * 8 + i], AP[i * 8 + j], z); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(c, "symmetry of pinv(A)*A", PA[j * 8 + i], PA[i * 8 + j], z);
    mulm(m, m, n, AP, 8, D(*A), A->ld, X, 8); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) same(c, "A*pinv(A)*A", X[j * 8 + i], E(*A, i, j), z * (1 + na)); mulm(n, m, n, PA, 8, D(*P), P->ld, X, 8); (void)X;
    mulm(n, n, m, PA, 8, D(*P), P->ld, X, 8); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(c, "pinv(A)*A*pinv(A)", X[j * 8 + i], E(*P, i, j), z * (1 + np));
}
static void op_pinv(struct nx *c) {
    int m = nint(c, 1, 7), n = nint(c, 1, 7), mn = m < n ? m : n, r = nint(c, 0, 2) ? mn : nint(c, 1, mn), dense = nint(c, 0, 1), which = nint(c, 0, 3); double s, k = 0.01 + fabs(nval(c, 0)) * 0.2;
    c->dense = dense; gm A = nd_in(c, m, n, 0), P = nd_out(c, n, m); c->dense = 0;
    if (!A.reuse && r < mn) { double L[7 * 7], R[7 * 7]; struct nx z = *c; for (int i = 0; i < 49; i++) { L[i] = nun(&z) * 2; R[i] = nun(&z) * 2; } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { E(A, i, j) = 0; for (int l = 0; l < r; l++) E(A, i, j) += L[i * 7 + l] * R[l * 7 + j]; } }
    seal(c); struct aa_dmat mA = DM(A), mP = DM(P); { struct aa_dmat w = mP; if (nint(c, 0, 1)) w.rows++; else w.cols++; MUSTFAIL("pinv", aa_dmat_pinv(&mA, -1, &w)); MUSTFAIL("dpinv", aa_dmat_dpinv(&mA, k, &w)); MUSTFAIL("dzdpinv", aa_dmat_dzdpinv(&mA, k, &w)); }
    snprintf(c->why, sizeof c->why, "%dx%d, leading dimensions %d and %d, rank %d, routine %d", m, n, A.ld, P.ld, r, which); s = r < mn ? 0 : smin2(&A);
    if (which == 0) {
        if (r == mn && s < 1e-2) return;
        if (r < mn) { gm Q = A; (void)Q; double tol = 1e-9; SIM_CHECK(!aa_dmat_pinv(&mA, tol, &mP), "wrong-result", "%s: failed", c->name); if (nd_nrm(&P) < 1e3) moore(c, &A, &P, 1e3); else return; }
        else { SIM_CHECK(!aa_dmat_pinv(&mA, -1, &mP), "wrong-result", "%s: failed", c->name); moore(c, &A, &P, 100); }
        nd_rec(c, &P);
    } else if (which == 1 || (which == 2 && dense)) { /* (A'A + kI) P = A' */
        if (which == 1) SIM_CHECK(!aa_dmat_dpinv(&mA, k, &mP), "wrong-result", "%s: failed", c->name); else aa_la_dpinv((size_t)m, (size_t)n, k, D(A), D(P));
        double PA[64], na = nd_nrm(&A); mulm(n, m, n, D(P), P.ld, D(A), A.ld, PA, 8); /* P (A A' + k I) = A' */
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double t = k * E(P, i, j); for (int l = 0; l < n; l++) t += PA[l * 8 + i] * E(A, j, l); same(c, "pinv*(A*A'+kI)", t, E(A, j, i), 100 * (1 + na * na / k)); }
        nd_rec(c, &P);
    } else { /* dead zone: full rank above the limit is the plain pseudoinverse, below it the largest gain is bounded */
        if (which == 2 || !dense) SIM_CHECK(!aa_dmat_dzdpinv(&mA, k, &mP), "wrong-result", "%s: failed", c->name); else aa_la_dzdpinv((size_t)m, (size_t)n, k * k, D(A), D(P));
        if (s > k * 1.01 && s > 1e-2) moore(c, &A, &P, 100);
        else if (s < k * 0.99) { double PA[64], na = nd_nrm(&A), Q[64], np2 = 0; mulm(n, m, n, D(P), P.ld, D(A), A.ld, PA, 8); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(c, "symmetry of pinv(A)*A", PA[j * 8 + i], PA[i * 8 + j], 100 * (1 + na * na / k)); (void)Q;
            /* no singular value of the result exceeds 1/k */
            double v[8], w[8], l = 0; for (int i = 0; i < m; i++) v[i] = 1 + 0.1 * i; for (int it = 0; it < 200; it++) { double t = 0; for (int i = 0; i < n; i++) { w[i] = 0; for (int j = 0; j < m; j++) w[i] += E(P, i, j) * v[j]; } for (int j = 0; j < m; j++) { v[j] = 0; for (int i = 0; i < n; i++) v[j] += E(P, i, j) * w[i]; t += v[j] * v[j]; } l = sqrt(t); if (!(l > 1e-200)) break; for (int j = 0; j < m; j++) v[j] /= l; } np2 = l;
            SIM_CHECK(np2 <= 1.0001 / (k * k), "wrong-result", "%s: gain %g with dead zone %g (%s)", c->name, sqrt(np2), k, c->why); }
        nd_rec(c, &P);
    }
}
static void op_inv(struct nx *c) {
    int n = nint(c, 1, 6), kind = nint(c, 0, 2), sing = nint(c, 0, 7) == 0; gm A = nd_out(c, n, n), W = nd_outd(c, n, n); double a[36], b[36]; for (int i = 0; i < 36; i++) a[i] = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a[j * 6 + i] = nval(c, 0) + (i == j ? 4.0 * n : 0);
    if (kind == 1) for (int j = 0; j + 1 < n; j++) for (int i = 0; i < n; i++) { double t = a[j * 6 + i]; a[j * 6 + i] = a[(j + 1) * 6 + i]; a[(j + 1) * 6 + i] = t; } /* pivots needed */
    if (sing) for (int i = 0; i < n; i++) a[(n - 1) * 6 + i] = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) E(A, i, j) = E(W, i, j) = a[j * 6 + i]; struct aa_dmat mA = DM(A); int r = aa_dmat_inv(&mA), r2 = aa_la_inv((size_t)n, D(W));
    if (sing) { SIM_CHECK(r && r2, "wrong-result", "%s: a singular matrix is inverted without an error", c->name); return; }
    SIM_CHECK(!r && !r2, "wrong-result", "%s: returned %d, %d", c->name, r, r2);
    mulm(n, n, n, a, 6, D(A), A.ld, b, 6); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(c, "A*inv(A)", b[j * 6 + i], i == j, 100); mulm(n, n, n, D(W), W.ld, a, 6, b, 6); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(c, "inv(A)*A", b[j * 6 + i], i == j, 100);
    if (n > 1) { struct aa_dmat w = mA; w.rows--; MUSTFAIL("inv", aa_dmat_inv(&w)); }
    nd_rec(c, &A); nd_rec(c, &W);
}
/* ---- plain arrays */
static void op_plain(struct nx *c) {
    int n = nint(c, 1, 9), m = nint(c, 1, 6); gm x = nd_indense(c, n, 1, 0), y = nd_indense(c, n, 1, 0), r = nd_outd(c, n, 1); double a = nval(c, 0), b[9], s = 0, q = 0, d = 0, mn = 1e300, mx = -1e300; const double *X = D(x), *Y = D(y); double *R = D(r); size_t N = (size_t)n;
    for (int i = 0; i < n; i++) { s += X[i] * Y[i]; q += X[i] * X[i]; d += (X[i] - Y[i]) * (X[i] - Y[i]); if (X[i] < mn) mn = X[i]; if (X[i] > mx) mx = X[i]; }
    same(c, "minimum", aa_la_min(N, X), mn, 0); same(c, "maximum", aa_la_max(N, X), mx, 0); same(c, "dot", aa_la_dot(N, X, Y), s, 90); same(c, "norm", aa_la_norm(N, X), sqrt(q), 9); same(c, "ssd", aa_la_ssd(N, X, Y), d, 90); same(c, "distance", aa_la_dist(N, X, Y), sqrt(d), 9);
#define EACH(what, want) for (int i = 0; i < n; i++) same(c, what, R[i], want, 10)
    aa_la_sadd(N, a, X, R); EACH("a + x", a + X[i]); aa_la_smul(N, a, X, R); EACH("a x", a * X[i]); aa_la_ssub(N, a, X, R); EACH("a - x", a - X[i]); aa_la_sdiv(N, a, X, R); for (int i = 0; i < n; i++) if (fabs(X[i]) > 1e-6) same(c, "a / x", R[i], a / X[i], 0);
    aa_la_vadd(N, X, Y, R); EACH("x + y", X[i] + Y[i]); aa_la_vsub(N, X, Y, R); EACH("x - y", X[i] - Y[i]); aa_la_vmul(N, X, Y, R); EACH("x y", X[i] * Y[i]); aa_la_vdiv(N, X, Y, R); for (int i = 0; i < n; i++) if (fabs(Y[i]) > 1e-6) same(c, "x / y", R[i], X[i] / Y[i], 0);
    aa_la_axpy3(N, a, X, Y, R); EACH("a x + y", a * X[i] + Y[i]); for (int i = 0; i < n; i++) R[i] = b[i] = Y[i];
    aa_la_axpy(N, a, X, R); EACH("y + a x", b[i] += a * X[i]); aa_la_sinc(N, a, R); EACH("y + a", b[i] += a); aa_la_vinc(N, X, R); EACH("y + x", b[i] += X[i]); aa_la_scal(N, a, R); EACH("a y", b[i] *= a); nd_rec(c, &r);
    if (q > 1e-6) { for (int i = 0; i < n; i++) R[i] = X[i]; aa_la_normalize(N, R); EACH("normalised", X[i] / sqrt(q)); }
    if (n >= 3) { double w[3]; aa_la_cross(X, Y, w); for (int i = 0; i < 3; i++) same(c, "cross product", w[i], X[(i + 1) % 3] * Y[(i + 2) % 3] - X[(i + 2) % 3] * Y[(i + 1) % 3], 20); }
    if (n >= 4) same(c, "polynomial", aa_horner3(X[0], X[1], X[2], X[3]), X[1] + X[0] * X[2] + X[0] * X[0] * X[3], 500);
    c->dense = 1; gm A = nd_in(c, m, n, 0); gm S = nd_in(c, n, n, 0); c->dense = 0; gm At = nd_outd(c, n, m), B = nd_outd(c, n, n), z = nd_outd(c, m, 1);
    aa_la_transpose2((size_t)m, N, D(A), D(At)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(At, j, i) == E(A, i, j), "wrong-result", "%s: transpose", c->name);
    memcpy(D(B), D(S), sizeof(double) * N * N); aa_la_transpose(N, D(B)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(B, j, i) == E(S, i, j), "wrong-result", "%s: transpose in place", c->name);
    double tr = 0; for (int i = 0; i < n; i++) tr += E(S, i, i); same(c, "trace", aa_la_trace(N, D(S)), tr, 10);
    double wd = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) wd += X[i] * E(S, i, j) * Y[j]; same(c, "weighted dot product", aa_la_wdot(N, X, D(S), Y), wd, 900);
    aa_la_mvmul((size_t)m, N, D(A), X, D(z)); for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += E(A, i, j) * X[j]; same(c, "matrix times vector", D(z)[i], t, 90); } nd_rec(c, &z);
    aa_la_ident(N, D(B)); aa_la_diag(N, D(B), a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SIM_CHECK(E(B, i, j) == (i == j ? a : 0), "wrong-result", "%s: diagonal matrix", c->name); put(c, tr); put(c, wd);
}
static void op_solve(struct nx *c) { /* damped least squares and null-space projection, on plain arrays */
    int m = nint(c, 1, 6), n = nint(c, 1, 6); double k = 0.05 + fabs(nval(c, 0)) * 0.3; c->dense = 1; gm A = nd_in(c, m, n, 0), P = nd_out(c, n, m), b = nd_in(c, m, 1, 0), q = nd_in(c, n, 1, 0), x = nd_out(c, n, 1), B = nd_out(c, n, n), S = nd_out(c, m < n ? m : n, 1), U = nd_out(c, m, m), V = nd_out(c, n, n); c->dense = 0; size_t M = (size_t)m, N = (size_t)n; double z = 900 * (1 + nd_nrm(&A) * nd_nrm(&A) / k);
    aa_la_dpinv(M, N, k, D(A), D(P)); aa_la_dls(M, N, k, D(A), D(b), D(x)); double w[6]; for (int i = 0; i < n; i++) { w[i] = 0; for (int j = 0; j < m; j++) w[i] += E(P, i, j) * E(b, j, 0); same(c, "damped least squares", D(x)[i], w[i], z); } nd_rec(c, &x);
    aa_la_np(M, N, D(A), D(P), D(B)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = -(i == j); for (int l = 0; l < m; l++) t += E(P, i, l) * E(A, l, j); same(c, "projection", E(B, i, j), t, z); }
    for (int e = 0; e < 2; e++) { if (e) aa_la_xlsnp(M, N, D(A), D(P), D(b), D(q), D(x)); else aa_la_dlsnp(M, N, k, D(A), D(b), D(q), D(x)); for (int i = 0; i < n; i++) { double t = w[i]; for (int j = 0; j < n; j++) t -= E(B, i, j) * D(q)[j]; same(c, "least squares with projection", D(x)[i], t, z); } }
    nd_rec(c, &x);
    SIM_CHECK(!aa_la_svd(M, N, D(A), D(U), D(S), D(V)), "wrong-result", "%s: svd failed", c->name); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double t = 0; for (int l = 0; l < (m < n ? m : n); l++) t += E(U, i, l) * D(S)[l] * E(V, l, j); same(c, "U*S*V'", t, E(A, i, j), 100); } nd_rec(c, &S);
    gm B2 = nd_indense(c, m, 2, 0), X2 = nd_outd(c, n, 2); aa_la_lls(M, N, 2, D(A), D(B2), D(X2)); double na = nd_nrm(&A), nb = nd_nrm(&B2), nX = nd_nrm(&X2); for (int e = 0; e < 2; e++) { double r[6]; for (int i = 0; i < m; i++) { r[i] = -E(B2, i, e); for (int j = 0; j < n; j++) r[i] += E(A, i, j) * E(X2, j, e); } for (int j = 0; j < n; j++) { double t = 0; for (int i = 0; i < m; i++) t += E(A, i, j) * r[i]; SIM_CHECK(fabs(t) <= 1e-10 * na * (nb + na * nX), "wrong-result", "%s: least squares' normal equations fail by %g", c->name, t); } } nd_rec(c, &X2);
}
static void op_interp(struct nx *c) {
    int n = nint(c, 1, 6); gm X[3], r = nd_outd(c, n, 1), r2 = nd_outd(c, n, 1); double t[3], u = nval(c, 0); for (int k = 0; k < 3; k++) { X[k] = nd_indense(c, n, 1, 0); t[k] = (k ? t[k - 1] : 0) + 0.3 + fabs(nval(c, 0)); } size_t N = (size_t)n; if (nint(c, 0, 3) == 0) u = t[nint(c, 0, 2)];
    aa_la_linterp(N, t[0], D(X[0]), t[1], D(X[1]), u, D(r)); for (int i = 0; i < n; i++) same(c, "linear interpolation", D(r)[i], D(X[0])[i] + (u - t[0]) / (t[1] - t[0]) * (D(X[1])[i] - D(X[0])[i]), 200); nd_rec(c, &r);
    aa_la_quadterp(N, t[0], D(X[0]), t[1], D(X[1]), t[2], D(X[2]), u, D(r)); aa_la_quadterp_dx(N, t[0], D(X[0]), t[1], D(X[1]), t[2], D(X[2]), u, D(r2));
    for (int i = 0; i < n; i++) { double a = D(X[0])[i], b = D(X[1])[i], d = D(X[2])[i], f1 = (b - a) / (t[1] - t[0]), f2 = ((d - b) / (t[2] - t[1]) - f1) / (t[2] - t[0]);
        same(c, "quadratic interpolation", D(r)[i], a + f1 * (u - t[0]) + f2 * (u - t[0]) * (u - t[1]), 1e4); same(c, "derivative of the quadratic interpolation", D(r2)[i], f1 + f2 * (2 * u - t[0] - t[1]), 1e4); }
    nd_rec(c, &r); nd_rec(c, &r2);
    gm R = nd_indense(c, 3, 3, 0); double *Z = D(R), det = Z[0] * (Z[4] * Z[8] - Z[7] * Z[5]) - Z[3] * (Z[1] * Z[8] - Z[7] * Z[2]) + Z[6] * (Z[1] * Z[5] - Z[4] * Z[2]); same(c, "determinant", aa_la_det3x3(Z), det, 90);
    int d = nint(c, 2, 4); gm pl = nd_outd(c, d + 1, 1), pt = nd_indense(c, d, 1, 0); double *p = D(pl), l = 0, s; for (int i = 0; i <= d; i++) p[i] = nval(c, 0) + (i == 0 ? 4 : 0); s = p[d]; for (int i = 0; i < d; i++) { l += p[i] * p[i]; s += p[i] * D(pt)[i]; }
    same(c, "distance from the plane", aa_la_point_plane((size_t)d, D(pt), p), s / sqrt(l), 30); double o[6]; for (int i = 0; i <= d; i++) o[i] = p[i] / sqrt(l); aa_la_plane_hessian((size_t)d + 1, p); for (int i = 0; i <= d; i++) same(c, "plane in normal form", p[i], o[i], 9); nd_rec(c, &pl);
}
static void op_stats(struct nx *c) {
    int n = nint(c, 2, 12), m = nint(c, 1, 4); gm x = nd_indense(c, n, 1, 0), A = nd_indense(c, m, n, 0), mu = nd_outd(c, m, 1), Ec = nd_outd(c, m, m), S = nd_indense(c, m, m, 0), y = nd_indense(c, m, 1, 0); double s = 0, q = 0, sn = 0, cs = 0; const double *X = D(x);
    for (int i = 0; i < n; i++) { s += X[i]; sn += sin(X[i]); cs += cos(X[i]); } s /= n; for (int i = 0; i < n; i++) q += (X[i] - s) * (X[i] - s);
    double v = aa_stat_mean((size_t)n, X); same(c, "mean", v, s, 9); put(c, v); v = aa_stat_std((size_t)n, X); same(c, "standard deviation", v, sqrt(q / (n - 1)), 9); put(c, v);
    if (sn * sn + cs * cs > 1e-3) { v = aa_stat_circ_mean((size_t)n, X); same(c, "circular mean", sin(v - atan2(sn, cs)), 0, 1000); SIM_CHECK(cos(v - atan2(sn, cs)) > 0, "wrong-result", "%s: circular mean is opposite", c->name); put(c, v);
        double w[12]; double sh = nval(c, 0) * 20; for (int i = 0; i < n; i++) w[i] = X[i] * 0.01 + sh; v = aa_stat_circ_std((size_t)n, w); double d2 = 0; for (int i = 0; i < n; i++) d2 += (X[i] - s) * (X[i] - s) * 1e-4; d2 = sqrt(d2 / n); SIM_CHECK(fabs(v - d2) <= 0.02 * d2 + 1e-7, "wrong-result", "%s: circular standard deviation %g of angles that lie %g apart", c->name, v, d2); put(c, v); }
    aa_stat_vmean((size_t)m, (size_t)n, D(A), D(mu)); for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += E(A, i, j); same(c, "mean vector", D(mu)[i], t / n, 9); } nd_rec(c, &mu);
    aa_stat_vmean_cov((size_t)m, (size_t)n, D(A), D(mu), D(Ec)); for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) { double t = 0; for (int j = 0; j < n; j++) t += (E(A, i, j) - D(mu)[i]) * (E(A, k, j) - D(mu)[k]); same(c, "covariance", E(Ec, i, k), t / (n - 1), 90); } nd_rec(c, &Ec);
    { double G[16], d[4], t = 0; for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) { G[k * m + i] = 0; for (int l = 0; l < m; l++) G[k * m + i] += E(S, i, l) * E(S, k, l); } for (int i = 0; i < m; i++) d[i] = D(y)[i] - D(mu)[i]; for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) t += d[i] * G[k * m + i] * d[k]; if (t > 1e-6) { v = aa_stat_mahalanobis((size_t)m, D(y), D(mu), G); same(c, "Mahalanobis distance", v, sqrt(t), 1e4); put(c, v); } }
    { double a = nval(c, 0) * 12, b = nval(c, 0) * 12, p = aa_ang_norm_pi(a), z = aa_ang_norm_2pi(a), d = aa_ang_delta(a, b); SIM_CHECK(fabs(p) <= M_PI + 1e-12 && z >= 0 && z <= 2 * M_PI && fabs(d) <= M_PI + 1e-12, "wrong-result", "%s: angle out of range", c->name); same(c, "angle", sin((p - a) / 2) * sin((p - a) / 2), 0, 10); same(c, "angle", sin(z - a), 0, 100); same(c, "difference of angles", sin(d - (a - b)), 0, 100); same(c, "degrees", aa_ang_deg2rad(aa_ang_rad2deg(a)), a, 9);
      int i = nint(c, -50, 50), k = nint(c, 1, 9), mo = aa_imodulo(i, k); SIM_CHECK(mo >= 0 && mo < k && (i - mo) % k == 0, "wrong-result", "%s: %d modulo %d is %d", c->name, i, k, mo); double f = aa_fmodulo(a, k); SIM_CHECK(f >= 0 && f <= k, "wrong-result", "%s: modulo", c->name); }
    double wm = 9, ws = 9; int big = nint(c, 12, 30); gm W = nd_indense(c, big, 1, 0); size_t it = aa_stat_excluded_mean_std((size_t)big, D(W), &wm, &ws, -2.5, 2.5, 50); put(c, wm); put(c, ws);
    { const double *w = D(W); double rm = 0, rs = 0; int k = 0, pk = 0, edge = 0; for (int i = 0; i < big; i++) rm += w[i] / big; for (int i = 0; i < big; i++) rs += (w[i] - rm) * (w[i] - rm); rs = sqrt(rs / (big - 1));
      for (int q = 0; q < 50 && (!q || k != pk); q++) { pk = k; k = 0; double a = 0, b = 0; for (int i = 0; i < big; i++) { double d = w[i] - rm; if (fabs(fabs(d) - 2.5 * rs) < 1e-9 * (1 + rs)) edge = 1; if (fabs(d) <= 2.5 * rs) { k++; a += w[i]; b += d * d; } } if (k < 2) { edge = 1; break; } rm = a / k; rs = sqrt(b / (k - 1)); }
      if (it < 50 && !edge) { same(c, "mean without outliers", wm, rm, 1000); same(c, "deviation without outliers", ws, rs, 1000); } }
}
static void op_riccati(struct nx *c) {
    int m = nint(c, 1, 4), n = nint(c, 1, 5), p = nint(c, 1, 5); gm A = nd_indense(c, m, m, 0), B = nd_indense(c, m, n, 0), C = nd_indense(c, p, m, 0), X = nd_outd(c, m, m); double Q[16], S[16];
    for (int e = 0; e < 2; e++) { gm *G = e ? &C : &B; double *W = e ? Q : S; int sq = e ? p == m : n == m, k = e ? p : n;
        if (sq) { double L[16]; for (int i = 0; i < m * m; i++) L[i] = D(*G)[i]; if (!G->reuse) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double t = (i == j) * 0.2; for (int l = 0; l < m; l++) t += L[l * m + i] * L[l * m + j] * 0.3; E(*G, i, j) = t; } for (int i = 0; i < m * m; i++) W[i] = D(*G)[i]; }
        else for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double t = 0; for (int l = 0; l < k; l++) t += e ? E(*G, l, i) * E(*G, l, j) : E(*G, i, l) * E(*G, j, l); W[j * m + i] = t; } }
    seal(c); int r = aa_la_care_laub((size_t)m, (size_t)n, (size_t)p, D(A), D(B), D(C), D(X)); SIM_CHECK(!r, "wrong-result", "%s: returned %d", c->name, r);
    double nx = nd_nrm(&X); if (!(nx < 1e4)) return; /* hardly controllable */
    double XA[16], XS[16], XSX[16], z = 1e5 * (1 + nx) * (1 + nx); mulm(m, m, m, D(X), m, D(A), m, XA, m); mulm(m, m, m, D(X), m, S, m, XS, m); mulm(m, m, m, XS, m, D(X), m, XSX, m);
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { same(c, "symmetry of the solution", E(X, i, j), E(X, j, i), z); double t = 0; for (int l = 0; l < m; l++) t += E(A, l, i) * E(X, l, j); same(c, "Riccati equation", t + XA[j * m + i] - XSX[j * m + i] + Q[j * m + i], 0, z); }
    c->tol = 1e-6; nd_rec(c, &X);
}
static void op_lsim(struct nx *c) {
    int m = nint(c, 1, 5), n = nint(c, 1, 4); gm A = nd_indense(c, m, m, 0), B = nd_indense(c, m, n, 0), x = nd_indense(c, m, 1, 0), u = nd_indense(c, n, 1, 0), r = nd_outd(c, m, 1); double h = 0.05 + 0.1 * fabs(nun(c)), f[5], v[5], w[5], y[5]; size_t M = (size_t)m, N = (size_t)n;
#define LDER(X_, F_) for (int i = 0; i < m; i++) { F_[i] = 0; for (int j = 0; j < m; j++) F_[i] += E(A, i, j) * (X_)[j]; for (int j = 0; j < n; j++) F_[i] += E(B, i, j) * D(u)[j]; }
    LDER(D(x), f); aa_lsim_dstep(M, N, D(A), D(B), D(x), D(u), D(r)); for (int i = 0; i < m; i++) same(c, "discrete step", D(r)[i], f[i], 200); nd_rec(c, &r);
    aa_lsim_estep(M, N, h, D(A), D(B), D(x), D(u), D(r)); for (int i = 0; i < m; i++) same(c, "Euler step", D(r)[i], D(x)[i] + h * f[i], 200); nd_rec(c, &r);
    for (int i = 0; i < m; i++) { y[i] = D(x)[i] + h / 6 * f[i]; w[i] = D(x)[i] + h / 2 * f[i]; } LDER(w, v); for (int i = 0; i < m; i++) { y[i] += h / 3 * v[i]; w[i] = D(x)[i] + h / 2 * v[i]; } LDER(w, v); for (int i = 0; i < m; i++) { y[i] += h / 3 * v[i]; w[i] = D(x)[i] + h * v[i]; } LDER(w, v); for (int i = 0; i < m; i++) y[i] += h / 6 * v[i];
    aa_lsim_rk4step(M, N, h, D(A), D(B), D(x), D(u), D(r)); for (int i = 0; i < m; i++) same(c, "Runge-Kutta step", D(r)[i], y[i], 2000); nd_rec(c, &r);
}
/* heap sort of records of any size */
static int rec_cmp(const void *a, const void *b) { uint16_t x, y; memcpy(&x, a, 2); memcpy(&y, b, 2); return x < y ? -1 : x > y; }
typedef int (*cmp_fun)(const void *, const void *);
extern size_t aa_aheap_check(uint8_t *, size_t, size_t, size_t, cmp_fun);
extern void aa_aheap_build(uint8_t *, size_t, size_t, cmp_fun);
static void op_sort(struct nx *c) {
    int n = nint(c, 0, 40), sz = nint(c, 0, 3) ? nint(c, 2, 40) : 1 << nint(c, 1, 5), span = nint(c, 0, 2) ? 200 : 3; c->dense = 1; gm g = g_new(c, sz, n ? n : 1, 1, 0); c->dense = 0; unsigned sum[41] = {0}, chk = 0, chk2 = 0;
    for (int i = 0; i < n; i++) { unsigned char *p = g.d + i * sz; for (int b = 0; b < sz; b++) p[b] = (unsigned char)nrnd(c); uint16_t k = (uint16_t)nint(c, 0, span); memcpy(p, &k, 2); unsigned h = 7; for (int b = 0; b < sz; b++) h = h * 31 + p[b]; chk += h * h; }
    (void)sum; if (nint(c, 0, 1) && n > 0) { aa_aheap_build(g.d, (size_t)n, (size_t)sz, rec_cmp); for (int i = 1; i < n; i++) SIM_CHECK(rec_cmp(g.d + (i - 1) / 2 * sz, g.d + i * sz) >= 0, "wrong-result", "%s: not a heap", c->name); SIM_CHECK(!aa_aheap_check(g.d, (size_t)n, (size_t)sz, 0, rec_cmp), "wrong-result", "%s: a heap is said not to be one", c->name); }
    aa_aheap_sort(g.d, (size_t)n, (size_t)sz, rec_cmp);
    for (int i = 0; i < n; i++) { unsigned char *p = g.d + i * sz; SIM_CHECK(!i || rec_cmp(p - sz, p) <= 0, "wrong-result", "%s: element %d of %d is out of order", c->name, i, n); unsigned h = 7; for (int b = 0; b < sz; b++) h = h * 31 + p[b]; chk2 += h * h; }
    SIM_CHECK(chk == chk2, "wrong-result", "%s: the records are not the ones that were given", c->name); put(c, chk2);
}
/* derivatives by finite differences of a field that works in the scratch region, as the library's own do */
struct fdx { struct nx *c; gm *A, *B, *x; double eps; int calls, scalar; };
static double fd_row(struct fdx *f, const struct aa_dvec *x, int i) { double s = 0; for (int j = 0; j < f->A->n; j++) { double v = AA_DVEC_REF(x, j); s += E(*f->A, i, j) * v + E(*f->B, i, j) * v * v; } return s; }
static void fd_arg(struct fdx *f, const struct aa_dvec *x) {
    int off = 0; SIM_CHECK((int)x->len == f->A->n, "wrong-result", "%s: the field is given %zu elements, not %d", f->c->name, x->len, f->A->n);
    for (int j = 0; j < f->A->n; j++) { double d = AA_DVEC_REF(x, j) - D(*f->x)[j * f->x->ld]; if (fabs(d) > 1e-12) { off++; SIM_CHECK(fabs(fabs(d) - f->eps) < 1e-9, "wrong-result", "%s: a step of %g, not %g", f->c->name, d, f->eps); } } SIM_CHECK(off <= 1, "wrong-result", "%s: %d variables are moved at a time", f->c->name, off); f->calls++;
    struct aa_mem_region *r = aa_mem_region_local_get(); size_t z = (size_t)(f->calls * 37 % 300); void *p = aa_mem_region_alloc(r, z + 8); memset(p, 0x5a, z + 8); aa_mem_region_pop(r, p); }
static double fd_scalar(void *cx, const struct aa_dvec *x) { struct fdx *f = (struct fdx *)cx; fd_arg(f, x); return fd_row(f, x, 0); }
static void fd_vector(void *cx, const struct aa_dvec *x, struct aa_dvec *y) { struct fdx *f = (struct fdx *)cx; fd_arg(f, x); SIM_CHECK((int)y->len == f->A->m, "wrong-result", "%s: the field is asked for %zu values, not %d", f->c->name, y->len, f->A->m); for (int i = 0; i < f->A->m; i++) AA_DVEC_REF(y, i) = fd_row(f, x, i); }
static void op_fd(struct nx *c) {
    int m = nint(c, 1, 5), n = nint(c, 1, 8); gm A = nd_in(c, m, n, 0), B = nd_in(c, m, n, 0), x = nd_invec(c, n, 0), g = nd_outvec(c, n), J = nd_out(c, m, n); struct fdx f = {c, &A, &B, &x, nint(c, 0, 1) ? 1e-6 : 1e-3, 0, 0}; seal(c); struct aa_dvec vx = DV(x), vg = DV(g); struct aa_dmat mj = DM(J); double tol = 0.3 / f.eps;
    aa_de_grad_fd(fd_scalar, &f, &vx, f.eps, &vg); for (int j = 0; j < n; j++) same(c, "gradient", D(g)[j * g.ld], E(A, 0, j) + 2 * E(B, 0, j) * D(x)[j * x.ld], tol);
    aa_de_jac_fd(fd_vector, &f, &vx, f.eps, &mj); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) same(c, "Jacobian", E(J, i, j), E(A, i, j) + 2 * E(B, i, j) * D(x)[j * x.ld], tol);
    c->tol = 1e-4; nd_rec(c, &g); nd_rec(c, &J);
}
#define BOTH(x) {#x "(d)", nd_##x}, {#x "(f)", ns_##x}
static const struct opdef ops[] = {
    BOTH(transpose), BOTH(vectors), BOTH(means), BOTH(medians), BOTH(assign), BOTH(lls), BOTH(qr), BOTH(svd), BOTH(eev), BOTH(sysv), BOTH(colfit), BOTH(spline),
    {"dvec", op_dvec}, {"dmat", op_dmat}, {"gemm", op_gemm}, {"pinv", op_pinv}, {"pinv", op_pinv}, {"inv", op_inv}, {"plain", op_plain}, {"solve", op_solve}, {"interp", op_interp}, {"stats", op_stats}, {"riccati", op_riccati}, {"lsim", op_lsim}, {"sort", op_sort}, {"fd", op_fd},
};
#define NOPS ((int)(sizeof ops / sizeof ops[0]))
static void num_pure(void) { ops_pure(ops, NOPS); }
static void num_threads(void) { ops_threads(ops, NOPS); }
SIM_SCENARIO("P04", num_pure, num_pure, 3);
SIM_SCENARIO("P04", num_threads, num_threads, 1);
