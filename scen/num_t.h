/* Numerical operations on one element type: T, TN(name), TEPS; included twice by num.c. */
#define EL(g, i, j) (((T *)(g).d)[(size_t)(j) * (size_t)(g).ld + (size_t)(i)])
#define TM(g) ((const T *)(g).d), (size_t)(g).ld
#define TO(g) ((T *)(g).d), (size_t)(g).ld
static gm TL(in)(struct nx *c, int m, int n, int kind) {
    gm g = g_new(c, m, n, sizeof(T), 1);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double v = nval(c, kind); if (!g.reuse) EL(g, i, j) = (T)v; }
    seal(c); return g;
}
static gm TL(invec)(struct nx *c, int n, int kind) {
    gm g = g_vec(c, n, sizeof(T), 1);
    for (int j = 0; j < n; j++) { double v = nval(c, kind); if (!g.reuse) EL(g, 0, j) = (T)v; }
    seal(c); return g;
}
static gm TL(indense)(struct nx *c, int m, int n, int kind) {
    c->dense = 1; gm g = TL(in)(c, m, n, kind); c->dense = 0; return g;
}
static gm TL(out)(struct nx *c, int m, int n) { return g_new(c, m, n, sizeof(T), 0); }
static gm TL(outd)(struct nx *c, int m, int n) { c->dense = 1; gm g = g_new(c, m, n, sizeof(T), 0); c->dense = 0; return g; }
static gm TL(outvec)(struct nx *c, int n) { return g_vec(c, n, sizeof(T), 0); }
static void TL(rec)(struct nx *c, gm *g) { for (int j = 0; j < g->n; j++) for (int i = 0; i < g->m; i++) put(c, (double)EL(*g, i, j)); }
static void TL(same)(struct nx *c, const char *what, double got, double want, double scale) {
    SIM_CHECK(fabs(got - want) <= TEPS * (scale + fabs(want)), "wrong-result", "%s: %s is %.17g, should be %.17g (%s)", c->name, what, got, want, c->why);
}
static double TL(nrm)(gm *g) { double s = 0; for (int j = 0; j < g->n; j++) for (int i = 0; i < g->m; i++) s += (double)EL(*g, i, j) * (double)EL(*g, i, j); return sqrt(s); }
/* ---- elementwise and statistics */
static void TL(transpose)(struct nx *c) {
    int m = nint(c, 1, 7), n = nint(c, 1, 7); gm A = TL(in)(c, m, n, 0), B = TL(out)(c, n, m);
    TN(transpose)((size_t)m, (size_t)n, TM(A), TO(B));
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) TL(same)(c, "element", (double)EL(B, j, i), (double)EL(A, i, j), 0);
    TL(rec)(c, &B);
}
static void TL(vectors)(struct nx *c) {
    int n = nint(c, 1, 12); gm x = TL(invec)(c, n, 0), y = TL(invec)(c, n, 0), r = TL(outvec)(c, n);
    double s = 0, xx = 0, yy = 0, xy = 0;
    for (int i = 0; i < n; i++) { double a = (double)EL(x, 0, i), b = (double)EL(y, 0, i); s += (a - b) * (a - b); xx += a * a; yy += b * b; xy += a * b; }
    double v = (double)TN(ssd)((size_t)n, (T *)x.d, (size_t)x.ld, (T *)y.d, (size_t)y.ld); TL(same)(c, "sum of squared differences", v, s, s); put(c, v);
    if (xx > 1e-6 && yy > 1e-6) {
        v = (double)TN(angle)((size_t)n, (T *)x.d, (size_t)x.ld, (T *)y.d, (size_t)y.ld); put(c, v);
        double co = xy / sqrt(xx * yy); SIM_CHECK(v >= 0 && v <= M_PI + 1e-6, "wrong-result", "%s: angle %g", c->name, v); SIM_CHECK(fabs(cos(v) - co) <= 10 * TEPS, "wrong-result", "%s: cosine of the angle %.17g, should be %.17g", c->name, cos(v), co);
    }
    double mu = nval(c, 0), q = 0; for (int i = 0; i < n; i++) q += ((double)EL(x, 0, i) - (double)(T)mu) * ((double)EL(x, 0, i) - (double)(T)mu);
    if (n > 1) { v = (double)TN(vecstd)((size_t)n, (T *)x.d, (size_t)x.ld, (T)mu); TL(same)(c, "standard deviation", v, sqrt(q / (n - 1)), sqrt(q)); put(c, v); }
    double u = nval(c, 0); TN(lerp)((size_t)n, (T)u, TM(x), TM(y), TO(r));
    for (int i = 0; i < n; i++) TL(same)(c, "interpolated element", (double)EL(r, 0, i), (double)EL(x, 0, i) + (double)(T)u * ((double)EL(y, 0, i) - (double)EL(x, 0, i)), 40);
    TL(rec)(c, &r);
    { size_t k = TN(minloc)((size_t)n, (T *)x.d, (size_t)x.ld), l = TN(maxloc)((size_t)n, (T *)x.d, (size_t)x.ld); SIM_CHECK(k < (size_t)n && l < (size_t)n, "wrong-result", "%s: location %zu %zu of %d", c->name, k, l, n);
      for (int i = 0; i < n; i++) SIM_CHECK(EL(x, 0, k) <= EL(x, 0, i) && EL(x, 0, l) >= EL(x, 0, i), "wrong-result", "%s: not the extreme element", c->name); put(c, (double)k); put(c, (double)l); }
}
static void TL(means)(struct nx *c) {
    int m = nint(c, 1, 6), n = nint(c, 2, 9); gm A = TL(in)(c, m, n, 0), mc = TL(outd)(c, m, 1), mr = TL(outd)(c, n, 1), E = TL(out)(c, m, m), x = TL(indense)(c, m, 1, 0);
    TN(colmean)((size_t)m, (size_t)n, TM(A), (T *)mc.d); TN(rowmean)((size_t)m, (size_t)n, TM(A), (T *)mr.d); TN(colcov)((size_t)m, (size_t)n, TM(A), (T *)x.d, TO(E));
    for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += (double)EL(A, i, j); TL(same)(c, "mean of the columns", (double)EL(mc, i, 0), s / n, 10); }
    for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += (double)EL(A, i, j); TL(same)(c, "mean of the rows", (double)EL(mr, j, 0), s / m, 10); }
    for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) { double s = 0, z = 0; for (int j = 0; j < n; j++) { double p = ((double)EL(A, i, j) - (double)EL(x, i, 0)) * ((double)EL(A, k, j) - (double)EL(x, k, 0)); s += p; z += fabs(p); } TL(same)(c, "covariance", (double)EL(E, i, k), s / (n - 1), z); }
    TL(rec)(c, &mc); TL(rec)(c, &mr); TL(rec)(c, &E);
}
static int TL(cmp)(const void *a, const void *b) { T x = *(const T *)a, y = *(const T *)b; return x < y ? -1 : x > y; }
static double TL(med)(T *v, int n) { qsort(v, (size_t)n, sizeof(T), TL(cmp)); return n & 1 ? (double)v[n / 2] : ((double)v[n / 2] + (double)v[n / 2 - 1]) / 2; }
static void TL(medians)(struct nx *c) {
    int n = nint(c, 1, 24), m = nint(c, 1, 4), k = nint(c, 0, 2) ? 0 : 1; T v[24]; gm x = TL(invec)(c, n, k), A = TL(in)(c, m, n, k), u = TL(indense)(c, m, 1, k), y = TL(outd)(c, n, 1);
    for (int i = 0; i < n; i++) v[i] = EL(x, 0, i); double want = TL(med)(v, n), got = (double)TN(median)((size_t)n, TM(x)); TL(same)(c, "median", got, want, 0); put(c, got);
    for (int i = 0; i < n; i++) EL(y, i, 0) = EL(x, 0, i);
    got = (double)TN(nmedian)((size_t)n, (T *)y.d); TL(same)(c, "median (destructive)", got, want, 0);
    { T z[24]; memcpy(z, y.d, sizeof(T) * (size_t)n); qsort(z, (size_t)n, sizeof(T), TL(cmp)); for (int i = 0; i < n; i++) SIM_CHECK(z[i] == v[i], "wrong-result", "%s: the elements were not merely reordered", c->name); }
    T mu = (T)nval(c, k); for (int i = 0; i < n; i++) v[i] = (T)fabs((double)(mu - EL(x, 0, i))); want = TL(med)(v, n); got = (double)TN(mad)((size_t)n, mu, TM(x)); TL(same)(c, "median absolute deviation", got, want, 10); put(c, got);
    for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) { double d = (double)EL(A, i, j) - (double)EL(u, i, 0); s += d * d; } v[j] = (T)sqrt(s); } want = TL(med)(v, n); got = (double)TN(mad2)((size_t)m, (size_t)n, (T *)u.d, TM(A)); TL(same)(c, "median distance", got, want, 10); put(c, got);
}
/* ---- assignment: optimal against brute force */
static double TL(perm)(gm *A, int i, unsigned used, int left) { /* cheapest choice of `left` more rows of the smaller side */
    if (!left) return 0; double best = 1e300; int tall = A->m > A->n, q = tall ? A->m : A->n;
    for (int k = 0; k < q; k++) if (!(used >> k & 1)) { double v = (double)(tall ? EL(*A, k, i) : EL(*A, i, k)) + TL(perm)(A, i + 1, used | 1u << k, left - 1); if (v < best) best = v; }
    return best;
}
static void TL(assign)(struct nx *c) {
    int m = nint(c, 1, 6), n = nint(c, 1, 6); if (nint(c, 0, 1)) n = m; int kind = nint(c, 0, 4) ? 1 : 2; gm A = TL(in)(c, m, n, kind); size_t sz = sizeof(ssize_t);
    c->dense = 1; gm r = g_new(c, m, 1, (int)sz, 0), k = g_new(c, n, 1, (int)sz, 0); c->dense = 0; ssize_t *ra = (ssize_t *)r.d, *ca = (ssize_t *)k.d;
    TN(assign_hungarian)((size_t)m, (size_t)n, TM(A), ra, ca);
    int cnt = 0, want = m < n ? m : n; double cost = 0, z = 0;
    for (int i = 0; i < m; i++) { SIM_CHECK(ra[i] >= -1 && ra[i] < n, "wrong-result", "%s: row %d is assigned to column %zd of %d", c->name, i, ra[i], n); if (ra[i] >= 0) { cnt++; cost += (double)EL(A, i, ra[i]); z += fabs((double)EL(A, i, ra[i])); SIM_CHECK(ca[ra[i]] == i, "wrong-result", "%s: row %d has column %zd, which has row %zd", c->name, i, ra[i], ca[ra[i]]); } }
    for (int j = 0; j < n; j++) SIM_CHECK(ca[j] >= -1 && ca[j] < m && (ca[j] < 0 || ra[ca[j]] == j), "wrong-result", "%s: column %d has row %zd", c->name, j, ca[j]);
    SIM_CHECK(cnt == want, "wrong-result", "%s: %d pairs of %d", c->name, cnt, want);
    TL(same)(c, "cost of the assignment", cost, TL(perm)(&A, 0, 0, want), z); put(c, cost);
    gm B = TL(out)(c, m, n); double mx = -1e300; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { EL(B, i, j) = EL(A, i, j); if ((double)EL(A, i, j) > mx) mx = (double)EL(A, i, j); }
    TN(assign_hungarian_max2min)((size_t)m, (size_t)n, TO(B)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) TL(same)(c, "turned-round cost", (double)EL(B, i, j), mx - (double)EL(A, i, j), 10);
    size_t pi, pj; double v = (double)TN(mat_max)((size_t)m, (size_t)n, TO(A), &pi, &pj); TL(same)(c, "largest element", v, mx, 0); TL(same)(c, "largest element's place", (double)EL(A, pi, pj), mx, 0);
}
/* ---- factorisations and solvers */
static void TL(lls)(struct nx *c) {
    int m = nint(c, 1, 7), n = nint(c, 1, 6), p = nint(c, 1, 3); gm A = TL(in)(c, m, n, 3), b = TL(in)(c, m, p, 0), x = TL(out)(c, n, p);
    int r = TN(lls)((size_t)m, (size_t)n, (size_t)p, TM(A), TM(b), TO(x)); SIM_CHECK(!r, "wrong-result", "%s: returned %d", c->name, r);
    double na = TL(nrm)(&A), nb = TL(nrm)(&b), nX = TL(nrm)(&x); /* the residual is orthogonal to the columns of A */
    for (int k = 0; k < p; k++) { double res[8]; for (int i = 0; i < m; i++) { res[i] = -(double)EL(b, i, k); for (int j = 0; j < n; j++) res[i] += (double)EL(A, i, j) * (double)EL(x, j, k); }
        for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += (double)EL(A, i, j) * res[i]; SIM_CHECK(fabs(s) <= 200 * TEPS * na * (nb + na * nX), "wrong-result", "%s: the normal equations fail by %g (%s)", c->name, s, c->why); }
    }
    TL(rec)(c, &x);
}
static void TL(qr)(struct nx *c) {
    int m = nint(c, 1, 7), n = nint(c, 1, 7), wq = nint(c, 0, 5) != 0, wr = !wq || nint(c, 0, 5) != 0; gm A = TL(in)(c, m, n, 0), Q, R; if (wq) Q = TL(out)(c, m, m); if (wr) R = TL(out)(c, m, n); double na = TL(nrm)(&A);
    int r = TN(qr)((size_t)m, (size_t)n, TM(A), wq ? (T *)Q.d : NULL, wq ? (size_t)Q.ld : 0, wr ? (T *)R.d : NULL, wr ? (size_t)R.ld : 0); SIM_CHECK(!r, "wrong-result", "%s: returned %d", c->name, r);
    if (wq) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double s = 0; for (int k = 0; k < m; k++) s += (double)EL(Q, k, i) * (double)EL(Q, k, j); TL(same)(c, "product of columns of Q", s, i == j, 10); }
    if (wr) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (i > j) TL(same)(c, "lower part of R", (double)EL(R, i, j), 0, 0); if (wq) { double s = 0; for (int k = 0; k < m; k++) s += (double)EL(Q, i, k) * (double)EL(R, k, j); TL(same)(c, "Q*R", s, (double)EL(A, i, j), 10 * na); } }
    if (wr && !wq) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0, w = 0; for (int k = 0; k < m; k++) { s += (double)EL(R, k, i) * (double)EL(R, k, j); w += (double)EL(A, k, i) * (double)EL(A, k, j); } TL(same)(c, "R'*R", s, w, 10 * na * na); }
    if (wq) TL(rec)(c, &Q); if (wr) TL(rec)(c, &R);
}
static void TL(svd)(struct nx *c) {
    int m = nint(c, 1, 7), n = nint(c, 1, 7), mn = m < n ? m : n, wu = nint(c, 0, 3) != 0, wv = nint(c, 0, 3) != 0; gm A = TL(in)(c, m, n, 0), S = TL(outd)(c, mn, 1), U, V; if (wu) U = TL(out)(c, m, m); if (wv) V = TL(out)(c, n, n); double na = TL(nrm)(&A), s2 = 0;
    int r = TN(svd)((size_t)m, (size_t)n, TM(A), wu ? (T *)U.d : NULL, wu ? (size_t)U.ld : 0, (T *)S.d, wv ? (T *)V.d : NULL, wv ? (size_t)V.ld : 0); SIM_CHECK(!r, "wrong-result", "%s: returned %d", c->name, r);
    for (int i = 0; i < mn; i++) { double v = (double)EL(S, i, 0); s2 += v * v; SIM_CHECK(v >= 0 && (!i || v <= (double)EL(S, i - 1, 0)), "wrong-result", "%s: singular values are not in order", c->name); }
    TL(same)(c, "norm of the singular values", sqrt(s2), na, 10 * na);
    if (wu) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double s = 0, t = 0; for (int k = 0; k < m; k++) s += (double)EL(U, k, i) * (double)EL(U, k, j); for (int k = 0; k < n; k++) t += 0; TL(same)(c, "product of columns of U", s, i == j, 10); }
    if (wv) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += (double)EL(V, i, k) * (double)EL(V, j, k); TL(same)(c, "product of rows of V'", s, i == j, 10); }
    if (wu && wv) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < mn; k++) s += (double)EL(U, i, k) * (double)EL(S, k, 0) * (double)EL(V, k, j); TL(same)(c, "U*S*V'", s, (double)EL(A, i, j), 10 * na); }
    else if (wu) for (int k = 0; k < mn; k++) { double t = 0; for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += (double)EL(U, i, k) * (double)EL(A, i, j); t += s * s; } TL(same)(c, "length of U'A", sqrt(t), (double)EL(S, k, 0), 30 * na); }
    else if (wv) for (int k = 0; k < mn; k++) { double t = 0; for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += (double)EL(A, i, j) * (double)EL(V, k, j); t += s * s; } TL(same)(c, "length of AV", sqrt(t), (double)EL(S, k, 0), 30 * na); }
    TL(rec)(c, &S); if (wu) TL(rec)(c, &U); if (wv) TL(rec)(c, &V);
}
static void TL(eev)(struct nx *c) {
    int n = nint(c, 1, 6), wl = nint(c, 0, 1), wr = nint(c, 0, 3) != 0; gm A = TL(in)(c, n, n, 0), re = TL(outd)(c, n, 1), im = TL(outd)(c, n, 1), L, R; if (wl) L = TL(out)(c, n, n); if (wr) R = TL(out)(c, n, n); double na = TL(nrm)(&A);
    int r = TN(eev)((size_t)n, TM(A), (T *)re.d, (T *)im.d, wl ? (T *)L.d : NULL, wl ? (size_t)L.ld : 0, wr ? (T *)R.d : NULL, wr ? (size_t)R.ld : 0); SIM_CHECK(!r, "wrong-result", "%s: returned %d", c->name, r);
    double tr = 0, sr = 0, si = 0; for (int i = 0; i < n; i++) { tr += (double)EL(A, i, i); sr += (double)EL(re, i, 0); si += (double)EL(im, i, 0); } TL(same)(c, "sum of the eigenvalues", sr, tr, 10 * na); TL(same)(c, "sum of the imaginary parts", si, 0, 10 * na);
    for (int side = 0; side < 2; side++) { if (!(side ? wl : wr)) continue; gm *V = side ? &L : &R;
        for (int k = 0; k < n; k++) { double a = (double)EL(re, k, 0), b = (double)EL(im, k, 0); int pair = b > 0; if (b < 0) continue; SIM_CHECK(!pair || k + 1 < n, "wrong-result", "%s: half a complex pair", c->name);
            for (int i = 0; i < n; i++) { double p = 0, q = 0, vr = (double)EL(*V, i, k), vi = pair ? (double)EL(*V, i, k + 1) : 0; for (int j = 0; j < n; j++) { double e = (double)(side ? EL(A, j, i) : EL(A, i, j)); p += e * (double)EL(*V, j, k); if (pair) q += e * (double)EL(*V, j, k + 1); }
                double bb = side ? -b : b; TL(same)(c, side ? "left eigenvector" : "right eigenvector", p, a * vr - bb * vi, 30 * na); TL(same)(c, side ? "left eigenvector" : "right eigenvector", q, a * vi + bb * vr, 30 * na); } } TL(rec)(c, V); }
    TL(rec)(c, &re); TL(rec)(c, &im);
}
static void TL(sysv)(struct nx *c) {
    int n = nint(c, 1, 6), p = nint(c, 1, 3), up = nint(c, 0, 1); gm A = TL(out)(c, n, n), B = TL(out)(c, n, p); double a[36], b[18], x = 0; c->dense = 1; gm iv = g_new(c, n, 1, sizeof(int), 0); c->dense = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) { double v = nval(c, 0) + (i == j) * 9 * n; a[i * 6 + j] = a[j * 6 + i] = (double)(T)v; EL(A, i, j) = (T)v; EL(A, j, i) = (T)v; }
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i != j && (up ? i > j : i < j)) EL(A, i, j) = (T)(0.0 / zero); /* the other triangle is not read */
    for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) { b[i * 3 + j] = (double)(T)nval(c, 0); EL(B, i, j) = (T)b[i * 3 + j]; }
    int r = TN(sysv)(up ? "U" : "L", (size_t)n, (size_t)p, TO(A), (int *)iv.d, TO(B)); SIM_CHECK(!r, "wrong-result", "%s: returned %d", c->name, r);
    for (int i = 0; i < n; i++) for (int k = 0; k < p; k++) { double s = 0; for (int j = 0; j < n; j++) { s += a[i * 6 + j] * (double)EL(B, j, k); x += fabs(a[i * 6 + j] * (double)EL(B, j, k)); } TL(same)(c, "A*x", s, b[i * 3 + k], 10 * x); }
    TL(rec)(c, &B);
}
static void TL(colfit)(struct nx *c) {
    int m = nint(c, 2, 4), n = nint(c, m + 1, 9); double w[4], l = 0, d = 0.5 + fabs(nval(c, 0)); for (int i = 0; i < m; i++) { w[i] = nval(c, 0); l += w[i] * w[i]; } if (l < 1e-3) { w[0] = 1; l = 1; for (int i = 1; i < m; i++) w[i] = 0; } for (int i = 0; i < m; i++) w[i] /= sqrt(l);
    gm A = TL(in)(c, m, n, 0), x = TL(outd)(c, m + 1, 1); /* points on the plane w.p + d = 0 */
    for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += w[i] * (double)EL(A, i, j); if (!A.reuse) for (int i = 0; i < m; i++) EL(A, i, j) = (T)((double)EL(A, i, j) - (s + d) * w[i]); }
    seal(c); TN(colfit)((size_t)m, (size_t)n, TM(A), (T *)x.d);
    double na = TL(nrm)(&A), len = 0; for (int i = 0; i < m; i++) len += (double)EL(x, i, 0) * (double)EL(x, i, 0); TL(same)(c, "length of the normal", sqrt(len), 1, 10);
    for (int j = 0; j < n; j++) { double s = (double)EL(x, m, 0); for (int i = 0; i < m; i++) s += (double)EL(x, i, 0) * (double)EL(A, i, j); SIM_CHECK(fabs(s) <= 1000 * TEPS * (1 + na) * (1 + na), "wrong-result", "%s: a point of the plane is %g from the fitted plane", c->name, s); }
}
/* ---- splines meet their boundary values */
static void TL(spline)(struct nx *c) {
    int n = nint(c, 1, 5); double tf = 0.3 + fabs(nval(c, 0)), u = nint(c, 0, 2) ? nint(c, 0, 8) / 8.0 : nint(c, 0, 1); gm v[6]; for (int i = 0; i < 6; i++) v[i] = TL(invec)(c, n, 0);
    gm a[3], o[3]; for (int i = 0; i < 3; i++) { a[i] = TL(outd)(c, n, 1); o[i] = TL(outvec)(c, n); } double t = (double)(T)(u * (double)(T)tf), ft = (double)(T)tf;
    TN(3spline_param)((size_t)n, (T)tf, TM(v[0]), TM(v[1]), TM(v[2]), TM(v[3]), (T *)a[0].d, (T *)a[1].d);
    for (int e = 0; e < 3; e++) { double tt = e == 0 ? 0 : e == 1 ? ft : t; TN(3spline)((size_t)n, (T)tt, TM(v[0]), TM(v[1]), (T *)a[0].d, (T *)a[1].d, TO(o[0]), TO(o[1]), TO(o[2]));
        for (int i = 0; i < n; i++) { double c0 = (double)EL(v[0], 0, i), c1 = (double)EL(v[1], 0, i), c2 = (double)EL(a[0], i, 0), c3 = (double)EL(a[1], i, 0), z = 400;
            if (e < 2) { TL(same)(c, "cubic end position", (double)EL(o[0], 0, i), (double)EL(v[e ? 2 : 0], 0, i), z); TL(same)(c, "cubic end velocity", (double)EL(o[1], 0, i), (double)EL(v[e ? 3 : 1], 0, i), z); }
            TL(same)(c, "cubic acceleration", (double)EL(o[2], 0, i), 2 * c2 + 6 * c3 * tt, z); TL(same)(c, "cubic velocity", (double)EL(o[1], 0, i), c1 + 2 * c2 * tt + 3 * c3 * tt * tt, z); TL(same)(c, "cubic position", (double)EL(o[0], 0, i), c0 + tt * (c1 + tt * (c2 + tt * c3)), z); }
        TL(rec)(c, &o[0]); }
    TN(5spline_param)((size_t)n, (T)tf, TM(v[0]), TM(v[1]), TM(v[2]), TM(v[3]), TM(v[4]), TM(v[5]), (T *)a[0].d, (T *)a[1].d, (T *)a[2].d);
    for (int e = 0; e < 2; e++) { TN(5spline)((size_t)n, (T)(e ? ft : 0), TM(v[0]), TM(v[1]), TM(v[2]), (T *)a[0].d, (T *)a[1].d, (T *)a[2].d, TO(o[0]), TO(o[1]), TO(o[2]));
        for (int i = 0; i < n; i++) { static const char *const nm[] = {"quintic end position", "quintic end velocity", "quintic end acceleration"}; for (int k = 0; k < 3; k++) TL(same)(c, nm[k], (double)EL(o[k], 0, i), (double)EL(v[(e ? 3 : 0) + k], 0, i), 20000); } }
    TL(rec)(c, &o[0]); TL(rec)(c, &o[2]);
}
#undef EL
#undef TM
#undef TO
