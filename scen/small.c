/* The small building blocks: sets of bits, byte orders, swaps, growing vectors, number helpers, shared reference counts. SIM:TSAN */
#include "util.h"
#include <amino.h>
#include <amino/endconv.h>
#include <amino/cv.h>
#include <math.h>
#include <float.h>
#include <stdatomic.h>
#include <amino/refcount.h>

/* ---- sets of bits against arrays of flags */
#define NB 260
#define NW 12
struct bs { aa_bits raw[NW + 4]; aa_bits *b; size_t n; uint8_t m[NB]; };
static void bs_init(struct bs *s, size_t n) {
    for (int i = 0; i < NW + 4; i++) s->raw[i] = 0x5a5a5a5a;
    s->b = s->raw + 2; s->n = n;
    size_t w = (n + 31) / 32;
    SIM_CHECK(aa_bits_words(n) == w && aa_bits_size(n) == 4 * w, "bits", "%zu bits take %zu words, %zu octets", n, aa_bits_words(n), aa_bits_size(n));
    memset(s->b, 0, 4 * w);
    memset(s->m, 0, sizeof s->m);
}
static void bs_check(struct bs *s, const char *when) {
    for (size_t i = 0; i < s->n; i++) SIM_CHECK(aa_bits_get(s->b, i) == s->m[i], "bits", "bit %zu of %zu is %d after %s", i, s->n, aa_bits_get(s->b, i), when);
    size_t w = (s->n + 31) / 32;
    for (int i = 0; i < NW + 4; i++) if (i < 2 || i >= 2 + (int)w) SIM_CHECK(s->raw[i] == 0x5a5a5a5a, "bits-outside", "%s of %zu bits wrote word %d", when, s->n, i - 2);
    for (int k = 0; k < 4; k++) {
        size_t i = op_choose(NB + 140), in = i < 32 * w;
        int r = aa_bits_getn(s->b, 4 * w, i);
        SIM_CHECK(in || !r, "bits", "bit %zu, past the end of %zu words, is %d", i, w, r);
        if (i < s->n) SIM_CHECK(r == s->m[i], "bits", "aa_bits_getn() says %d for bit %zu", r, i);
    }
}
static void bits(void) {
    static __thread struct bs A, B;
    size_t n = op_choose(3) ? (size_t)op_range(0, NB) : 32 * (size_t)op_range(0, NB / 32) + op_choose(2);
    bs_init(&A, n); bs_init(&B, n);
    for (int k = op_range(1, 12); k > 0; k--) {
        struct bs *s = op_choose(2) ? &A : &B;
        unsigned o = op_choose(7);
        if (o >= 3) { if (!n) continue; size_t i = op_choose((uint32_t)n); int v = o == 6 ? 0 : (int)op_choose(3) * 2; aa_bits_set(s->b, i, v); s->m[i] = v != 0; bs_check(s, "setting a bit"); continue; }
        struct bs *t = s == &A ? &B : &A;
        if (o == 0) aa_bits_and(s->b, t->b, n); else if (o == 1) aa_bits_or(s->b, t->b, n); else aa_bits_xor(s->b, t->b, n);
        for (size_t i = 0; i < n; i++) s->m[i] = (uint8_t)(o == 0 ? s->m[i] & t->m[i] : o == 1 ? s->m[i] | t->m[i] : s->m[i] ^ t->m[i]);
        bs_check(s, o == 0 ? "aa_bits_and()" : o == 1 ? "aa_bits_or()" : "aa_bits_xor()"); bs_check(t, "being an operand");
    }
}

/* ---- byte orders */
static uint64_t r64(void) { uint64_t v = ((uint64_t)op_choose(1u << 16) << 48) | ((uint64_t)op_choose(1u << 24) << 24) | op_choose(1u << 24); switch (op_choose(5)) { case 0: return v & 0xff; case 1: return ~(v & 0xff); case 2: return v & 0xff00ff00ff00ff00ull; default: return v; } }
static void order(void) {
    uint8_t m[40]; uint64_t v = r64(); size_t at = op_choose(16);
#define INT(T, S) do { T x = (T)v, y; int z = (int)sizeof(T); \
    for (int be = 0; be < 2; be++) { \
        pat_fill(m, sizeof m, 7); \
        if (be) aa_endconv_st_be_##S(m + at, x); else aa_endconv_st_le_##S(m + at, x); \
        for (int i = 0; i < (int)sizeof m; i++) { int k = i - (int)at; uint8_t w = k < 0 || k >= z ? pat(7, (size_t)i) : (uint8_t)((uint64_t)x >> (8 * (be ? z - 1 - k : k))); SIM_CHECK(m[i] == w, "order", #S ": octet %d of the %s-endian form of %llx is %02x", k, be ? "big" : "little", (unsigned long long)x, m[i]); } \
        y = be ? aa_endconv_ld_be_##S(m + at) : aa_endconv_ld_le_##S(m + at); SIM_CHECK(y == x, "order", #S ": %llx reads back as %llx", (unsigned long long)x, (unsigned long long)y); \
        y = be ? aa_endconv_h_to_be_##S(x) : aa_endconv_h_to_le_##S(x); SIM_CHECK(!memcmp(&y, m + at, sizeof y), "order", #S ": converting and storing %llx differ", (unsigned long long)x); \
        y = be ? aa_endconv_be_to_h_##S(y) : aa_endconv_le_to_h_##S(y); SIM_CHECK(y == x, "order", #S ": %llx converts back to %llx", (unsigned long long)x, (unsigned long long)y); } } while (0)
#define FLT(T, U, S) do { T x, y; U u = (U)v; memcpy(&x, &u, sizeof x); int z = (int)sizeof(T); \
    for (int be = 0; be < 2; be++) { pat_fill(m, sizeof m, 7); if (be) aa_endconv_st_be_##S(m + at, x); else aa_endconv_st_le_##S(m + at, x); \
        for (int i = 0; i < (int)sizeof m; i++) { int k = i - (int)at; uint8_t w = k < 0 || k >= z ? pat(7, (size_t)i) : (uint8_t)((uint64_t)u >> (8 * (be ? z - 1 - k : k))); SIM_CHECK(m[i] == w, "order", #S ": octet %d of %g is %02x", k, (double)x, m[i]); } \
        y = be ? aa_endconv_ld_be_##S(m + at) : aa_endconv_ld_le_##S(m + at); SIM_CHECK(!memcmp(&x, &y, sizeof x), "order", #S ": %g reads back as %g", (double)x, (double)y); } } while (0)
    switch (op_choose(8)) {
    case 0: INT(int16_t, i16); break;
    case 1: INT(uint16_t, u16); break;
    case 2: INT(int32_t, i32); break;
    case 3: INT(uint32_t, u32); break;
    case 4: INT(int64_t, i64); break;
    case 5: INT(uint64_t, u64); break;
    case 6: { v &= 0xbfffffffffffffffull; FLT(double, uint64_t, d); break; } /* no signalling NaNs */
    default: { v &= 0xbfffffff; FLT(float, uint32_t, s); break; }
    }
}

/* ---- swaps and growing vectors */
struct el { int id; char pad[3]; };
AA_VECTOR_DEF(int, ivec)
AA_VECTOR_DEF(struct el, evec)
static void memory(void) {
    uint8_t a[80], b[80]; size_t n = op_choose(60), i = op_choose(16), j = op_choose(16);
    pat_fill(a, sizeof a, 3); pat_fill(b, sizeof b, 4);
    aa_memswap(a + i, b + j, n);
    for (size_t k = 0; k < sizeof a; k++) {
        SIM_CHECK(a[k] == (k >= i && k < i + n ? pat(4, k - i + j) : pat(3, k)), "swap", "swapping %zu octets: octet %zu of the first", n, k - i);
        SIM_CHECK(b[k] == (k >= j && k < j + n ? pat(3, k - j + i) : pat(4, k)), "swap", "swapping %zu octets: octet %zu of the second", n, k - j);
    }
    double x[6], y[6]; int ne = op_range(0, 5);
    for (int k = 0; k < 6; k++) { x[k] = k; y[k] = -k - 1; }
    AA_MEM_SWAP(x, y, (size_t)ne);
    for (int k = 0; k < 6; k++) SIM_CHECK(x[k] == (k < ne ? -k - 1 : k) && y[k] == (k < ne ? k : -k - 1), "swap", "AA_MEM_SWAP of %d: element %d", ne, k);
    AA_MEM_CPY(x, y, (size_t)ne);
    for (int k = 0; k < 6; k++) SIM_CHECK(x[k] == k, "copy", "AA_MEM_CPY of %d: element %d", ne, k);
    AA_MEM_SET(x + 1, 7.5, (size_t)ne);
    for (int k = 1; k < 6; k++) SIM_CHECK(x[k] == (k <= ne ? 7.5 : k), "copy", "AA_MEM_SET of %d: element %d", ne, k);
    AA_MEM_ZERO(x, (size_t)ne);
    for (int k = 0; k < 6; k++) SIM_CHECK(x[k] == (k < ne ? 0 : k == ne && ne ? 7.5 : k), "copy", "AA_MEM_ZERO of %d: element %d is %g", ne, k, x[k]);
    if (ne) { double *d = AA_MEM_DUP(double, y, (size_t)ne); SIM_CHECK(d != y && !memcmp(d, y, sizeof(double) * (size_t)ne), "copy", "AA_MEM_DUP of %d", ne); free(d); }
    ivec v; evec w; size_t m0 = op_choose(6), m1 = op_choose(4); int c = op_range(0, 60);
    ivec_init(&v, m0); evec_init(&w, m1);
    for (int k = 0; k < c; k++) { ivec_push(&v, 3 * k + 1); struct el e = {k, {1, 2, (char)k}}; evec_push(&w, e); }
    SIM_CHECK(v.size == (size_t)c && w.size == (size_t)c && v.max >= v.size && w.max >= w.size, "vector", "%d pushed, %zu and %zu kept", c, v.size, w.size);
    for (int k = 0; k < c; k++) SIM_CHECK(v.data[k] == 3 * k + 1 && w.data[k].id == k && w.data[k].pad[2] == (char)k, "vector", "element %d of %d", k, c);
    free(v.data); free(w.data);
}

/* ---- numbers */
static double special(void) {
    switch (op_choose(14)) { case 0: return 0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY; case 4: return DBL_MAX; case 5: return DBL_MIN; case 6: return 1; case 7: return -1; case 8: return 4.9e-324; case 9: return -DBL_MAX; default: return op_unit() * 4; }
}
static int64_t ival(void) { int64_t v = (int64_t)op_choose(1u << 20) - (1 << 19); return op_choose(3) == 0 ? v % 7 : op_choose(3) == 0 ? v << 11 : v; }
static void numbers(void) {
    double a = special(), b = special(), x = special(), lo = a < b ? a : b, hi = a < b ? b : a;
    SIM_CHECK(aa_fclamp(x, lo, hi) == (x < lo ? lo : x > hi ? hi : x), "number", "aa_fclamp(%g, %g, %g) is %g", x, lo, hi, aa_fclamp(x, lo, hi));
    double v[6], w[6], l[6], h[6]; int n = op_range(0, 6);
    for (int i = 0; i < 6; i++) { v[i] = w[i] = special(); double p = special(), q = special(); l[i] = p < q ? p : q; h[i] = p < q ? q : p; }
    aa_vclamp((size_t)n, w, lo, hi);
    for (int i = 0; i < 6; i++) SIM_CHECK(w[i] == (i >= n ? v[i] : v[i] < lo ? lo : v[i] > hi ? hi : v[i]), "number", "aa_vclamp: element %d of %d is %g", i, n, w[i]);
    double dz = aa_fdeadzone(x, lo, hi, 77);
    SIM_CHECK(x > lo && x < hi ? dz == 77 : x < lo || x > hi ? dz == x : dz == x || dz == 77, "number", "aa_fdeadzone(%g, %g, %g) is %g", x, lo, hi, dz);
    SIM_CHECK(aa_sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "number", "aa_sign(%g) is %g", x, aa_sign(x));
    SIM_CHECK(!!aa_isfok(x) == !!isfinite(x) && !aa_isfok(NAN) && !aa_isfok(-NAN), "number", "aa_isfok(%g) is %d", x, aa_isfok(x));
    SIM_CHECK(aa_fsq(x) == x * x && AA_MAX(a, b) == hi && AA_MIN(a, b) == lo, "number", "square, maximum or minimum of %g, %g", a, b);
    int64_t p = ival(), q = ival(); if (!q) q = 3;
    int64_t md = ((p % q) + q) % q;
    { __int128 r = (__int128)p - md; SIM_CHECK(r % q == 0, "harness", "modulo"); }
    SIM_CHECK(aa_lmodulo((long)p, (long)q) == md && aa_imodulo64(p, q) == md, "number", "%lld modulo %lld is %ld, %lld", (long long)p, (long long)q, aa_lmodulo((long)p, (long)q), (long long)aa_imodulo64(p, q));
    int pi = (int)(p % 100000), qi = (int)(q % 1000); if (!qi) qi = -5;
    int mi = aa_imodulo(pi, qi);
    SIM_CHECK((pi - mi) % qi == 0 && (qi > 0 ? mi >= 0 && mi < qi : mi <= 0 && mi > qi) && aa_iremainder(pi, qi) == pi % qi, "number", "%d modulo %d is %d", pi, qi, mi);
    double fa = op_unit() * 50, fb = op_unit() * 3; if (fabs(fb) < .01) fb = 1.5;
    double fm = aa_fmodulo(fa, fb), k = (fa - fm) / fb;
    SIM_CHECK(fabs(k - round(k)) < 1e-9 && (fb > 0 ? fm >= 0 && fm < fb : fm <= 0 && fm > fb) && aa_fremainder(fa, fb) == fmod(fa, fb), "number", "%g modulo %g is %g", fa, fb, fm);
    double an = op_choose(4) ? op_unit() * 40 : (double)op_range(-8, 8) * M_PI_2, n2 = aa_ang_norm_2pi(an), np = aa_ang_norm_pi(an), dl = aa_ang_delta(an, fa);
    SIM_CHECK(n2 >= 0 && n2 < 2 * M_PI && fabs(remainder(n2 - an, 2 * M_PI)) < 1e-9, "number", "angle %g normalizes to %g", an, n2);
    SIM_CHECK(np >= -M_PI && np <= M_PI && fabs(remainder(np - an, 2 * M_PI)) < 1e-9, "number", "angle %g normalizes to %g", an, np);
    SIM_CHECK(dl >= -M_PI && dl <= M_PI && fabs(remainder(dl - (an - fa), 2 * M_PI)) < 1e-9, "number", "angle %g less %g is %g", an, fa, dl);
    SIM_CHECK(fabs(aa_ang_rad2deg(an) - an * 180 / M_PI) < 1e-9 && fabs(aa_ang_deg2rad(aa_ang_rad2deg(an)) - an) < 1e-9, "number", "degrees of %g", an);
    SIM_CHECK(fabs(aa_horner3(fb, 1.5, -2, fa) - (1.5 - 2 * fb + fa * fb * fb)) < 1e-9, "number", "polynomial");
    double z = op_unit() * 3, sg = .1 + fabs(op_unit()), mu = op_unit();
    SIM_CHECK(fabs(aa_stat_x2z(aa_stat_z2x(z, mu, sg), mu, sg) - z) < 1e-9 && fabs(aa_stat_z2x(z, mu, sg) - (mu + z * sg)) < 1e-12, "number", "scores");
    double u1 = 1 - fabs(op_unit()) * .999, u2 = fabs(op_unit()), z1, z2;
    aa_stat_box_muller(u1, u2, &z1, &z2);
    SIM_CHECK(fabs(z1 * z1 + z2 * z2 + 2 * log(u1)) < 1e-9 && fabs(remainder(atan2(z2, z1) - 2 * M_PI * u2, 2 * M_PI)) < 1e-6 + 1e-9 / (1e-12 + hypot(z1, z2)), "number", "normal pair of %g, %g is %g, %g", u1, u2, z1, z2);
    if (n) {
        double f[6]; for (int i = 0; i < 6; i++) f[i] = op_choose(3) ? op_unit() * 5 : (double)op_range(-2, 2);
        size_t i0 = aa_fminloc((size_t)n, f), i1 = aa_fmaxloc((size_t)n, f);
        SIM_CHECK(i0 < (size_t)n && i1 < (size_t)n, "number", "extremum of %d at %zu, %zu", n, i0, i1);
        for (int i = 0; i < n; i++) SIM_CHECK(f[i0] <= f[i] && f[i1] >= f[i], "number", "extremum of %d is not at %zu, %zu", n, i0, i1);
    }
    /* ranges */
    SIM_CHECK((aa_valid_f(x, lo, hi) == 0) == (x >= lo && x <= hi), "valid", "aa_valid_f(%g, %g, %g) is %d", x, lo, hi, aa_valid_f(x, lo, hi));
    int ul = (int)op_choose(2), uh = (int)op_choose(2), want = n + (op_choose(5) ? 0 : op_range(1, 2)), bad = 0;
    int r = aa_valid_v(v, (size_t)n, ul ? l : NULL, uh ? h : NULL, (size_t)want);
    for (int i = 0; i < n; i++) bad += (ul && v[i] < l[i]) || (uh && v[i] > h[i]);
    SIM_CHECK(want != n ? r < 0 : bad ? r >= 1 && r <= n && ((ul && v[r - 1] < l[r - 1]) || (uh && v[r - 1] > h[r - 1])) : r == 0, "valid", "aa_valid_v() is %d for %d values of %d, %d outside", r, n, want, bad);
    double d[5], dn = 0, tol = 1e-6; for (int i = 0; i < 5; i++) { d[i] = op_unit(); dn += d[i] * d[i]; }
    dn = sqrt(dn); double sc = op_choose(2) ? 1 : 1 + (op_choose(2) ? 1 : -1) * (op_choose(2) ? 1e-5 : 1e-7);
    if (dn > 1e-3) { for (int i = 0; i < 5; i++) d[i] *= sc / dn; SIM_CHECK((aa_valid_vunit(d, 5, tol) == 0) == (fabs(sc - 1) < tol), "valid", "aa_valid_vunit() is %d for length %.9g", aa_valid_vunit(d, 5, tol), sc); }
    double e[5]; memcpy(e, d, sizeof e); int at = (int)op_choose(5); double df = op_choose(2) ? 2e-3 : 5e-4; e[at] += op_choose(2) ? df : -df;
    int ln = op_range(0, 5);
    SIM_CHECK(aa_veq((size_t)ln, d, e, 1e-3) == (at >= ln || df < 1e-3) && aa_feq(d[at], e[at], 1e-3) == (df < 1e-3), "valid", "aa_veq() of %d, differing by %g at %d", ln, df, at);
    /* colour */
    double rgb[3] = {fabs(op_unit()), fabs(op_unit()), fabs(op_unit())}, rot[3] = {rgb[2], rgb[0], rgb[1]}, hs[3], ht[3];
    if (op_choose(6) == 0) rgb[1] = rgb[2] = rot[2] = rot[0] = rgb[0], rot[1] = rgb[0];
    aa_cv_rgb2hsv(rgb, hs); aa_cv_rgb2hsv(rot, ht);
    double mx = fmax(rgb[0], fmax(rgb[1], rgb[2])), mn = fmin(rgb[0], fmin(rgb[1], rgb[2]));
    SIM_CHECK(hs[2] == mx && ht[2] == mx && fabs(hs[1] - ht[1]) < 1e-9 && (mx > mn || fabs(hs[1]) < 1e-9), "colour", "value %g, saturation %g of %g %g %g", hs[2], hs[1], rgb[0], rgb[1], rgb[2]);
    if (mx - mn > 1e-3) {
        SIM_CHECK(fabs(remainder(ht[0] - hs[0] - 2 * M_PI / 3, 2 * M_PI)) < 1e-7, "colour", "hues %g and %g", hs[0], ht[0]);
        int first = rgb[0] == mx && rgb[1] < mx && rgb[2] < mx;
        if (first) SIM_CHECK(fabs(remainder(hs[0], 2 * M_PI)) < M_PI / 3 + 1e-9 && (rgb[1] == rgb[2] || (hs[0] > 0) == (rgb[1] > rgb[2])), "colour", "hue %g of %g %g %g", hs[0], rgb[0], rgb[1], rgb[2]);
    }
    /* times */
    struct timespec t0 = aa_tm_make_norm((time_t)op_range(-50, 50), (long)ival() * 997), t1 = aa_tm_make_norm((time_t)op_range(-50, 50), (long)ival() * 997);
    if (op_choose(4) == 0) t1.tv_sec = t0.tv_sec;
    if (op_choose(8) == 0) t1 = t0;
    SIM_CHECK(t0.tv_nsec >= 0 && t0.tv_nsec < 1000000000, "time", "%ld nanoseconds", t0.tv_nsec);
#define NS(t) ((int64_t)(t).tv_sec * 1000000000 + (t).tv_nsec)
    struct timespec mnt = aa_tm_min(t0, t1), mxt = aa_tm_max(t0, t1), mk = aa_tm_make_norm(t0.tv_sec, t0.tv_nsec + (long)p * 1000);
    SIM_CHECK(NS(mnt) == (NS(t0) < NS(t1) ? NS(t0) : NS(t1)) && NS(mxt) == (NS(t0) < NS(t1) ? NS(t1) : NS(t0)), "time", "earlier or later of two times");
    SIM_CHECK(NS(mk) == NS(t0) + p * 1000 && mk.tv_nsec >= 0 && mk.tv_nsec < 1000000000, "time", "normalized time");
    SIM_CHECK(aa_tm_timespec2usec(t0) == NS(t0) / 1000 - (NS(t0) % 1000 < 0) && aa_tm_timespec2msec(t0) == NS(t0) / 1000000 - (NS(t0) % 1000000 < 0), "time", "%ld s %ld ns is %lld us, %lld ms", (long)t0.tv_sec, t0.tv_nsec, (long long)aa_tm_timespec2usec(t0), (long long)aa_tm_timespec2msec(t0));
    double sec = aa_tm_timespec2sec(t0);
    SIM_CHECK(fabs(sec - (double)NS(t0) * 1e-9) < 1e-6, "time", "%ld s %ld ns is %g s", (long)t0.tv_sec, t0.tv_nsec, sec);
    struct timespec bk = aa_tm_sec2timespec(sec);
    SIM_CHECK(llabs(NS(bk) - NS(t0)) < 1000 && bk.tv_nsec >= 0 && bk.tv_nsec < 1000000000, "time", "%g s is %ld s %ld ns", sec, (long)bk.tv_sec, bk.tv_nsec);
    struct timespec c0 = mnt, c1 = mxt; int inside = NS(x < 0 ? t0 : mk) >= NS(c0) && NS(x < 0 ? t0 : mk) <= NS(c1);
    SIM_CHECK((aa_valid_timespec(x < 0 ? t0 : mk, c0, c1) == 0) == inside, "valid", "aa_valid_timespec()");
}

/* ---- a reference count shared by threads */
static struct obj { _Atomic unsigned at; unsigned mu; int use_mutex, alive, freed; unsigned prev[200]; long data[8]; } *ob;
static unsigned inc(struct obj *o) { return o->use_mutex ? aa_mem_ref_inc_mutex(&o->mu) : aa_mem_ref_inc_atomic(&o->at); }
static unsigned dec(struct obj *o) { return o->use_mutex ? aa_mem_ref_dec_mutex(&o->mu) : aa_mem_ref_dec_atomic(&o->at); }
static _Atomic int live_refs, last_seen; /* the oracle's own, without any ordering */
#define RLX memory_order_relaxed
struct holder { int refs, ops, slot; };
static void *holder(void *p) {
    struct holder *h = p;
    struct obj *o = ob;
    for (; h->refs > 0; h->ops--) {
        o->data[h->slot]++;
        if (h->ops > 0 && op_choose(2)) {
            unsigned r = inc(o);
            SIM_CHECK(r >= 1, "reference", "a reference was taken while one was held, and %u were counted before", r);
            h->refs++; atomic_fetch_add_explicit(&live_refs, 1, RLX);
        } else {
            h->refs--; atomic_fetch_sub_explicit(&live_refs, 1, RLX);
            unsigned r = dec(o);
            SIM_CHECK(r >= 1, "reference", "a reference was given back, and %u were counted before", r);
            if (r == 1) {
                int l = atomic_load_explicit(&live_refs, RLX), seen = atomic_fetch_add_explicit(&last_seen, 1, RLX);
                SIM_CHECK(l == 0, "reference", "the last reference was seen to go while %d are held", l);
                SIM_CHECK(!seen, "reference", "the last reference was seen to go twice");
                long s = 0; for (int i = 0; i < 8; i++) s += o->data[i];
                memset(o, 0xdb, sizeof *o); free(o); /* nobody else may look any more */
            }
        }
    }
    return NULL;
}
static void references(void) {
    sim_sched_swarm(1); sim_set_races(1);
    struct obj *o = ob = calloc(1, sizeof *o);
    o->use_mutex = (int)op_choose(2);
    static struct holder h[4]; sim_tid t[4]; int n = op_range(2, 4);
    live_refs = 0; last_seen = 0;
    for (int i = 0; i < n; i++) { h[i] = (struct holder){op_range(1, 3), op_range(0, 8), i}; for (int k = 0; k < h[i].refs; k++) { unsigned r = inc(o); SIM_CHECK(r == (unsigned)live_refs, "reference", "%u references were counted, %d taken", r, live_refs); live_refs++; } }
    for (int i = 0; i < n; i++) t[i] = sim_spawn("holder", holder, &h[i]);
    for (int i = 0; i < n; i++) sim_join(t[i]);
    SIM_CHECK(last_seen == 1, "reference", "%d threads saw the last reference go", last_seen);
}
static void small(void) {
    uint64_t mark = sim_heap_mark();
    if (op_choose(4) == 0) references();
    else for (int k = op_range(1, 5); k > 0; k--) switch (op_choose(4)) { case 0: bits(); break; case 1: order(); break; case 2: memory(); break; default: numbers(); }
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P32", small, small, 5);
