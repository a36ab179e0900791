/* C++: containers and scopes on memory regions; vectors and matrices by expressions.  SIM:TSAN */
/* SIM:FLAGS -std=c++14 */
#include <algorithm>
#include <cmath>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "amino.h"
#include "amino/mat.hpp"
#include "sim.h"
#include "util.h"
using namespace amino;
/* ---------------------------------------------------------------- memory */
struct pod { uint8_t *p; size_t n; uint32_t seed; };
template <class T> static void same(const char *what, const T &a, size_t n, const typename T::const_iterator &) { SIM_CHECK(a.size() == n, "content", "%s has %zu elements, not %zu", what, a.size(), n); }
struct frame {
    aa_mem_region *reg;
    RegionVector<uint64_t>::type v; std::vector<uint64_t> mv;
    RegionList<int>::type l; std::list<int> ml;
    RegionMap<int, double>::type m; std::map<int, double> mm;
    RegionVector<RegionVector<int>::type>::type vv; std::vector<std::vector<int> > mvv;
    std::vector<pod> blocks;
    frame(aa_mem_region *r) : reg(r), v(r), l(r), m(std::less<int>(), r), vv(r) {}
    void check() const {
        SIM_CHECK(v.size() == mv.size() && std::equal(v.begin(), v.end(), mv.begin()), "content", "a vector in the region has other elements (%zu of them, not %zu)", v.size(), mv.size());
        SIM_CHECK(l.size() == ml.size() && std::equal(l.begin(), l.end(), ml.begin()), "content", "a list in the region has other elements (%zu of them, not %zu)", l.size(), ml.size());
        SIM_CHECK(m.size() == mm.size() && std::equal(m.begin(), m.end(), mm.begin()), "content", "a map in the region has other entries (%zu of them, not %zu)", m.size(), mm.size());
        SIM_CHECK(vv.size() == mvv.size(), "content", "a vector of vectors has %zu, not %zu elements", vv.size(), mvv.size());
        for (size_t i = 0; i < vv.size(); i++) { SIM_CHECK(vv[i].size() == mvv[i].size() && std::equal(vv[i].begin(), vv[i].end(), mvv[i].begin()), "content", "vector %zu of a vector of vectors has other elements", i); SIM_CHECK(vv[i].get_allocator().region == reg, "content", "a vector in a vector allocates elsewhere"); }
        if (v.capacity()) SIM_CHECK(sim_heap_addressable(v.data(), v.capacity() * sizeof v[0]) == 1, "addressable", "a vector reaches outside the region's memory");
        for (const pod &b : blocks) { long k = b.n ? pat_bad(b.p, b.n, b.seed) : -1; SIM_CHECK(k < 0, "content", "byte %ld of a block of %zu changed", k, b.n); }
    }
    void step(uint32_t &seq) {
        int x = op_range(-20, 20);
        switch (op_choose(14)) {
        case 0: case 1: for (int k = op_range(1, 12); k > 0; k--) { v.push_back(seq); mv.push_back(seq++); } break;
        case 2: { size_t n = (size_t)op_range(0, 40); v.resize(n, 7); mv.resize(n, 7); break; }
        case 3: { size_t i = op_choose((uint32_t)mv.size() + 1); v.insert(v.begin() + (long)i, 3u, seq); mv.insert(mv.begin() + (long)i, 3u, seq); seq++; break; }
        case 4: for (int k = op_range(1, 6); k > 0; k--) { if (x & 1) { l.push_back(x + k); ml.push_back(x + k); } else { l.push_front(x - k); ml.push_front(x - k); } } break;
        case 5: l.remove(x); ml.remove(x); break;
        case 6: l.sort(); ml.sort(); break;
        case 7: for (int k = 0; k < 4; k++) { m[x + 3 * k] = k; mm[x + 3 * k] = k; } break;
        case 8: m.erase(x); mm.erase(x); break;
        case 9: if (!mm.empty()) { auto i = m.lower_bound(x); auto j = mm.lower_bound(x); SIM_CHECK((i == m.end()) == (j == mm.end()) && (j == mm.end() || *i == *j), "content", "lower bound"); } break;
        case 10: { if (mvv.size() < 6) { vv.emplace_back(RegionAllocator<int>(reg)); mvv.emplace_back(); } size_t i = op_choose((uint32_t)mvv.size()); for (int k = op_range(1, 9); k > 0; k--) { vv[i].push_back(x * k); mvv[i].push_back(x * k); } break; }
        case 11: { RegionVector<uint64_t>::type c(v); c.push_back(1); std::swap(v, c); mv.push_back(1); break; }
        case 12: { size_t n = (size_t)op_range(0, 60); pod b = {(uint8_t *)(new (reg) char[n]), n, ++seq}; SIM_CHECK(((uintptr_t)b.p & 15) == 0, "misaligned", "an array of %zu", n); if (n) { SIM_CHECK(sim_heap_addressable(b.p, n) == 1, "addressable", "an array of %zu reaches outside the region's memory", n); pat_fill(b.p, n, b.seed); } blocks.push_back(b); break; }
        default: { struct obj { double a[3]; int id; obj(int i) : id(i) { a[0] = a[1] = a[2] = i; } }; obj *o = new (reg) obj(x); SIM_CHECK(o->id == x && o->a[2] == x && ((uintptr_t)o & 15) == 0, "content", "an object in the region"); pod b = {(uint8_t *)o, sizeof *o, ++seq}; pat_fill(o, sizeof *o, b.seed); blocks.push_back(b); break; }
        }
    }
};
static void nest(aa_mem_region *reg, bool local, std::vector<frame *> &st, uint32_t &seq, int depth) {
    {
        std::unique_ptr<RegionScope> sc(local ? new RegionScope() : new RegionScope(reg));
        SIM_CHECK(sc->reg() == reg && static_cast<aa_mem_region *>(*sc) == reg, "scope", "a scope is on another region");
        {
            frame f(*sc); st.push_back(&f);
            for (int n = op_range(1, 7); n > 0; n--) {
                if (depth < 3 && op_choose(4) == 0) nest(reg, local, st, seq, depth + 1); else f.step(seq);
                for (frame *g : st) g->check();
            }
            st.pop_back();
        }
    }
    void *mark = aa_mem_region_ptr(reg); size_t fr = aa_mem_region_freesize(reg), n = op_choose((uint32_t)fr + 1); /* what fits the chunk is given back in place, even when the scope is left by an exception */
    if (fr) try { RegionScope sc(reg); char *p = new (reg) char[n]; if (n) memset(p, 1, n); if (n & 1) throw 1; } catch (int) { sim_probe("exception"); }
    SIM_CHECK(aa_mem_region_ptr(reg) == mark, "scope", "the end of a scope of %zu bytes left the region elsewhere than where it began (depth %d)", n, depth);
    for (frame *g : st) g->check();
    sim_state(mixh((uint64_t)depth, seq));
}
static void mem_body(bool local) {
    size_t n = (size_t)op_range(1, 1500); aa_mem_region r; aa_mem_region *reg = &r;
    if (local) { aa_mem_region_local_init(n); reg = aa_mem_region_local_get(); } else aa_mem_region_init(&r, n);
    { std::vector<frame *> st; uint32_t seq = 1; for (int k = op_range(1, 3); k > 0; k--) nest(reg, local, st, seq, 0); }
    if (local) aa_mem_region_local_destroy(); else aa_mem_region_destroy(&r);
}
extern "C" {
static void cpp_mem(void) { uint64_t mark = sim_heap_mark(); mem_body(op_choose(2) != 0); LEAKCHECK(mark, "leak"); }
static void *mem_worker(void *) { mem_body(true); return NULL; }
static void cpp_threads(void) { uint64_t mark = sim_heap_mark(); sim_sched_swarm(1); sim_set_races(1); sim_tid t[3]; int n = op_range(2, 3); for (int i = 0; i < n; i++) t[i] = sim_spawn("user", mem_worker, NULL); for (int i = 0; i < n; i++) sim_join(t[i]); LEAKCHECK(mark, "leak"); }
}
/* ---------------------------------------------------------------- vectors and matrices */
#define AR 700
typedef std::vector<double> vals;
struct arena {
    double *a; double m[AR]; int top;
    arena() : a((double *)malloc(AR * sizeof(double))), top(0) { for (int i = 0; i < AR; i++) m[i] = a[i] = (i * 29 % 83) / 8.0 - 5; }
    ~arena() { free(a); }
    int take(int n) { int t = top; top += n + 1; SIM_CHECK(top <= AR, "harness", "arena too small"); return t; }
};
static arena *A_;
struct mv { int n, off, inc; double at(int i) const { return A_->m[off + i * inc]; } vals get() const { vals r; for (int i = 0; i < n; i++) r.push_back(at(i)); return r; } DVec dv() const { return DVec::view((size_t)n, A_->a + off, (size_t)inc); } void put(const vals &x) const { for (int i = 0; i < n; i++) A_->m[off + i * inc] = x[(size_t)i]; } };
struct mmat { int r, c, off, ld; double at(int i, int j) const { return A_->m[off + i + j * ld]; } DMat dm() const { return DMat((size_t)r, (size_t)c, A_->a + off, (size_t)ld); } void put(const vals &x) const { for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) A_->m[off + i + j * ld] = x[(size_t)(i + j * r)]; } vals get() const { vals x; for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) x.push_back(at(i, j)); return x; } };
static mv newv(int n) { int inc = op_range(1, 3); mv v = {n, A_->take(n * inc), inc}; return v; }
static mmat newm(int r, int c) { int ld = r + op_range(0, 2); mmat m = {r, c, A_->take(ld * c), ld}; return m; }
static vals lin(double a, const vals &x, double b, const vals &y) { vals r; for (size_t i = 0; i < x.size(); i++) r.push_back(a * x[i] + b * y[i]); return r; }
static vals mvp(const mmat &A, bool t, const vals &x) { vals r; int n = t ? A.c : A.r; for (int i = 0; i < n; i++) { double s = 0; for (size_t k = 0; k < x.size(); k++) s += (t ? A.at((int)k, i) : A.at(i, (int)k)) * x[k]; r.push_back(s); } return r; }
static vals mmp(const mmat &A, bool ta, const mmat &B, bool tb) { vals r; int m = ta ? A.c : A.r, l = ta ? A.r : A.c, n = tb ? B.r : B.c; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double s = 0; for (int k = 0; k < l; k++) s += (ta ? A.at(k, i) : A.at(i, k)) * (tb ? B.at(j, k) : B.at(k, j)); r.push_back(s); } return r; }
static vals tr(const mmat &A) { vals r; for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) r.push_back(A.at(i, j)); return r; }
static vals zero(size_t n) { return vals(n, 0.0); }
/* everything as the model says; then take over rounding */
static void agree(const char *what, int k) { for (int i = 0; i < AR; i++) { double d = std::fabs(A_->a[i] - A_->m[i]); SIM_CHECK(d <= 1e-11 * (1 + std::fabs(A_->m[i])), "value", "%s %d: element %d of the memory is %.17g, not %.17g", what, k, i, A_->a[i], A_->m[i]); A_->m[i] = A_->a[i]; } }
static void vecs(int n, int m) {
    mv mx = newv(n), mz = newv(n), mw = newv(n), my = newv(n), mu = newv(m); mmat mA = newm(n, m), mB = newm(m, n);
    DVec x = mx.dv(), z = mz.dv(), w = mw.dv(), y = my.dv(), u = mu.dv(); DMat A = mA.dm(), B = mB.dm(); const DVec cx = DVec::view(static_cast<const aa_dvec *>(&x)); const aa_dvec &ax = x;
    for (int i = 0; i < n; i++) { double e = op_unit() * 4; x[(size_t)i] = e; A_->m[mx.off + i * mx.inc] = e; }
    double a = op_range(-8, 8) / 4.0, b = op_range(-8, 8) / 4.0 + .125; vals X = mx.get(), Z = mz.get(), W = mw.get(), Y = my.get(), U = mu.get(), O = zero((size_t)n), E = O; vals AU = mvp(mA, false, U), BU = mvp(mB, true, U); int k = (int)op_choose(40);
    switch (k) {
    case 0: y = x; E = X; break;
    case 1: y = a * x; E = lin(a, X, 0, O); break;
    case 2: y = x * a; E = lin(a, X, 0, O); break;
    case 3: y = b * (a * x); E = lin(a * b, X, 0, O); break;
    case 4: y = x + z; E = lin(1, X, 1, Z); break;
    case 5: y = a * (x + z); E = lin(a, X, a, Z); break;
    case 6: y = (x + z) * a; E = lin(a, X, a, Z); break;
    case 7: y = a * x + (z + w); E = lin(1, lin(a, X, 1, Z), 1, W); break;
    case 8: y = (z + w) + a * x; E = lin(1, lin(a, X, 1, Z), 1, W); break;
    case 9: y = a * x + b * z; E = lin(a, X, b, Z); break;
    case 10: y = x + (z + w); E = lin(1, lin(1, X, 1, Z), 1, W); break;
    case 11: y = x + a * z + w; E = lin(1, lin(1, X, a, Z), 1, W); break;
    case 12: y = A * u; E = AU; break;
    case 13: y = a * (A * u); E = lin(a, AU, 0, O); break;
    case 14: y = (a * A) * u; E = lin(a, AU, 0, O); break;
    case 15: y = A * (a * u); E = lin(a, AU, 0, O); break;
    case 16: y = (a * A) * (b * u); E = lin(a * b, AU, 0, O); break;
    case 17: y = B.t() * u; E = BU; break;
    case 18: y = B.transpose() * (a * u); E = lin(a, BU, 0, O); break;
    case 19: y = (A * u) * a; E = lin(a, AU, 0, O); break;
    case 20: y = A * u + x; E = lin(1, AU, 1, X); break;
    case 21: y = x + A * u; E = lin(1, AU, 1, X); break;
    case 22: y = A * u + b * x; E = lin(1, AU, b, X); break;
    case 23: y = b * x + a * (A * u); E = lin(a, AU, b, X); break;
    case 24: y = b * (A * u + a * x); E = lin(b, AU, a * b, X); break;
    case 25: y = (B.t() * u + x) * a; E = lin(a, BU, a, X); break;
    case 26: y = A * u + (x + z); E = lin(1, AU, 1, lin(1, X, 1, Z)); break;
    case 27: y += x; E = lin(1, Y, 1, X); break;
    case 28: y -= x; E = lin(1, Y, -1, X); break;
    case 29: y += a * x; E = lin(1, Y, a, X); break;
    case 30: y -= a * x; E = lin(1, Y, -a, X); break;
    case 31: y *= a; E = lin(a, Y, 0, O); break;
    case 32: y /= b; E = lin(1 / b, Y, 0, O); break;
    case 33: y = a; E = vals((size_t)n, a); break;
    case 34: y = cx; E = X; break;
    case 35: y = ax; E = X; break;
    case 36: y = y * a; E = lin(a, Y, 0, O); break;
    case 37: y = x + y; E = lin(1, X, 1, Y); break;
    case 38: y = A * u + y; E = lin(1, AU, 1, Y); break;
    default: DVec::assign(&y, X); E = X; break;
    }
    my.put(E); agree("vector expression", k);
    double s = 0, t = 0; for (int i = 0; i < n; i++) { t += (E[(size_t)i] - X[(size_t)i]) * (E[(size_t)i] - X[(size_t)i]); s += std::fabs(E[(size_t)i]) + std::fabs(X[(size_t)i]); }
    SIM_CHECK(std::fabs(DVec::ssd(x, y) - t) <= 1e-11 * (1 + s * s), "value", "the difference of two vectors");
}
static void views(int n) {
    mv mx = newv(n); DVec x = mx.dv(); const DVec &cx = x; int k = (int)op_choose(9), i = 0;
    switch (k) {
    case 0: { int st = op_range(1, 3), s = op_range(0, n), cnt = (n - s) / st; DVec v = x.slice((size_t)s, (size_t)(s + cnt * st), (size_t)st); SIM_CHECK((int)v.size() == cnt, "view", "a slice from %d in steps of %d has %zu elements, not %d", s, st, v.size(), cnt); for (i = 0; i < cnt; i++) { v[(size_t)i] = i + .5; A_->m[mx.off + (s + i * st) * mx.inc] = i + .5; } break; }
    case 1: { int st = op_range(1, 3), s = op_range(0, n), cnt = (n - s) / st; const DVec v = st == 1 ? cx.slice((size_t)s, (size_t)(s + cnt)) : cx.slice((size_t)s, (size_t)(s + cnt * st), (size_t)st); SIM_CHECK((int)v.size() == cnt, "view", "a slice from %d in steps of %d has %zu elements, not %d", s, st, v.size(), cnt); for (i = 0; i < cnt; i++) SIM_CHECK(v[(size_t)i] == mx.at(s + i * st), "view", "element %d of a slice in steps of %d", i, st); break; }
    case 2: { const double *p = A_->a + mx.off; const DVec v = DVec::view((size_t)n, p, (size_t)mx.inc); for (i = 0; i < n; i++) SIM_CHECK(v[(size_t)i] == mx.at(i), "view", "element %d of a view of constant data with increment %d", i, mx.inc); break; }
    case 3: for (const double &e : cx) { SIM_CHECK(e == mx.at(i), "iterate", "element %d", i); i++; } SIM_CHECK(i == n, "iterate", "%d elements, not %d", i, n); break;
    case 4: for (double &e : x) { e += i; A_->m[mx.off + i * mx.inc] += i; i++; } SIM_CHECK(i == n, "iterate", "%d elements, not %d", i, n); break;
    case 5: { auto it = x.begin(), e = x.end(); SIM_CHECK(it == x.begin() && !(it < x.begin()) && !(it > x.begin()) && it <= x.begin() && it >= x.begin() && !(it != x.begin()), "iterate", "a place is not itself"); for (; it != e; i++) { SIM_CHECK((it < e) && (it <= e) && !(it > e) && !(it >= e) && !(it == e), "iterate", "order of places"); double v = *it++; SIM_CHECK(v == mx.at(i), "iterate", "element %d", i); } for (; i > 0;) { --it; SIM_CHECK(*it == mx.at(--i), "iterate", "element %d backwards", i); } if (n > 2) { it += 2; SIM_CHECK(*it == mx.at(2), "iterate", "two elements on"); auto o = it--; SIM_CHECK(*o == mx.at(2) && *it == mx.at(1), "iterate", "one back"); } break; }
    case 6: { vals X = mx.get(); SIM_CHECK(std::equal(X.begin(), X.end(), cx.begin()), "iterate", "algorithms see other elements"); double *p = new double[(size_t)n + 1]; std::copy(cx.begin(), cx.end(), p); SIM_CHECK(std::equal(X.begin(), X.end(), p), "iterate", "copied elements"); delete[] p; break; }
    case 7: { vals X(mx.get()); RegionScope sc; DVec *v = DVec::init(sc.reg(), X); DVec w(sc, {1.5, 2.5, 3.5}), q(sc, 4), *l = DVec::alloc_local((size_t)n); *l = *v; q = 0.25; DVec rg = DVec::init(sc.reg(), X.begin(), X.end()); SIM_CHECK((int)rg.size() == n && std::equal(X.begin(), X.end(), rg.begin()), "value", "a vector from a range"); RegionAllocator<unsigned char> ra(sc.reg()); DVec *g = DVec::alloc(ra, (size_t)n); *g = *v; SIM_CHECK((int)v->size() == n && w.size() == 3 && w[0] == 1.5 && w[2] == 3.5 && q[3] == .25 && std::equal(X.begin(), X.end(), v->begin()) && DVec::ssd(*l, *v) == 0 && DVec::ssd(*g, *v) == 0 && sim_heap_addressable(g->data, (size_t)n * 8) != 0, "value", "vectors in the region"); break; }
    default: { if (n < 3) break; DVec p = x.slice(1, (size_t)n), q = x.slice(0, (size_t)n - 1); mv mp = {n - 1, mx.off + mx.inc, mx.inc}; p *= 2; mp.put(lin(2, mp.get(), 0, mp.get())); (void)q; break; }
    }
    agree("vector view", k);
}
static void mats(int r, int c, int l) {
    mmat mA = newm(r, l), mB = newm(l, c), mT = newm(c, r), mC = newm(r, c), mD = newm(r, c); DMat A = mA.dm(), B = mB.dm(), T = mT.dm(), C = mC.dm(), D = mD.dm(); double a = op_range(-8, 8) / 4.0, b = op_range(-8, 8) / 4.0 + .125; int k = (int)op_choose(26);
    vals E, O = zero((size_t)(r * c)), Dv = mD.get(), AB = mmp(mA, false, mB, false); mmat mAt = newm(l, r), mBt = newm(c, l); DMat At = mAt.dm(), Bt = mBt.dm();
    switch (k) {
    case 0: C = D; E = Dv; break;
    case 1: C = a * D; E = lin(a, Dv, 0, O); break;
    case 2: C = D * a; E = lin(a, Dv, 0, O); break;
    case 3: C = b * (a * D); E = lin(a * b, Dv, 0, O); break;
    case 4: C = T.t(); E = tr(mT); break;
    case 5: C = a * T.transpose(); E = lin(a, tr(mT), 0, O); break;
    case 6: C = A * B; E = AB; break;
    case 7: C = At.t() * B; E = mmp(mAt, true, mB, false); break;
    case 8: C = A * Bt.t(); E = mmp(mA, false, mBt, true); break;
    case 9: C = At.t() * Bt.t(); E = mmp(mAt, true, mBt, true); break;
    case 10: C = a * (A * B); E = lin(a, AB, 0, O); break;
    case 11: C = (A * B) * a; E = lin(a, AB, 0, O); break;
    case 12: C = (a * A) * B; E = lin(a, AB, 0, O); break;
    case 13: C = A * (a * B); E = lin(a, AB, 0, O); break;
    case 14: C = (a * A) * (b * B); E = lin(a * b, AB, 0, O); break;
    case 15: C = A * B + D; E = lin(1, AB, 1, Dv); break;
    case 16: C = D + A * B; E = lin(1, AB, 1, Dv); break;
    case 17: C = A * B + b * D; E = lin(1, AB, b, Dv); break;
    case 18: C = b * D + a * (A * B); E = lin(a, AB, b, Dv); break;
    case 19: C = b * (A * B + a * D); E = lin(b, AB, a * b, Dv); break;
    case 20: C = A * B + T.t(); E = lin(1, AB, 1, tr(mT)); break;
    case 21: C *= a; E = lin(a, mC.get(), 0, O); break;
    case 22: C = A * B + C; E = lin(1, AB, 1, mC.get()); break;
    case 23: C = (At.t() * (b * B)) * a; E = lin(a * b, mmp(mAt, true, mB, false), 0, O); break;
    case 24: C = (a * A) * Bt.t(); E = lin(a, mmp(mA, false, mBt, true), 0, O); break;
    default: { int i = op_range(0, r - 1), j = op_range(0, c - 1); C(i, j) = 9.25; E = mC.get(); E[(size_t)(i + j * r)] = 9.25; const DMat &cc = C; SIM_CHECK(cc(i, j) == 9.25, "value", "an element"); break; }
    }
    mC.put(E); agree("matrix expression", k);
    double t = 0, s = 0; vals Cv = mC.get(); for (size_t i = 0; i < Cv.size(); i++) { t += (Cv[i] - Dv[i]) * (Cv[i] - Dv[i]); s += std::fabs(Cv[i]) + std::fabs(Dv[i]); } SIM_CHECK(std::fabs(DMat::ssd(C, D) - t) <= 1e-11 * (1 + s * s), "value", "the difference of two matrices");
}
static void parts(int r, int c) {
    mmat mC = newm(r, c); DMat C = mC.dm(); const DMat cC = DMat::view(static_cast<const aa_dmat *>(&C)); int k = (int)op_choose(9), i = 0;
    switch (k) {
    case 0: { int j = op_range(0, r - 1); DVec v = C.row_vec((size_t)j); SIM_CHECK((int)v.size() == c, "view", "a row has %zu elements", v.size()); for (i = 0; i < c; i++) { SIM_CHECK(v[(size_t)i] == mC.at(j, i), "view", "row %d, element %d", j, i); } v *= 2; for (i = 0; i < c; i++) A_->m[mC.off + j + i * mC.ld] *= 2; break; }
    case 1: { int j = op_range(0, c - 1); DVec v = C.col_vec((size_t)j); SIM_CHECK((int)v.size() == r, "view", "a column has %zu elements", v.size()); for (i = 0; i < r; i++) SIM_CHECK(v[(size_t)i] == mC.at(i, j), "view", "column %d, element %d", j, i); v = 1.5; for (i = 0; i < r; i++) A_->m[mC.off + i + j * mC.ld] = 1.5; break; }
    case 2: { int r0 = op_range(0, r - 1), r1 = op_range(r0 + 1, r), c0 = op_range(0, c - 1), c1 = op_range(c0 + 1, c); DMat b = C.block((size_t)r0, (size_t)c0, (size_t)r1, (size_t)c1); SIM_CHECK((int)b.rows == r1 - r0 && (int)b.cols == c1 - c0, "view", "a block of %d:%d, %d:%d has %zu rows and %zu columns", r0, r1, c0, c1, b.rows, b.cols); b *= -1; for (int j = c0; j < c1; j++) for (i = r0; i < r1; i++) A_->m[mC.off + i + j * mC.ld] *= -1; break; }
    case 3: for (auto &v : C.row_container()) { SIM_CHECK((int)v.size() == c, "iterate", "a row has %zu elements", v.size()); for (int j = 0; j < c; j++) { SIM_CHECK(v[(size_t)j] == mC.at(i, j), "iterate", "row %d, element %d", i, j); v[(size_t)j] = i - j; A_->m[mC.off + i + j * mC.ld] = i - j; } i++; } SIM_CHECK(i == r, "iterate", "%d rows, not %d", i, r); break;
    case 4: for (auto &v : C.col_container()) { SIM_CHECK((int)v.size() == r, "iterate", "a column has %zu elements", v.size()); for (int j = 0; j < r; j++) { SIM_CHECK(v[(size_t)j] == mC.at(j, i), "iterate", "column %d, element %d", i, j); v[(size_t)j] = i - j; A_->m[mC.off + j + i * mC.ld] = i - j; } i++; } SIM_CHECK(i == c, "iterate", "%d columns, not %d", i, c); break;
    case 5: { auto rc = cC.row_container(); for (auto it = rc.begin(), e = rc.end(); it != e; i++) { auto o = it++; SIM_CHECK((*o)[0] == mC.at(i, 0) && (int)(*o).size() == c && (c < 2 || (*o)[1] == mC.at(i, 1)), "iterate", "row %d", i); } SIM_CHECK(i == r, "iterate", "%d rows, not %d", i, r);
        auto cc = cC.col_container(); i = 0; for (auto it = cc.begin(), e = cc.end(); it != e; i++) { auto o = it++; SIM_CHECK((*o)[0] == mC.at(0, i) && (int)(*o).size() == r && (r < 2 || (*o)[1] == mC.at(1, i)), "iterate", "column %d", i); } SIM_CHECK(i == c, "iterate", "%d columns, not %d", i, c); break; }
    case 6: { auto it = DMat::row_end(&C); for (i = r; i > 0;) { --it; SIM_CHECK((*it)[0] == mC.at(--i, 0), "iterate", "row %d backwards", i); } it += (size_t)(r - 1); SIM_CHECK((*it)[0] == mC.at(r - 1, 0), "iterate", "the last row"); it -= (size_t)(r - 1); auto o = it--; SIM_CHECK((*o)[0] == mC.at(0, 0) && it < o && it <= o && !(it > o) && !(it >= o) && it != o && !(it == o) && DMat::row_begin(&C) == o && !(DMat::row_begin(&C) < o) && DMat::row_begin(&C) <= o && DMat::row_begin(&C) >= o && !(DMat::row_begin(&C) > o), "iterate", "back to the first row");
        auto jt = DMat::col_end(&C); for (i = c; i > 0;) { --jt; SIM_CHECK((*jt)[0] == mC.at(0, --i), "iterate", "column %d backwards", i); } jt += (size_t)(c - 1); SIM_CHECK((*jt)[0] == mC.at(0, c - 1), "iterate", "the last column"); jt -= (size_t)(c - 1); auto q = jt--; SIM_CHECK((*q)[0] == mC.at(0, 0) && jt < q, "iterate", "back to the first column"); break; }
    case 7: { RegionScope sc; DMat *a = DMat::row_mat(sc, {{1, 2, 3}, {4, 5, 6}}), *b = DMat::col_mat(sc, {{1, 2, 3}, {4, 5, 6}}), *g = DMat::alloc_local((size_t)r, (size_t)c), h(sc, 2, 3); *g = cC; h = b->t(); SIM_CHECK(a->rows == 2 && a->cols == 3 && (*a)(1, 0) == 4 && (*a)(0, 2) == 3 && b->rows == 3 && b->cols == 2 && (*b)(1, 0) == 2 && (*b)(0, 1) == 4 && DMat::ssd(*a, h) == 0 && DMat::ssd(*g, cC) == 0, "value", "matrices in the region"); break; }
    default: { mmat mS = newm(r, r), mI = newm(r, r); DMat S = mS.dm(), I = mI.dm(); for (i = 0; i < r; i++) { S(i, i) = 60 + i; A_->m[mS.off + i + i * mS.ld] = 60 + i; } bool in = op_choose(2); if (in) { I = S; I.invert(); } else I = S.inverse();
        for (i = 0; i < r; i++) for (int j = 0; j < r; j++) { double s = 0; for (int h = 0; h < r; h++) s += mS.at(i, h) * I(h, j); SIM_CHECK(std::fabs(s - (i == j)) < 1e-12, "value", "a matrix times its inverse has %g at %d, %d", s, i, j); A_->m[mI.off + i + j * mI.ld] = I(i, j); } break; }
    }
    agree("matrix part", k);
}
extern "C" {
static void cpp_mat(void) {
    uint64_t mark = sim_heap_mark(); aa_mem_region_local_init((size_t)op_range(1, 4000)); 
    for (int n = op_range(1, 8); n > 0; n--) { arena A; A_ = &A; int k = (int)op_choose(4), r = op_range(1, 5), c = op_range(1, 5); if (k == 0) vecs(r, c); else if (k == 1) views(op_range(1, 9)); else if (k == 2) mats(r, c, op_range(1, 4)); else parts(r, c); sim_state((uint64_t)(k * 100 + r * 10 + c)); }
    A_ = NULL; aa_mem_region_local_destroy(); LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P31", cpp_mem, cpp_mem, 3);
SIM_SCENARIO("P31", cpp_threads, cpp_threads, 1);
SIM_SCENARIO("P31", cpp_mat, cpp_mat, 4);
}
