/* Collision checking: allowed pairs through edits; contexts against an exact geometric oracle; contexts on several threads. */
#include "clmodel.h"
/* ------------------------------------------------------------ contexts */
struct ctx { struct aa_rx_cl *cl; int al[NN][NN]; };
static int allowed_in(const struct m_sg *m, int i, int j) { return m->allow[i][j]; }
static void poses(const struct m_sg *m, const struct aa_rx_sg *sg, double TF[NN][7], double W[NN][7], int free_) {
    /* TF by id for the call, W by model frame */
    if (free_) for (int i = 0; i < NN; i++) { if (m->f[i].live) { m_randq(W[i]); for (int k = 0; k < 3; k++) W[i][4 + k] = op_unit(); } }
    else { int nc = m_ncfg(m); double q[NN + 1]; m_randcfg(q, nc); for (int i = 0; i < NN; i++) if (m->f[i].live) m_abs(m, sg, q, i, W[i]); struct aa_dvec v = AA_DVEC_INIT((size_t)nc, q, 1); if (g_fk) { aa_rx_fk_destroy(g_fk); } g_fk = aa_rx_fk_malloc(sg); aa_rx_fk_all(g_fk, &v); }
    for (int i = 0; i < NN; i++) if (m->f[i].live) memcpy(TF[aa_rx_sg_frame_id(sg, m_names[i])], W[i], 56);
}
static void expect(const struct m_sg *m, double W[NN][7], int al[NN][NN], int want[NN][NN]) {
    for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) {
        want[i][j] = 0;
        if (!m->f[i].live || !m->f[j].live || al[i][j]) continue;
        int mesh; double g = frame_gap(m, i, j, W[i], W[j], &mesh);
        want[i][j] = g < -CLEAR ? 1 : g > CLEAR ? 0 : -1;
    }
}
static void check_one(const struct m_sg *m, const struct aa_rx_sg *sg, struct ctx *c) {
    double TF[NN][7], W[NN][7]; int want[NN][NN], nf = m_live(m), any = 0, unclear = 0, byfk = (int)op_choose(2);
    struct aa_rx_fk *fk = NULL;
    if (byfk) { int nc = m_ncfg(m); double q[NN + 1]; m_randcfg(q, nc); struct aa_dvec v = AA_DVEC_INIT((size_t)nc, q, 1); fk = aa_rx_fk_malloc(sg); aa_rx_fk_all(fk, &v); for (int i = 0; i < NN; i++) if (m->f[i].live) m_abs(m, sg, q, i, W[i]); }
    else poses(m, sg, TF, W, 1);
    expect(m, W, c->al, want);
    for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) { if (want[i][j] > 0) any = 1; if (want[i][j] < 0) unclear = 1; }
    struct aa_rx_cl_set *set = op_choose(3) ? aa_rx_cl_set_create(sg) : NULL;
    int pre_i = m_pick_live(m), pre_j = m_pick_live(m), pre = set && pre_i != pre_j && op_choose(4) == 3;
    if (pre) aa_rx_cl_set_set(set, aa_rx_sg_frame_id(sg, m_names[pre_i]), aa_rx_sg_frame_id(sg, m_names[pre_j]), 1);
    int r = byfk ? aa_rx_cl_check_fk(c->cl, fk, set) : aa_rx_cl_check(c->cl, (size_t)nf, TF[0], 7, set);
    if (any) sim_probe("collision found"); else sim_probe("free of collision");
    if (any) SIM_CHECK(r, "collision-missed", "no collision reported although frames overlap");
    else if (!unclear) SIM_CHECK(!r, "collision-invented", "collision reported although no frames overlap");
    if (set) for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (m->f[i].live && m->f[j].live) {
        aa_rx_frame_id a = aa_rx_sg_frame_id(sg, m_names[i]), b = aa_rx_sg_frame_id(sg, m_names[j]);
        int got = aa_rx_cl_set_get(set, a, b), in = pre && ((i == pre_i && j == pre_j) || (i == pre_j && j == pre_i));
        SIM_CHECK(got == aa_rx_cl_set_get(set, b, a), "collision-set", "the set is not symmetric");
        if (want[i][j] > 0 || in) SIM_CHECK(got, "collision-missed", "collision of '%s' and '%s' is not in the set", m_names[i], m_names[j]);
        else if (!want[i][j]) SIM_CHECK(!got, "collision-invented", "collision of '%s' and '%s' is in the set%s", m_names[i], m_names[j], c->al[i][j] ? " although it is allowed" : "");
    }
    if (set) aa_rx_cl_set_destroy(set);
    if (fk) aa_rx_fk_destroy(fk);
}
static int dist_wrong(const struct m_sg *m, int i, int j, double W[NN][7], double x, double g, const double *p0, const double *p1) {
    double w[3]; vsub(p0, p1, w);
    if (!(fabs(x - g) < 2e-3 * (1 + g))) return 1;
    if (has_mesh(m, i) || has_mesh(m, j)) return 0;     /* FCL does not promise the points of meshes */
    if (!(fabs(sqrt(vdot(w, w)) - x) < 5e-3 * (1 + x))) return 2;
    if (!(on_frame(m, i, W[i], p0) < 5e-3 && on_frame(m, j, W[j], p1) < 5e-3)) return 3;
    return 0;
}
static void dist_one(const struct m_sg *m, const struct aa_rx_sg *sg, struct ctx *c, struct aa_rx_cl_dist *d) {
    double W[NN][7], q[NN + 1], best = DBL_MAX; int nc = m_ncfg(m), any = 0, unclear = 0;
    struct aa_rx_fk *fk = aa_rx_fk_malloc(sg);
    if (op_choose(2)) { double TF[NN][7]; poses(m, sg, TF, W, 1); for (int k = 0; k < m_live(m); k++) memcpy(aa_rx_fk_ref(fk, k), TF[k], 56); }
    else { m_randcfg(q, nc); struct aa_dvec v = AA_DVEC_INIT((size_t)nc, q, 1); aa_rx_fk_all(fk, &v); for (int i = 0; i < NN; i++) if (m->f[i].live) m_abs(m, sg, q, i, W[i]); }
    int r = aa_rx_cl_dist_check(d, fk), i0 = m_pick_live(m);
    for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (m->f[i].live && m->f[j].live) {
        aa_rx_frame_id a = aa_rx_sg_frame_id(sg, m_names[i]), b = aa_rx_sg_frame_id(sg, m_names[j]);
        double x = aa_rx_cl_dist_get_dist(d, a, b), p0[3] = {0}, p1[3] = {0};
        if (i == j) { SIM_CHECK(x == 0, "distance", "distance of a frame to itself is %g", x); continue; }
        int mesh; double g = c->al[i][j] ? 1e9 : frame_gap(m, i, j, W[i], W[j], &mesh);
        if (i == i0 && x < best) best = x;
        if (g > 1e8) { SIM_CHECK(x == DBL_MAX, "distance", "distance of '%s' and '%s', which are %s, is %g", m_names[i], m_names[j], c->al[i][j] ? "allowed to collide" : "without geometry", x); continue; }
        double y = aa_rx_cl_dist_get_points(d, a, b, p0, p1);
        SIM_CHECK(x == y, "distance", "distances %g and %g", x, y);
        if (g > CLEAR) {
            /* FCL's GJK now and then stops early or gives a bad point: a defect must persist when the poses change a little */
            if (dist_wrong(m, i, j, W, x, g, p0, p1)) {
                double g2, y, r0[3], r1[3]; int bad = 1, what = 0;
                for (int t = 0; t < 4 && bad; t++) {
                    double W2[NN][7]; memcpy(W2, W, sizeof W2);
                    for (int f = 0; f < NN; f++) if (m->f[f].live) { for (int k = 0; k < 3; k++) { W2[f][k] += 0.02 * ((f * 5 + k * 3 + t * 7) % 11 - 5) / 5; W2[f][4 + k] += 0.02 * ((f * 7 + k * 5 + t * 3) % 13 - 6) / 6; }
                        double l = sqrt(vdot(W2[f], W2[f]) + W2[f][3] * W2[f][3]); for (int k = 0; k < 4; k++) W2[f][k] /= l; memcpy(aa_rx_fk_ref(fk, aa_rx_sg_frame_id(sg, m_names[f])), W2[f], 56); }
                    struct aa_rx_cl_dist *e = aa_rx_cl_dist_create(c->cl); aa_rx_cl_dist_check(e, fk);
                    y = aa_rx_cl_dist_get_points(e, a, b, r0, r1); g2 = frame_gap(m, i, j, W2[i], W2[j], &mesh);
                    aa_rx_cl_dist_destroy(e);
                    what = g2 > CLEAR ? dist_wrong(m, i, j, W2, y, g2, r0, r1) : 0;
                    if (!what) bad = 0;
                }
                if (!bad) { sim_probe("distance wrong only at one pose"); continue; }
                SIM_CHECK(what != 1, "distance", "distance of '%s' (%s) and '%s' (%s) is %g, expected %g", m_names[i], kinds(m, i), m_names[j], kinds(m, j), x, g);
                sim_violation("closest-points", "closest points of '%s' (%s) and '%s' (%s): %s", m_names[i], kinds(m, i), m_names[j], kinds(m, j), what == 2 ? "not as far apart as the distance" : "not on the frames");
            }
        } else if (g < -CLEAR) { any = 1; SIM_CHECK(x <= 0, "distance", "distance of the overlapping '%s' (%s) and '%s' (%s) is %g", m_names[i], kinds(m, i), m_names[j], kinds(m, j), x); }
        else unclear = 1;
    }
    if (any) SIM_CHECK(r, "collision-missed", "the distance check reports no collision although frames overlap");
    else if (!unclear) SIM_CHECK(!r, "collision-invented", "the distance check reports a collision although no frames overlap");
    aa_rx_frame_id other = -7; double pts[6] = {0}, x = aa_rx_cl_dist_get_min_dist(d, aa_rx_sg_frame_id(sg, m_names[i0]), &other, pts);
    SIM_CHECK(x == best, "distance", "minimum distance of '%s' is %g, expected %g", m_names[i0], x, best);
    if (best < DBL_MAX) {
        SIM_CHECK(aa_rx_cl_dist_get_dist(d, aa_rx_sg_frame_id(sg, m_names[i0]), other) == best, "distance", "closest frame of '%s' is %ld", m_names[i0], other);
        double p0[3], p1[3]; aa_rx_cl_dist_get_points(d, aa_rx_sg_frame_id(sg, m_names[i0]), other, p0, p1);
        SIM_CHECK(!memcmp(pts, p0, 24) && !memcmp(pts + 3, p1, 24), "closest-points", "points of the minimum distance differ");
    }
    aa_rx_fk_destroy(fk);
}
static void ctx_open(const struct m_sg *m, const struct aa_rx_sg *sg, struct ctx *c) { c->cl = aa_rx_cl_create(sg); for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) c->al[i][j] = allowed_in(m, i, j); }
static void ctx_op(const struct m_sg *m, const struct aa_rx_sg *sg, struct ctx *c) {
    int i = m_pick_live(m), j = m_pick_live(m), on = op_choose(4) != 3;
    switch (op_choose(7)) {
    case 0: if (i == j) break; aa_rx_cl_allow(c->cl, aa_rx_sg_frame_id(sg, m_names[i]), aa_rx_sg_frame_id(sg, m_names[j]), on); c->al[i][j] = c->al[j][i] = on; break;
    case 1: if (i == j) break; aa_rx_cl_allow_name(c->cl, m_names[i], m_names[j], on); c->al[i][j] = c->al[j][i] = on; break;
    case 2: { struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg); for (int k = op_range(0, 2); k > 0; k--) { i = m_pick_live(m), j = m_pick_live(m); if (i == j) continue; aa_rx_cl_set_set(s, aa_rx_sg_frame_id(sg, m_names[i]), aa_rx_sg_frame_id(sg, m_names[j]), 1); c->al[i][j] = c->al[j][i] = 1; }
        aa_rx_cl_allow_set(c->cl, s); aa_rx_cl_set_destroy(s); break; }
    case 3: { struct aa_rx_cl_dist *d = aa_rx_cl_dist_create(c->cl); for (int k = op_range(1, 2); k > 0; k--) dist_one(m, sg, c, d); aa_rx_cl_dist_destroy(d); break; }
    default: check_one(m, sg, c);
    }
}
static void allow_pair(struct m_sg *m, struct aa_rx_sg *sg, int byid) {
    int i = m_pick_live(m), j = m_pick_live(m), on = op_choose(3) != 2;
    if (i < 0 || i == j) return;
    if (byid) aa_rx_sg_allow_collision(sg, aa_rx_sg_frame_id(sg, m_names[i]), aa_rx_sg_frame_id(sg, m_names[j]), on);
    else aa_rx_sg_allow_collision_name(sg, m_names[i], m_names[j], on);
    m->allow[i][j] = m->allow[j][i] = on;
}
static struct aa_rx_sg *cl_scene(struct m_sg *m, int lo, int hi) {
    struct aa_rx_sg *sg = m_build(m, lo, hi);
    for (int i = 0; i < NN; i++) if (m->f[i].live) { for (int k = op_choose(5) == 4 ? 2 : op_choose(5) ? 1 : 0; k > 0; k--) attach(m, sg, i, 0); }
    return sg;
}
static void cl_history(void) {
    struct m_sg m, m2; uint64_t mark = sim_heap_mark();
    aa_mem_region_local_init((size_t)op_range(0, 400));
    n_shp = 0; g_fk = NULL;
    sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    struct aa_rx_sg *sg = cl_scene(&m, 2, 6), *cp = NULL;
    struct ctx cx[2];
    for (int round = op_range(1, 3); round > 0; round--) {
        for (int k = op_range(0, 2); k > 0; k--) allow_pair(&m, sg, 0);
        aa_rx_sg_init(sg);
        aa_rx_sg_cl_init(sg);
        int n = op_range(1, 2);
        for (int k = 0; k < n; k++) ctx_open(&m, sg, &cx[k]);
        for (int k = op_range(1, 6); k > 0; k--) ctx_op(&m, sg, &cx[op_choose((uint32_t)n)]);
        /* what the scene reports at a configuration, and learning from it */
        if (op_choose(2)) {
            int nc = m_ncfg(&m), want[NN][NN]; double q[NN + 1], W[NN][7]; m_randcfg(q, nc);
            for (int i = 0; i < NN; i++) if (m.f[i].live) m_abs(&m, sg, q, i, W[i]);
            expect(&m, W, m.allow, want);
            struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg);
            aa_rx_sg_get_collision(sg, (size_t)nc, q, s);
            int learn = (int)op_choose(2);
            if (learn) aa_rx_sg_allow_config(sg, (size_t)nc, q);
            for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (m.f[i].live && m.f[j].live) {
                int got = aa_rx_cl_set_get(s, aa_rx_sg_frame_id(sg, m_names[i]), aa_rx_sg_frame_id(sg, m_names[j]));
                if (want[i][j] > 0) SIM_CHECK(got, "collision-missed", "collision of '%s' and '%s' at a configuration is not reported", m_names[i], m_names[j]);
                if (want[i][j] == 0) SIM_CHECK(!got, "collision-invented", "collision of '%s' and '%s' at a configuration is reported%s", m_names[i], m_names[j], m.allow[i][j] ? " although it is allowed" : "");
                if (learn && got) { m.allow[i][j] = m.allow[j][i] = 1; sim_probe("collisions of a configuration allowed"); }
            }
            aa_rx_cl_set_destroy(s);
        }
        for (int k = 0; k < n; k++) aa_rx_cl_destroy(cx[k].cl);
        if (!cp && op_choose(3) == 2) { cp = aa_rx_sg_copy(sg); m2 = m; aa_rx_sg_cl_init(cp); sim_probe("copied"); }
        if (cp && op_choose(2)) { struct ctx c; ctx_open(&m2, cp, &c); check_one(&m2, cp, &c); aa_rx_cl_destroy(c.cl); }
        if (round > 1) switch (op_choose(4)) { /* edit */
        case 0: attach(&m, sg, m_pick_live(&m), 0); break;
        case 1: { int i = m_pick_live(&m), leaf = 1; for (int j = 0; j < NN; j++) if (m.f[j].live && m.f[j].parent == i) leaf = 0;
            if (leaf && m_live(&m) > 2) { aa_rx_sg_rm_frame(sg, m_names[i]); memset(&m.f[i], 0, sizeof m.f[i]); } break; }
        case 2: { int i = (int)op_choose(NN); if (!m.f[i].live) { m_add(&m, sg, i, m_pick_live(&m), 0); attach(&m, sg, i, 0); } break; }
        default: { int i = m_pick_live(&m), p = m_pick_live(&m); if (i != p && !m_is_anc(&m, i, p)) { double E[7]; m_randE(E); aa_rx_sg_reparent_name(sg, m_nm(p), m_names[i], E); memcpy(m.f[i].E, E, 56); m.f[i].parent = p; } }
        }
    }
    if (g_fk) { aa_rx_fk_destroy(g_fk); g_fk = NULL; }
    if (cp) { if (op_choose(2)) { aa_rx_sg_destroy(sg); sg = NULL; struct ctx c; ctx_open(&m2, cp, &c); check_one(&m2, cp, &c); aa_rx_cl_destroy(c.cl); } aa_rx_sg_destroy(cp); }
    if (sg) aa_rx_sg_destroy(sg);
    aa_mem_region_local_destroy();
    uint64_t h = 0; for (int i = 0; i < n_shp; i++) h = mixh(h, (uint64_t)shp[i].kind * 2 + (uint64_t)shp[i].col);
    sim_state(h);
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P17", cl_history, cl_history, 4);

static void check_allowed(const struct m_sg *m, const struct aa_rx_sg *sg, const char *which);
/* ---- one scene graph or copies of it, several threads, each with its own contexts */
static struct m_sg tm; static struct aa_rx_sg *tsg; static int t_init;
struct cl_arg { int n, own; struct ctx c; };
static void *cl_thread(void *a_) {
    struct cl_arg *a = a_;
    aa_mem_region_local_init((size_t)op_range(0, 300));
    struct aa_rx_sg *sg = a->own ? aa_rx_sg_copy(tsg) : tsg;
    if (a->own) { aa_rx_sg_cl_init(sg); sim_probe("copy initialised on a thread"); }
    else for (int n = a->n; n > 0; n--) ctx_op(&tm, sg, &a->c);
    if (a->own) {
        /* FCL recomputes the bounding volume of shared geometry when a context is made: not while others check */
        check_allowed(&tm, sg, "copy");
        aa_rx_sg_destroy(sg);
    } else aa_rx_cl_destroy(a->c.cl);
    aa_mem_region_local_destroy();
    return NULL;
}
static void cl_threads(void) {
    uint64_t mark = sim_heap_mark();
    sim_sched_swarm(1); sim_set_races(1);
    n_shp = 0; g_fk = NULL;
    tsg = cl_scene(&tm, 2, 4);
    for (int k = op_range(0, 2); k > 0; k--) allow_pair(&tm, tsg, 0);
    aa_rx_sg_init(tsg);
    t_init = op_choose(3) != 2;
    if (t_init) aa_rx_sg_cl_init(tsg);
    sim_tid t[3]; static struct cl_arg n[3]; int nt = op_range(2, 3);
    for (int k = 0; k < nt; k++) { n[k].n = op_range(1, 2); n[k].own = !t_init || op_choose(3) == 2; if (!n[k].own) ctx_open(&tm, tsg, &n[k].c); }
    for (int k = 0; k < nt; k++) t[k] = sim_spawn("checker", cl_thread, &n[k]);
    for (int k = 0; k < nt; k++) sim_join(t[k]);
    if (!t_init) { struct ctx c; aa_rx_sg_cl_init(tsg); ctx_open(&tm, tsg, &c); check_one(&tm, tsg, &c); aa_rx_cl_destroy(c.cl); }
    aa_rx_sg_destroy(tsg);
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P17", cl_threads, cl_threads, 1);

/* ------------------------------------------------------------ P15: allowed pairs */
static void check_allowed(const struct m_sg *m, const struct aa_rx_sg *sg, const char *which) {
    struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg);
    aa_rx_sg_cl_set_copy(sg, s);
    for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (m->f[i].live && m->f[j].live) {
        int got = aa_rx_cl_set_get(s, aa_rx_sg_frame_id(sg, m_names[i]), aa_rx_sg_frame_id(sg, m_names[j]));
        SIM_CHECK(got == aa_rx_cl_set_get(s, aa_rx_sg_frame_id(sg, m_names[j]), aa_rx_sg_frame_id(sg, m_names[i])), "allowed-pairs", "the set is not symmetric");
        SIM_CHECK(got == m->allow[i][j], "allowed-pairs", "%s: collision of '%s' and '%s' is %s", which, m_names[i], m_names[j], got ? "allowed but was not" : "not allowed but was");
    }
    aa_rx_cl_set_destroy(s);
}
static void set_algebra(const struct m_sg *m, const struct aa_rx_sg *sg) {
    int n = m_live(m), v[3][NN][NN]; struct aa_rx_cl_set *s[3];
    memset(v, 0, sizeof v);
    for (int k = 0; k < 3; k++) s[k] = aa_rx_cl_set_create(sg);
    for (int st = op_range(1, 14); st > 0 && n > 0; st--) {
        int a = (int)op_choose(3), b = (int)op_choose(3), i = (int)op_choose((uint32_t)n), j = (int)op_choose((uint32_t)n), on = op_choose(3) ? 1 : 0;
        switch (op_choose(7)) {
        case 0: case 1: case 2: aa_rx_cl_set_set(s[a], i, j, on ? op_range(1, 3) : 0); v[a][i][j] = v[a][j][i] = on; break;
        case 3: aa_rx_cl_set_fill(s[a], s[b]); for (i = 0; i < n; i++) for (j = 0; j < n; j++) v[a][i][j] |= v[b][i][j]; break;
        case 4: for (i = 0; i < n; i++) { aa_rx_cl_set_set(s[b], i, i, 0); v[b][i][i] = 0; } aa_rx_cl_set_merge(s[a], s[b]); for (i = 0; i < n; i++) for (j = 0; j < n; j++) v[a][i][j] |= v[b][i][j]; break;
        case 5: if (op_choose(3) == 2) { aa_rx_cl_set_clear(s[a]); memset(v[a], 0, sizeof v[a]); } break;
        default: break;
        }
        for (int k = 0; k < 3; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
            int got = aa_rx_cl_set_get(s[k], i, j);
            SIM_CHECK(got == v[k][i][j], "set", "pair (%d,%d) of a set is %d, expected %d", i, j, got, v[k][i][j]);
        }
    }
    for (int k = 0; k < 3; k++) aa_rx_cl_set_destroy(s[k]);
}
static void allow_history(void) {
    struct m_sg m, m2; uint64_t mark = sim_heap_mark();
    aa_mem_region_local_init((size_t)op_range(0, 400));
    n_shp = 0; g_fk = NULL;
    sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    struct aa_rx_sg *sg = m_build(&m, 1, 6), *cp = NULL; int clean = 0;
    for (int k = op_range(1, 16); k > 0; k--) {
        switch (op_choose(9)) {
        case 0: case 1: allow_pair(&m, sg, 0); break;
        case 2: if (clean) allow_pair(&m, sg, 1); break;
        case 3: { int i = (int)op_choose(NN); aa_rx_sg_rm_frame(sg, m_names[i]); memset(&m.f[i], 0, sizeof m.f[i]); clean = 0; break; }
        case 4: { int i = (int)op_choose(NN), p = m_pick_live(&m); if (p == i || (p >= 0 && m_is_anc(&m, i, p))) p = -1; m_add(&m, sg, i, p, 0); clean = 0; break; }
        case 5: { int i = m_pick_live(&m), p = m_pick_live(&m); if (i >= 0 && i != p && !m_is_anc(&m, i, p)) { double E[7]; m_randE(E); aa_rx_sg_reparent_name(sg, m_nm(p), m_names[i], E); memcpy(m.f[i].E, E, 56); m.f[i].parent = p; clean = 0; } break; }
        case 6: if (!m_broken(&m) && m_live(&m)) { aa_rx_sg_init(sg); clean = 1; aa_rx_sg_cl_init(sg); check_allowed(&m, sg, "graph"); if (op_choose(3) == 2) set_algebra(&m, sg); } break;
        case 7: if (clean && !cp && m_live(&m)) { cp = aa_rx_sg_copy(sg); m2 = m; aa_rx_sg_cl_init(cp); check_allowed(&m2, cp, "copy"); sim_probe("copied"); } break;
        default: if (cp) { if (op_choose(2)) allow_pair(&m2, cp, 1); aa_rx_sg_cl_init(cp); check_allowed(&m2, cp, "copy"); if (op_choose(3) == 2) { aa_rx_sg_destroy(cp); cp = NULL; } } break;
        }
    }
    if (!m_broken(&m) && m_live(&m)) { aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg); check_allowed(&m, sg, "graph"); }
    if (cp) { check_allowed(&m2, cp, "copy"); aa_rx_sg_destroy(cp); }
    aa_rx_sg_destroy(sg);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P15", allow_history, allow_history, 1);
