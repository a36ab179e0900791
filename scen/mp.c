/* Motion planning contexts: histories of requests and plans against an exact geometric oracle. */
#include "clmodel.h"
#include <amino/rx/scene_planning.h>
#include <amino/rx/scene_sub.h>
#include <amino/rx/scene_fk.h>
void mp_ompl_seed(unsigned);
void mp_ompl_flush(void);
#define MAXQ 12
struct req {
    struct m_sg m; struct aa_rx_sg *sg; struct aa_rx_sg_sub *ssg; struct aa_rx_mp *mp;
    int nq, ns, sub[MAXQ]; double lo[MAXQ], hi[MAXQ], extent;
    int have_start; double start[MAXQ];
    int goal; double qgoal[MAXQ], E[7]; int gframe, rootf, tele;
    int simplify, track, planner, al[NN][NN], sgal[NN][NN];
    double Eplan[7]; int planned; /* where the goal was, in the frame of the chain's root, at the last success */
};
static void mp_worlds(struct req *r, const double *q, double W[NN][7]) { for (int i = 0; i < NN; i++) if (r->m.f[i].live) m_abs(&r->m, r->sg, q, i, W[i]); }
static int m_geoms(const struct m_sg *m, int i) { int n = 0; for (int a = 0; a < m->f[i].ng; a++) n += shp_of(m->f[i].g[a])->col; return n; }
/* 1 certainly overlapping, 0 certainly not, -1 unclear */
static int mp_pair(struct req *r, double W[NN][7], int i, int j) {
    if (!m_geoms(&r->m, i) || !m_geoms(&r->m, j)) return 0;
    int mesh; double g = frame_gap(&r->m, i, j, W[i], W[j], &mesh);
    return g < -CLEAR ? 1 : g > CLEAR ? 0 : -1;
}
static void adopt_allowed(struct req *r, const double *q, int si, int sj, int on) {
    struct aa_rx_cl_set *s = aa_rx_mp_get_allowed(r->mp); double W[NN][7];
    if (q) mp_worlds(r, q, W);
    for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (r->m.f[i].live && r->m.f[j].live) {
        int got = aa_rx_cl_set_get(s, aa_rx_sg_frame_id(r->sg, m_names[i]), aa_rx_sg_frame_id(r->sg, m_names[j])), want = r->al[i][j];
        if ((i == si && j == sj) || (i == sj && j == si)) want = on;
        else if (q && !want) want = r->sgal[i][j] ? -1 : mp_pair(r, W, i, j); /* pairs that the scene graph allows need not be examined */
        if (want >= 0) SIM_CHECK(got == want, "allowed", "collision of '%s' and '%s' is %s", m_names[i], m_names[j], got ? "allowed but was not" : "not allowed but was");
        r->al[i][j] = r->al[j][i] = got;
    }
}
static void rand_all(struct req *r, double *q) {
    for (int k = 0; k < r->nq; k++) { double u = (op_unit() + 1) / 2; q[k] = r->lo[k] + u * (r->hi[k] - r->lo[k]); }
}
static int mp_free_world(struct req *r) { for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (r->m.f[i].live && r->m.f[j].live && m_geoms(&r->m, i) && m_geoms(&r->m, j) && !r->al[i][j]) return 0; return 1; }
/* any pair that is not allowed: 1 certain overlap, 0 all clear, -1 unclear; names in *pi,*pj */
static int mp_state(struct req *r, const double *q, int *pi, int *pj) {
    double W[NN][7]; int res = 0; mp_worlds(r, q, W);
    for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (r->m.f[i].live && r->m.f[j].live && !r->al[i][j]) {
        int x = mp_pair(r, W, i, j);
        if (x > 0) { *pi = i; *pj = j; return 1; }
        if (x < 0) res = -1;
    }
    return res;
}
static double q_angle(const double *a, const double *b) { double d = fabs(a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]); return d >= 1 ? 0 : 2 * acos(d); }
static void mp_check_path(struct req *r, size_t n, const double *p) {
    int nq = r->nq, insub[MAXQ] = {0};
    for (int k = 0; k < r->ns; k++) insub[r->sub[k]] = 1;
    SIM_CHECK(n > 0 && p, "path", "a plan was found but has no points");
    SIM_CHECK(sim_heap_addressable(p, sizeof(double) * n * (size_t)nq) != 0, "path", "the path is shorter than its number of points");
    for (int k = 0; k < nq; k++) SIM_CHECK(fabs(p[k] - r->start[k]) < 1e-9, "start", "the path starts at %g, not at the start %g (variable %d)", p[k], r->start[k], k);
    for (size_t t = 0; t < n; t++) for (int k = 0; k < nq; k++) {
        double x = p[t * (size_t)nq + (size_t)k];
        if (!insub[k]) SIM_CHECK(x == r->start[k], "other-joints", "point %zu moves variable %d, which is not planned for", t, k);
        else SIM_CHECK(x >= r->lo[k] - 1e-9 && x <= r->hi[k] + 1e-9, "limits", "point %zu: variable %d is %g, limits %g..%g", t, k, x, r->lo[k], r->hi[k]);
    }
    const double *e = p + (n - 1) * (size_t)nq;
    if (r->goal == 1) { for (int k = 0; k < r->ns; k++) SIM_CHECK(fabs(e[r->sub[k]] - r->qgoal[k]) < 1e-9, "goal", "the path ends at %g, not at the goal %g (variable %d)", e[r->sub[k]], r->qgoal[k], k); }
    else {
        double W[7], d = 0; m_abs(&r->m, r->sg, e, r->gframe, W);
        for (int k = 4; k < 7; k++) d += (W[k] - r->E[k]) * (W[k] - r->E[k]);
        SIM_CHECK(sqrt(d) < 1e-3 && q_angle(W, r->E) < 0.01, "goal", "the path ends %g and %g rad away from the workspace goal", sqrt(d), q_angle(W, r->E));
    }
    /* collisions */
    double res = 0.01 * r->extent, run = 0; int ri = -1, rj = -1, pi, pj;
    for (size_t t = 0; t < n && !r->simplify; t++)
        if (mp_state(r, p + t * (size_t)nq, &pi, &pj) > 0) sim_violation("collision", "point %zu of %zu of the path: '%s' and '%s' collide", t, n, m_names[pi], m_names[pj]);
    for (size_t t = 0; t + 1 < n; t++) {
        const double *a = p + t * (size_t)nq, *b = a + nq; double len = 0, q[MAXQ];
        for (int k = 0; k < nq; k++) len += (b[k] - a[k]) * (b[k] - a[k]);
        len = sqrt(len);
        int ks = (int)ceil(4 * len / res); if (ks > 400) ks = 400; if (ks < 1) ks = 1;
        for (int s = 0; s < ks; s++) {
            for (int k = 0; k < nq; k++) q[k] = a[k] + (b[k] - a[k]) * s / ks;
            if (mp_state(r, q, &pi, &pj) > 0 ) {
                if (pi != ri || pj != rj) { ri = pi; rj = pj; run = 0; } else run += len / ks;
                SIM_CHECK(run <= (r->simplify ? 3.1 : 1.05) * res, "collision", "'%s' and '%s' collide while moving from point %zu to %zu of %zu", m_names[pi], m_names[pj], t, t + 1, n);
            } else { ri = rj = -1; }
        }
    }
}
static void mp_plan1(struct req *r) {
    if (r->goal == 2 && r->rootf >= 0 && r->planned) { double W[7], d = 0; m_abs(&r->m, r->sg, r->start, r->rootf, W); for (int k = 0; k < 7; k++) d += fabs(W[k] - r->Eplan[k]); if (d > 1e-3) sim_probe("planned for the same goal from a moved base"); }
    size_t n = 77; double *p = (double *)8; int64_t t0 = sim_now_ns();
    static const double to[] = {0.02, 0.005, 0.05, 0.001};
    double tmo = r->tele ? to[op_choose(2) * 2] : to[op_choose(4)];
    int x = aa_rx_mp_plan(r->mp, tmo, &n, &p);
    double el = (double)(sim_now_ns() - t0) * 1e-9;
    sim_log("plan: %d, %zu points, %g s of %g", x, x ? 0 : n, el, tmo);
    if (x) {
        SIM_CHECK(n == 0 && !p, "path", "no plan was found, yet there are %zu points", n);
        sim_probe(r->goal == 2 ? "no plan to workspace goal" : "no plan");
        SIM_CHECK(!(mp_free_world(r) && r->goal == 1 && r->have_start && tmo > 0.01 && r->planner < 2), "progress", "no plan was found although nothing can collide");
    } else {
        SIM_CHECK(r->have_start && r->goal, "path", "a plan was found without a start and a goal");
        mp_check_path(r, n, p);
        sim_probe(r->goal == 2 ? "plan to workspace goal" : "plan");
        if (mp_free_world(r) && r->goal == 1 && tmo > 0.01 && r->planner < 2) sim_probe("plan in a free world");
        if (r->goal == 2 && r->rootf >= 0) { m_abs(&r->m, r->sg, r->start, r->rootf, r->Eplan); r->planned = 1; }
        if (n > 2) sim_probe("plan with a detour");
        if (r->simplify) sim_probe("simplified plan");
        free(p);
    }
    if (!r->simplify) SIM_CHECK(el < tmo + 0.2, "deadline", "planning took %g s with a limit of %g s", el, tmo);
    if (r->track) {
        const struct aa_rx_cl_set *s = aa_rx_mp_get_collisions(r->mp);
        SIM_CHECK(s != NULL, "track", "collisions are tracked but not available");
        for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) if (r->m.f[i].live && r->m.f[j].live && aa_rx_cl_set_get(s, aa_rx_sg_frame_id(r->sg, m_names[i]), aa_rx_sg_frame_id(r->sg, m_names[j]))) {
            SIM_CHECK(!r->al[i][j] && m_geoms(&r->m, i) && m_geoms(&r->m, j), "track", "the tracked collision of '%s' and '%s' cannot have happened", m_names[i], m_names[j]);
            sim_probe("tracked collision");
        }
    } else SIM_CHECK(!aa_rx_mp_get_collisions(r->mp), "track", "collisions are not tracked but available");
}
static void mp_op(struct req *r, int op) {
    double q[MAXQ]; int i, j;
    switch (op) {
    case 0: rand_all(r, q); aa_rx_mp_set_start(r->mp, (size_t)r->nq, q); adopt_allowed(r, q, -1, -1, 0); memcpy(r->start, q, sizeof q); r->have_start = 1; memset(q, 0x77, sizeof q); break;
    case 8: /* joints outside the plan move a little */
        for (i = 0; i < r->nq; i++) { for (j = 0; j < r->ns && r->sub[j] != i; j++); q[i] = r->start[i]; if (j == r->ns) { q[i] += op_unit() * 0.3; if (q[i] < r->lo[i]) q[i] = r->lo[i]; if (q[i] > r->hi[i]) q[i] = r->hi[i]; } }
        aa_rx_mp_set_start(r->mp, (size_t)r->nq, q); adopt_allowed(r, q, -1, -1, 0); memcpy(r->start, q, sizeof q); sim_probe("start moved under a goal"); memset(q, 0x77, sizeof q); break;
    case 1: {
        double g[MAXQ]; rand_all(r, q); for (int k = 0; k < r->ns; k++) g[k] = q[r->sub[k]];
        int x = aa_rx_mp_set_goal(r->mp, (size_t)r->ns, g);
        if (r->have_start) {
            for (int k = 0; k < r->nq; k++) q[k] = r->start[k];
            for (int k = 0; k < r->ns; k++) q[r->sub[k]] = g[k];
            int s = mp_state(r, q, &i, &j);
            if (s > 0) SIM_CHECK(x, "goal-valid", "a goal at which '%s' and '%s' collide is accepted", m_names[i], m_names[j]);
            if (s == 0) SIM_CHECK(!x, "goal-valid", "a goal without collisions is refused");
        }
        if (!x) { r->goal = 1; memcpy(r->qgoal, g, sizeof g); } else sim_probe("goal refused");
        memset(g, 0x77, sizeof g);
        break; }
    case 2: {
        rand_all(r, q); if (r->have_start) { for (int k = 0, s = 0; k < r->nq; k++) { for (s = 0; s < r->ns && r->sub[s] != k; s++); if (s == r->ns) q[k] = r->start[k]; } }
        m_abs(&r->m, r->sg, q, r->gframe, r->E);
        if (op_choose(5) == 4) { r->E[4] += 100; sim_probe("unreachable workspace goal"); }
        aa_rx_frame_id id = aa_rx_sg_frame_id(r->sg, m_names[r->gframe]);
        double E[7]; memcpy(E, r->E, sizeof E);
        aa_rx_mp_set_wsgoal(r->mp, 1, op_choose(2) ? &id : NULL, E, 7);
        memset(E, 0x77, sizeof E);
        r->goal = 2; r->planned = 0; break; }
    case 3: rand_all(r, q); aa_rx_mp_allow_config(r->mp, (size_t)r->nq, q); adopt_allowed(r, q, -1, -1, 0); break;
    case 4: i = m_pick_live(&r->m); j = m_pick_live(&r->m); if (i == j) break;
        { int on = op_choose(3) != 2; aa_rx_mp_allow_collision(r->mp, aa_rx_sg_frame_id(r->sg, m_names[i]), aa_rx_sg_frame_id(r->sg, m_names[j]), on); adopt_allowed(r, NULL, i, j, on); } break;
    case 5: r->simplify = (int)op_choose(2); aa_rx_mp_set_simplify(r->mp, r->simplify); break;
    case 6: r->track = (int)op_choose(2); aa_rx_mp_set_track_collisions(r->mp, r->track); break;
    case 7: r->planner = op_range(1, r->ns > 2 ? 4 : 2); /* OMPL's own projections of one or two dimensions fail an assertion */
        switch (r->planner) {
        case 1: { struct aa_rx_mp_rrt_attr *a = op_choose(2) ? aa_rx_mp_rrt_attr_create() : NULL; aa_rx_mp_set_rrt(r->mp, a); if (a) aa_rx_mp_rrt_attr_destroy(a); break; }
        case 2: { struct aa_rx_mp_rrt_attr *a = aa_rx_mp_rrt_attr_create(); aa_rx_mp_rrt_attr_set_bidirectional(a, 0); aa_rx_mp_set_rrt(r->mp, a); aa_rx_mp_rrt_attr_destroy(a); break; }
        case 3: { struct aa_rx_mp_sbl_attr *a = op_choose(2) ? aa_rx_mp_sbl_attr_create() : NULL; aa_rx_mp_set_sbl(r->mp, a); if (a) aa_rx_mp_sbl_attr_destroy(a); break; }
        case 4: { struct aa_rx_mp_kpiece_attr *a = op_choose(2) ? aa_rx_mp_kpiece_attr_create() : NULL; aa_rx_mp_set_kpiece(r->mp, a); if (a) aa_rx_mp_kpiece_attr_destroy(a); break; }
        } break;
    }
    if (r->track && op == 6) { /* nothing planned yet */ }
}
static int mp_setup(struct req *r, int ws) {
    memset(r, 0, sizeof *r);
    n_shp = 0; g_fk = NULL;
    mp_ompl_seed(1 + cfg_choose(1000000));
    r->sg = ws == 2 ? m_build(&r->m, 4, 7) : m_build(&r->m, 2, 5);
    r->m.nl = 0;
    /* position limits for every variable */
    for (int i = 0; i < NN; i++) if (r->m.f[i].live && r->m.f[i].type != AA_RX_FRAME_FIXED) {
        double w = op_choose(3) == 2 ? 0.5 : 1.5, c = op_choose(3) == 2 ? op_unit() : 0;
        struct m_limit *l = m_lim(&r->m, r->m.f[i].cfg, 1);
        if (l->has[0]) continue;
        l->has[0] = 1; l->lo[0] = c - w; l->hi[0] = c + w;
        aa_rx_sg_set_limit_pos(r->sg, r->m.f[i].cfg, c - w, c + w);
    }
    for (int i = 0; i < NN; i++) if (r->m.f[i].live && (ws == 2 ? op_choose(4) == 3 : op_choose(4) != 3)) attach(&r->m, r->sg, i, 1);
    for (int k = op_range(0, 2); k > 0; k--) { int i = m_pick_live(&r->m), j = m_pick_live(&r->m); if (i != j) { aa_rx_sg_allow_collision_name(r->sg, m_names[i], m_names[j], 1); r->al[i][j] = r->al[j][i] = 1; } }
    memcpy(r->sgal, r->al, sizeof r->al);
    aa_rx_sg_init(r->sg); aa_rx_sg_cl_init(r->sg);
    r->nq = (int)aa_rx_sg_config_count(r->sg);
    for (int k = 0; k < r->nq; k++) { struct m_limit *l = m_lim(&r->m, aa_rx_sg_config_name(r->sg, k), 0); r->lo[k] = l->lo[0]; r->hi[k] = l->hi[0]; }
    /* a chain with at least one variable */
    r->gframe = m_pick_live(&r->m);
    int root = -1;
    if (ws && (ws == 2 || op_choose(2))) for (int t = 0; t < 8 && root < 0; t++) { /* some variable upstream of the chain */
        r->gframe = m_pick_live(&r->m); int up = -1, below = 0;
        for (int k = r->gframe; k >= 0; k = r->m.f[k].parent) { if (up < 0 && below && op_choose(2)) up = k; if (up >= 0 && r->m.f[k].type != AA_RX_FRAME_FIXED) { root = up; break; } if (r->m.f[k].type != AA_RX_FRAME_FIXED) below = 1; }
    }
    if (root < 0 && op_choose(2)) { root = r->gframe; for (int k = op_range(1, 3); k > 0 && root >= 0; k--) root = r->m.f[root].parent; }
    r->rootf = root;
    r->ssg = aa_rx_sg_chain_create(r->sg, root < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(r->sg, m_names[root]), aa_rx_sg_frame_id(r->sg, m_names[r->gframe]));
    r->ns = (int)aa_rx_sg_sub_config_count(r->ssg);
    if (!r->ns) { aa_rx_sg_sub_destroy(r->ssg); aa_rx_sg_destroy(r->sg); return 0; }
    for (int k = 0; k < r->ns; k++) { r->sub[k] = (int)aa_rx_sg_sub_config(r->ssg, (size_t)k); double w = r->hi[r->sub[k]] - r->lo[r->sub[k]]; r->extent += w * w; }
    r->extent = sqrt(r->extent);
    r->mp = aa_rx_mp_create(r->ssg);
    adopt_allowed(r, NULL, -1, -1, 0);
    return 1;
}
static void mp_run(int ws) {
    static struct req r; mp_ompl_flush(); uint64_t mark = sim_heap_mark();
    aa_mem_region_local_init((size_t)op_range(0, 400));
    sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    if (mp_setup(&r, ws)) {
        if (op_choose(2)) mp_op(&r, 7);
        int plans = op_range(1, 3);
        if (ws == 2) { /* one goal, from here and from there */
            r.tele = 1; mp_op(&r, 0); mp_op(&r, 2); plans = op_range(2, 5);
            for (int k = 0; k < plans; k++) { if (k) { if (op_choose(4) == 3) mp_op(&r, 2); else mp_op(&r, 8); } mp_plan1(&r); }
            plans = 0;
        }
        for (int k = 0; k < plans; k++) {
            if (!k) { int first = (int)op_choose(4); if (first == 3 && !ws) { mp_op(&r, 1); mp_op(&r, 0); } else { if (first) mp_op(&r, 0); mp_op(&r, ws ? 2 : 1); } }
            static const unsigned char mix[] = {0, 1, 1, 3, 4, 4, 5, 6, 7, 2};
            if (ws && k && op_choose(2)) mp_op(&r, r.have_start ? 8 : 0); /* the same goal from elsewhere */
            for (int o = op_range(0, 3); o > 0; o--) mp_op(&r, mix[op_choose(ws ? 10 : 9)]);
            mp_plan1(&r);
        }
        if (op_choose(4) == 3) mp_op(&r, (int)op_choose(8));
        aa_rx_mp_destroy(r.mp);
        aa_rx_sg_sub_destroy(r.ssg);
        aa_rx_sg_destroy(r.sg);
    }
    mp_ompl_flush();
    aa_mem_region_local_destroy();
    uint64_t h = (uint64_t)r.goal * 8 + (uint64_t)r.planner; h = mixh(h, (uint64_t)r.ns); h = mixh(h, (uint64_t)(r.simplify * 4 + r.track * 2 + r.have_start)); sim_state(h);
    LEAKCHECK(mark, "leak");
}
static void mp_joint(void) { mp_run(0); }
static void mp_workspace(void) { sim_set_step_limit(300000000); sim_sched_swarm(1); sim_set_races(1); mp_run(1); }
static void mp_moved(void) { sim_set_step_limit(300000000); sim_sched_swarm(1); mp_run(2); }
SIM_SCENARIO("P18", mp_moved, mp_moved, 1);
SIM_SCENARIO("P18", mp_joint, mp_joint, 3);
SIM_SCENARIO("P18", mp_workspace, mp_workspace, 1);
