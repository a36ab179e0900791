/* Scene graph: edit histories against a model; concurrent readers. */
#include "sgmodel.h"
#include "amino/rx/scenegraph_internal.h"

static struct aa_rx_geom *new_geom(void) {
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    struct aa_rx_geom *g = aa_rx_geom_sphere(o, 0.1 + op_choose(4));
    aa_rx_geom_opt_destroy(o);
    return g;
}
static void check_all(const struct m_sg *m, struct aa_rx_sg *sg) {
    m_check_struct(m, sg);
    m_check_fk(m, sg);
    m_check_chain(m, sg);
    if (op_choose(2)) m_check_partial(m, sg);
    if (op_choose(2)) m_check_multichain(m, sg);
    uint64_t h = 0;
    for (int i = 0; i < NN; i++) if (m->f[i].live) h = mixh(h, (uint64_t)i * 100 + (uint64_t)(m->f[i].parent + 1) * 4 + m->f[i].type);
    sim_state(h);
}
/* what is out of date and has to be initialized again */
static void check_flags(struct aa_rx_sg *sg, int frames, int gl, int cl, const char *when) {
    if (frames >= 0) SIM_CHECK(aa_rx_sg_is_clean(sg) == frames, "clean", "aa_rx_sg_is_clean() is %d %s", aa_rx_sg_is_clean(sg), when);
    if (gl >= 0) SIM_CHECK(aa_rx_sg_is_clean_gl(sg) == gl, "clean", "aa_rx_sg_is_clean_gl() is %d %s", aa_rx_sg_is_clean_gl(sg), when);
    if (cl >= 0) SIM_CHECK(aa_rx_sg_is_clean_collision(sg) == cl, "clean", "aa_rx_sg_is_clean_collision() is %d %s", aa_rx_sg_is_clean_collision(sg), when);
}
static void mark_clean(struct aa_rx_sg *sg) {
    int gl = aa_rx_sg_is_clean_gl(sg), cl = aa_rx_sg_is_clean_collision(sg), fr = aa_rx_sg_is_clean(sg);
    if (op_choose(2)) { aa_rx_sg_clean_gl(sg); check_flags(sg, fr, 1, cl, "after aa_rx_sg_clean_gl()"); gl = 1; }
    if (op_choose(2)) { aa_rx_sg_clean_collision(sg); check_flags(sg, fr, gl, 1, "after aa_rx_sg_clean_collision()"); cl = 1; }
    if (gl) aa_rx_sg_ensure_clean_gl(sg);
    if (cl) aa_rx_sg_ensure_clean_collision(sg);
    if (op_choose(4) == 0) { aa_rx_sg_dirty_geom(sg); check_flags(sg, fr, 0, 0, "after aa_rx_sg_dirty_geom()"); }
}
static void edit(struct m_sg *m, struct aa_rx_sg *sg, int *clean) {
    switch (op_choose(13)) {
    case 0: case 1: case 2: { /* add, possibly replacing, possibly under a parent that does not exist yet */
        int i = (int)op_choose(NN), p = op_choose(8) == 7 ? (int)op_choose(NN) : m_pick_live(m);
        if (op_choose(3) == 0) p = -1;
        if (p == i) p = -1;
        m_add(m, sg, i, p, 1);
        *clean = 0;
        check_flags(sg, 0, -1, -1, "after adding a frame");
        sim_log("add '%s' under '%s' type %d", m_names[i], m_nm(p), m->f[i].type);
        break; }
    case 3: {
        int i = (int)op_choose(NN);
        aa_rx_sg_rm_frame(sg, m_names[i]);
        if (m->f[i].live) check_flags(sg, 0, -1, -1, "after removing a frame");
        sim_log("remove '%s'", m_names[i]);
        memset(&m->f[i], 0, sizeof m->f[i]);
        *clean = 0;
        break; }
    case 4: case 5: {
        int i = m_pick_live(m), p = op_choose(3) == 0 ? -1 : m_pick_live(m);
        if (i < 0 || i == p) break;
        int cyc = p >= 0 && m_is_anc(m, i, p);
        if (cyc && op_choose(3)) break;
        double E[7]; m_randE(E);
        if (*clean && op_choose(2)) aa_rx_sg_reparent_id(sg, p < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, m_names[p]), aa_rx_sg_frame_id(sg, m_names[i]), E);
        else aa_rx_sg_reparent_name(sg, p < 0 && op_choose(2) ? NULL : m_nm(p), m_names[i], E);
        memcpy(m->f[i].E, E, sizeof E); m->f[i].parent = p;
        *clean = 0;
        check_flags(sg, 0, -1, -1, "after moving a frame to another parent");
        sim_log("reparent '%s' to '%s'%s", m_names[i], m_nm(p), cyc ? " (cycle)" : "");
        break; }
    case 6: case 7: { const char *c = op_choose(4) == 0 ? m_names[op_choose(NN)] : m_cfgs[op_choose(NC)]; m_setlimit(m, sg, c); sim_log("set limit of '%s'", c); break; }
    case 8: {
        int i = m_pick_live(m);
        if (i < 0) break;
        struct m_frame *f = &m->f[i];
        f->has_in = 1; f->mass = 1 + op_choose(5);
        for (int k = 0; k < 9; k++) f->in[k] = op_unit();
        aa_rx_sg_frame_set_inertial(sg, m_names[i], f->mass, f->in);
        sim_log("set inertia of '%s'", m_names[i]);
        break; }
    case 9: case 10: {
        int i = m_pick_live(m);
        if (i < 0 || m->f[i].ng >= 8) break;
        struct aa_rx_geom *g = new_geom();
        aa_rx_geom_attach(sg, m_names[i], g);
        m->f[i].g[m->f[i].ng++] = g;
        check_flags(sg, -1, 0, 0, "after attaching a geometry");
        break; }
    case 11: {
        int i = m_pick_live(m), j = m_pick_live(m);
        if (i < 0 || i == j || m->f[i].ng + m->f[j].ng > 8) break;
        aa_rx_sg_copy_frame_geom(sg, m_names[i], m_names[j]);
        for (int k = 0; k < m->f[i].ng; k++) m->f[j].g[m->f[j].ng++] = m->f[i].g[k];
        if (m->f[i].ng) check_flags(sg, -1, 0, 0, "after copying geometry");
        break; }
    default: {
        int i = m_pick_live(m), j = m_pick_live(m);
        if (i < 0 || i == j) break;
        int on = (int)op_choose(2);
        aa_rx_sg_allow_collision_name(sg, m_names[i], m_names[j], on);
        if (m->allow[i][j] != on) check_flags(sg, -1, -1, 0, "after changing the allowed collisions");
        m->allow[i][j] = m->allow[j][i] = on;
        break; }
    }
}
static void sg_history(void) {
    struct m_sg m, m2;
    uint64_t mark = sim_heap_mark();
    aa_mem_region_local_init((size_t)op_range(0, 400));
    struct aa_rx_sg *sg = m_build(&m, 0, 5), *other = NULL;
    int clean = 0;
    sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a);
    for (int k = op_range(1, 16); k > 0; k--) {
        edit(&m, sg, &clean);
        if (op_choose(4) == 0) mark_clean(sg);
        if (op_choose(3) == 0) {
            int br = m_broken(&m), r = aa_rx_sg_init(sg);
            sim_log("init -> %d", r);
            SIM_CHECK((r != 0) == (br != 0), "init", "aa_rx_sg_init() returned %d for a graph %s", r, br == 1 ? "with a missing parent" : br ? "with a cycle" : "that is well formed");
            clean = !br;
            check_flags(sg, clean, -1, -1, clean ? "after initializing" : "after an initialization that failed");
        }
        if (clean && op_choose(3) == 0) check_all(&m, sg);
        if (clean && !other && op_choose(6) == 0) { /* deep copy; then both go their own ways */
            other = aa_rx_sg_copy(sg); m2 = m;
            check_all(&m2, other);
            sim_probe("copied");
            if (op_choose(2)) { struct aa_rx_sg *t = sg; sg = other; other = t; m_check_struct(&m2, other); }
        }
        if (other && op_choose(4) == 0) { m_check_struct(&m2, other); if (op_choose(2)) { aa_rx_sg_destroy(other); other = NULL; } }
    }
    if (!m_broken(&m)) { int r = aa_rx_sg_init(sg); SIM_CHECK(!r, "init", "aa_rx_sg_init() returned %d for a well-formed graph", r); check_all(&m, sg); }
    if (other) { check_all(&m2, other); aa_rx_sg_destroy(other); }
    aa_rx_sg_destroy(sg);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P14", sg_history, sg_history, 5);

/* ---- many readers of one scene graph */
static struct m_sg shm;
static struct aa_rx_sg *shsg;
static void *reader(void *p) {
    int n = *(int *)p;
    aa_mem_region_local_init((size_t)op_range(0, 300));
    for (; n > 0; n--) {
        switch (op_choose(5)) {
        case 0: m_check_struct(&shm, shsg); break;
        case 1: case 2: m_check_fk(&shm, shsg); break;
        case 3: m_check_chain(&shm, shsg); m_check_multichain(&shm, shsg); break;
        default: { struct aa_rx_sg *c = aa_rx_sg_copy(shsg); m_check_struct(&shm, c); m_check_fk(&shm, c); aa_rx_sg_destroy(c); }
        }
    }
    aa_mem_region_local_destroy();
    return NULL;
}
static void sg_readers(void) {
    uint64_t mark = sim_heap_mark();
    sim_sched_swarm(1); sim_set_races(1);
    shsg = m_build(&shm, 1, 6);
    for (int k = op_range(0, 3); k > 0; k--) { int i = m_pick_live(&shm); struct aa_rx_geom *g = new_geom(); aa_rx_geom_attach(shsg, m_names[i], g); shm.f[i].g[shm.f[i].ng++] = g; }
    aa_rx_sg_init(shsg);
    sim_tid t[3]; static int n[3];
    int nt = op_range(2, 3);
    for (int k = 0; k < nt; k++) { n[k] = op_range(1, 3); t[k] = sim_spawn("reader", reader, &n[k]); }
    for (int k = 0; k < nt; k++) sim_join(t[k]);
    aa_rx_sg_destroy(shsg);
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P16", sg_readers, sg_readers, 1);
