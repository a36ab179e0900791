/* Reference-counted geometry and meshes shared between threads and scene graphs. */
#include <amino.h>
#include <amino/mem.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/rxtype_internal.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scenegraph_internal.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_geom_internal.h>
#include "util.h"

#define MAXG 64
#define MAXM 6
/* One slot per geometry object ever created in a run. */
struct slot {
    struct aa_rx_geom *g;
    int kind;            /* shape */
    double d[4];         /* shape parameters */
    int flag[3]; double opt[8];       /* r g b a spec3 scale */
    int mesh;            /* mesh slot */
    int refs;            /* references not yet given to destroy */
    int cl_dead, gl_dead;
    int has_cl, has_gl;
};
struct mslot {
    struct aa_rx_mesh *m;
    size_t nv, ni;
    uint32_t seed;
    int refs;            /* caller references + live geoms */
    int dead;
};
static struct slot G[MAXG];
static struct mslot M[MAXM];
static int nG, nM;
static char cltag[MAXG], gltag[MAXG];

static void on_cl(struct aa_rx_cl_geom *p) {
    int i = (int)((char *)p - cltag);
    SIM_CHECK(i >= 0 && i < nG && G[i].has_cl, "wrong-cleanup", "collision data cleanup for an unknown object");
    SIM_CHECK(!G[i].cl_dead, "double-cleanup", "collision data of geometry %d destroyed twice", i);
    SIM_CHECK(!G[i].refs, "early-free", "collision data of geometry %d destroyed while %d reference(s) are held", i, G[i].refs);
    G[i].cl_dead = 1;
}
static void on_gl(struct aa_gl_buffers *p) {
    int i = (int)((char *)p - gltag);
    SIM_CHECK(i >= 0 && i < nG && G[i].has_gl, "wrong-cleanup", "GL data cleanup for an unknown object");
    SIM_CHECK(!G[i].gl_dead, "double-cleanup", "GL data of geometry %d destroyed twice", i);
    SIM_CHECK(!G[i].refs, "early-free", "GL data of geometry %d destroyed while %d reference(s) are held", i, G[i].refs);
    G[i].gl_dead = 1;
}
static void on_mesh(void *p) {
    struct mslot *m = p;
    SIM_CHECK(!m->dead, "double-cleanup", "mesh %d destroyed twice", (int)(m - M));
    SIM_CHECK(!m->refs, "early-free", "mesh %d destroyed while %d reference(s) are held", (int)(m - M), m->refs);
    m->dead = 1;
}
static void mesh_data(struct mslot *m, float *v, unsigned *ix) {
    for (size_t i = 0; i < 3 * m->nv; i++) v[i] = (float)((double)pat(m->seed, i) / 16.0);
    for (size_t i = 0; i < 3 * m->ni; i++) ix[i] = pat(m->seed + 7, i) % (unsigned)m->nv;
}
static void mesh_new(void) {
    struct mslot *m = &M[nM++];
    memset(m, 0, sizeof *m);
    m->m = aa_rx_mesh_create();
    m->m->destructor = on_mesh; m->m->destructor_context = m;
    m->refs = 1;
    for (int k = op_range(1, 2); k > 0; k--) { /* data may be replaced */
        m->nv = (size_t)op_range(1, 9); m->ni = (size_t)op_range(1, 9); m->seed = op_choose(1000);
        float *v = malloc(3 * m->nv * sizeof *v); unsigned *ix = malloc(3 * m->ni * sizeof *ix);
        mesh_data(m, v, ix);
        aa_rx_mesh_set_vertices(m->m, m->nv, v, 1);
        aa_rx_mesh_set_normals(m->m, m->nv, v, 1);
        aa_rx_mesh_set_indices(m->m, m->ni, ix, 1);
        if (op_choose(2)) { struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_mesh_set_texture(m->m, o); aa_rx_geom_opt_destroy(o); }
        free(v); free(ix);
    }
}
static void opt_rand(struct slot *s, struct aa_rx_geom_opt *o) {
    for (int i = 0; i < 7; i++) s->opt[i] = fabs(op_unit());
    s->opt[7] = 1 + fabs(op_unit());
    aa_rx_geom_opt_set_color3(o, s->opt[0], s->opt[1], s->opt[2]);
    aa_rx_geom_opt_set_alpha(o, s->opt[3]);
    aa_rx_geom_opt_set_specular3(o, s->opt[4], s->opt[5], s->opt[6]);
    aa_rx_geom_opt_set_scale(o, s->opt[7]);
    for (int k = 0; k < 3; k++) s->flag[k] = 1 - (k == 2); /* shown, collides, throws a shadow */
    for (int k = 0; k < 3; k++) if (op_choose(2)) {
        int v = (int)op_choose(3) * 2;
        if (k == 0) aa_rx_geom_opt_set_visual(o, v); else if (k == 1) aa_rx_geom_opt_set_collision(o, v); else aa_rx_geom_opt_set_no_shadow(o, v);
        s->flag[k] = v != 0;
    }
}
static void attach_data(int i) {
    struct slot *s = &G[i];
    s->has_cl = s->has_gl = 0;
    if (op_choose(2)) { s->has_cl = 1; aa_rx_geom_set_collision(s->g, (struct aa_rx_cl_geom *)&cltag[i]); }
    if (op_choose(2)) { s->has_gl = 1; s->g->gl_buffers = (struct aa_gl_buffers *)&gltag[i]; }
}
static int geom_new(void) {
    int i = nG++;
    struct slot *s = &G[i];
    memset(s, 0, sizeof *s);
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    opt_rand(s, o);
    for (int k = 0; k < 4; k++) s->d[k] = 0.1 + fabs(op_unit());
    s->kind = (int)op_choose(nM ? 9 : 6);
    s->mesh = -1;
    switch (s->kind) {
    case 0: s->g = aa_rx_geom_box(o, s->d); break;
    case 1: s->g = aa_rx_geom_sphere(o, s->d[0]); break;
    case 2: s->g = aa_rx_geom_cylinder(o, s->d[0], s->d[1]); break;
    case 3: s->g = aa_rx_geom_cone(o, s->d[0], s->d[1], s->d[2]); break;
    case 4: s->g = aa_rx_geom_grid(o, s->d, s->d + 1, s->d[3]); break;
    case 5: s->g = aa_rx_geom_torus(o, s->d[0], s->d[1], s->d[2]); break;
    default: s->kind = 6; s->mesh = (int)op_choose((uint32_t)nM); s->g = aa_rx_geom_mesh(o, M[s->mesh].m); M[s->mesh].refs++; break;
    }
    s->refs = 1;
    attach_data(i);
    aa_rx_geom_opt_destroy(o);
    return i;
}
static void mesh_check(struct mslot *m) {
    size_t nv, ni;
    const float *v = aa_rx_mesh_get_vertices(m->m, &nv);
    const unsigned *ix = aa_rx_mesh_get_indices(m->m, &ni);
    SIM_CHECK(nv == m->nv && ni == m->ni, "mesh-data", "mesh %d has %zu vertices and %zu faces, expected %zu and %zu", (int)(m - M), nv, ni, m->nv, m->ni);
    float vv[32]; unsigned xx[32];
    mesh_data(m, vv, xx);
    SIM_CHECK(!memcmp(v, vv, 3 * nv * sizeof *v) && !memcmp(ix, xx, 3 * ni * sizeof *ix), "mesh-data", "contents of mesh %d changed", (int)(m - M));
}
static void geom_check(int i) {
    struct slot *s = &G[i];
    enum aa_rx_geom_shape t;
    void *sh = aa_rx_geom_shape(s->g, &t);
    const struct aa_rx_geom_opt *o = aa_rx_geom_get_opt(s->g);
    int ok = o->color[0] == s->opt[0] && o->color[1] == s->opt[1] && o->color[2] == s->opt[2] && aa_rx_geom_opt_get_alpha(o) == s->opt[3] &&
             o->specular[0] == s->opt[4] && o->specular[1] == s->opt[5] && o->specular[2] == s->opt[6] && aa_rx_geom_opt_get_scale(o) == s->opt[7];
    SIM_CHECK(ok, "geom-data", "options of geometry %d changed", i);
    ok = aa_rx_geom_opt_get_color_red(o) == s->opt[0] && aa_rx_geom_opt_get_color_green(o) == s->opt[1] && aa_rx_geom_opt_get_color_blue(o) == s->opt[2] &&
         aa_rx_geom_opt_get_specular_red(o) == s->opt[4] && aa_rx_geom_opt_get_specular_green(o) == s->opt[5] && aa_rx_geom_opt_get_specular_blue(o) == s->opt[6];
    SIM_CHECK(ok, "geom-option", "colours of geometry %d read %g %g %g, %g %g %g; set %g %g %g, %g %g %g (red, green, blue)", i, aa_rx_geom_opt_get_color_red(o), aa_rx_geom_opt_get_color_green(o), aa_rx_geom_opt_get_color_blue(o),
              aa_rx_geom_opt_get_specular_red(o), aa_rx_geom_opt_get_specular_green(o), aa_rx_geom_opt_get_specular_blue(o), s->opt[0], s->opt[1], s->opt[2], s->opt[4], s->opt[5], s->opt[6]);
    ok = !!aa_rx_geom_opt_get_visual(o) == s->flag[0] && !!aa_rx_geom_opt_get_collision(o) == s->flag[1] && !!aa_rx_geom_opt_get_no_shadow(o) == s->flag[2];
    SIM_CHECK(ok, "geom-option", "flags of geometry %d read %d %d %d; set %d %d %d", i, aa_rx_geom_opt_get_visual(o), aa_rx_geom_opt_get_collision(o), aa_rx_geom_opt_get_no_shadow(o), s->flag[0], s->flag[1], s->flag[2]);
    double *d = s->d;
    switch (s->kind) {
    case 0: { struct aa_rx_shape_box *b = sh; ok = t == AA_RX_BOX && !memcmp(b->dimension, d, 24); break; }
    case 1: { struct aa_rx_shape_sphere *b = sh; ok = t == AA_RX_SPHERE && b->radius == d[0]; break; }
    case 2: { struct aa_rx_shape_cylinder *b = sh; ok = t == AA_RX_CYLINDER && b->height == d[0] && b->radius == d[1]; break; }
    case 3: { struct aa_rx_shape_cone *b = sh; ok = t == AA_RX_CONE && b->height == d[0] && b->start_radius == d[1] && b->end_radius == d[2]; break; }
    case 4: { struct aa_rx_shape_grid *b = sh; ok = t == AA_RX_GRID && !memcmp(b->dimension, d, 16) && !memcmp(b->delta, d + 1, 16) && b->width == d[3]; break; }
    case 5: { struct aa_rx_shape_torus *b = sh; ok = t == AA_RX_TORUS && b->angle == d[0] && b->major_radius == d[1] && b->minor_radius == d[2]; break; }
    default: ok = t == AA_RX_MESH && sh == M[s->mesh].m; if (ok) mesh_check(&M[s->mesh]); break;
    }
    SIM_CHECK(ok, "geom-data", "shape of geometry %d (kind %d) changed", i, s->kind);
    SIM_CHECK(aa_rx_geom_refcount(s->g) >= 1, "refcount", "geometry %d in use has count %u", i, aa_rx_geom_refcount(s->g));
}
static void geom_drop(int i) {
    struct slot *s = &G[i];
    struct aa_rx_geom *g = s->g;
    SIM_CHECK(s->refs > 0, "harness", "drop without reference");
    if (!--s->refs && s->mesh >= 0) M[s->mesh].refs--;
    aa_rx_geom_destroy(g);
}
static void all_gone(uint64_t mark) {
    for (int i = 0; i < nG; i++)
        SIM_CHECK((!G[i].has_cl || G[i].cl_dead) && (!G[i].has_gl || G[i].gl_dead), "never-freed", "geometry %d has no references left but was never destroyed", i);
    for (int i = 0; i < nM; i++) SIM_CHECK(M[i].dead, "never-freed", "mesh %d has no references left but was never destroyed", i);
    LEAKCHECK(mark, "leak");
}

struct worker { int hold[MAXG]; int n; int ops; };
static void *geom_worker(void *p) {
    struct worker *w = p;
    for (int k = w->ops; k > 0 && w->n; k--) {
        int j = (int)op_choose((uint32_t)w->n), i = w->hold[j];
        switch (op_choose(6)) {
        case 0: case 1:
            if (w->n < MAXG) { struct aa_rx_geom *c = aa_rx_geom_copy(G[i].g); SIM_CHECK(c == G[i].g, "copy", "copy is a different object"); G[i].refs++; w->hold[w->n++] = i; }
            break;
        case 2: case 3: w->hold[j] = w->hold[--w->n]; geom_drop(i); break;
        case 4: geom_check(i); break;
        default:
            if (nG < MAXG && w->n < MAXG) {
                int t = nG++;
                struct slot *s = &G[t];
                *s = G[i]; s->cl_dead = s->gl_dead = s->has_cl = s->has_gl = 0; s->refs = 1;
                if (s->mesh >= 0) M[s->mesh].refs++;
                struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
                opt_rand(s, o);
                s->g = aa_rx_geom_modify_opt(G[i].g, o);
                aa_rx_geom_opt_destroy(o);
                attach_data(t);
                w->hold[w->n++] = t;
                geom_check(t);
            }
        }
    }
    while (w->n) geom_drop(w->hold[--w->n]);
    return NULL;
}
static void geom_threads(void) {
    static struct worker w[4];
    nG = nM = 0; memset(w, 0, sizeof w); memset(G, 0, sizeof G); memset(M, 0, sizeof M);
    aa_rx_cl_geom_destroy_fun = on_cl; aa_gl_buffers_destroy_fun = on_gl;
    sim_sched_swarm(1); sim_set_races(1);
    uint64_t mark = sim_heap_mark();
    for (int k = op_range(0, 2); k > 0; k--) mesh_new();
    int base = op_range(1, 4);
    for (int k = 0; k < base; k++) geom_new();
    int nt = op_range(1, 3);
    for (int t = 0; t < nt; t++) {
        w[t].ops = op_range(0, 10);
        for (int i = 0; i < base; i++) if (op_choose(4)) { aa_rx_geom_copy(G[i].g); G[i].refs++; w[t].hold[w[t].n++] = i; }
    }
    sim_tid t[4];
    for (int k = 0; k < nt; k++) t[k] = sim_spawn("owner", geom_worker, &w[k]);
    /* the creator gives up its own references while the others run */
    int order = (int)op_choose(2);
    if (order) for (int i = 0; i < nM; i++) { M[i].refs--; aa_rx_mesh_destroy(M[i].m); }
    for (int i = 0; i < base; i++) { if (op_choose(2)) geom_check(i); geom_drop(i); }
    if (!order) for (int i = 0; i < nM; i++) { M[i].refs--; aa_rx_mesh_destroy(M[i].m); }
    for (int k = 0; k < nt; k++) sim_join(t[k]);
    sim_state(mixh((uint64_t)nG, mixh((uint64_t)nM, (uint64_t)nt)));
    sim_hash_u64((uint64_t)nG);
    all_gone(mark);
}
SIM_SCENARIO("P08", geom_threads, geom_threads, 4);

/* scene graphs copied, edited and destroyed in different threads share geometry */
static struct aa_rx_sg *base_sg;
static void see_geom(void *cx, aa_rx_frame_id f, struct aa_rx_geom *g) {
    (void)f;
    int i;
    for (i = 0; i < nG; i++) if (G[i].g == g && !(G[i].cl_dead || G[i].gl_dead)) break;
    SIM_CHECK(i < nG, "unknown-geom", "scene graph lists a geometry that was never attached");
    ++*(int *)cx;
    geom_check(i);
}
static int refs_of_copy[MAXG];
static void *sg_worker(void *p) {
    int ops = *(int *)p;
    struct aa_rx_sg *mine = aa_rx_sg_copy(base_sg);
    for (int i = 0; i < nG; i++) G[i].refs += refs_of_copy[i];
    int extra = 0;
    for (; ops > 0; ops--) {
        switch (op_choose(4)) {
        case 0: { int n = 0; aa_rx_sg_map_geom(mine, see_geom, &n); break; }
        case 1: { /* copy of a copy, destroyed again */
            struct aa_rx_sg *c = aa_rx_sg_copy(mine);
            aa_rx_sg_destroy(c);
            break; }
        case 2: aa_rx_sg_copy_frame_geom(mine, "f0", "f1"); extra++; break;
        default: sim_yield();
        }
    }
    for (int i = 0; i < nG; i++) { G[i].refs -= refs_of_copy[i]; if (!G[i].refs && refs_of_copy[i] && G[i].mesh >= 0) M[G[i].mesh].refs--; }
    aa_rx_sg_destroy(mine);
    return NULL;
}
static void sg_sharing(void) {
    nG = nM = 0; memset(G, 0, sizeof G); memset(M, 0, sizeof M); memset(refs_of_copy, 0, sizeof refs_of_copy);
    aa_rx_cl_geom_destroy_fun = on_cl; aa_gl_buffers_destroy_fun = on_gl;
    sim_sched_swarm(1); sim_set_races(1);
    uint64_t mark = sim_heap_mark();
    for (int k = op_range(0, 2); k > 0; k--) mesh_new();
    base_sg = aa_rx_sg_create();
    static const double q[4] = {0, 0, 0, 1}, v[3] = {0, 0, 0};
    int nf = op_range(2, 4); char nm[8];
    for (int i = 0; i < nf; i++) { snprintf(nm, sizeof nm, "f%d", i); aa_rx_sg_add_frame_fixed(base_sg, "", nm, q, v); }
    for (int k = op_range(0, 4); k > 0; k--) {
        int i = geom_new();
        snprintf(nm, sizeof nm, "f%d", (int)op_choose((uint32_t)nf));
        aa_rx_geom_attach(base_sg, nm, G[i].g); /* takes over the reference */
        refs_of_copy[i]++;
    }
    for (int i = 0; i < nM; i++) { M[i].refs--; aa_rx_mesh_destroy(M[i].m); }
    aa_rx_sg_init(base_sg);
    sim_tid t[3]; static int ops[3];
    int nt = op_range(1, 3);
    for (int k = 0; k < nt; k++) { ops[k] = op_range(0, 5); t[k] = sim_spawn("copier", sg_worker, &ops[k]); }
    int n = 0; aa_rx_sg_map_geom(base_sg, see_geom, &n);
    for (int k = 0; k < nt; k++) sim_join(t[k]);
    for (int i = 0; i < nG; i++) { G[i].refs -= refs_of_copy[i]; if (!G[i].refs && G[i].mesh >= 0) M[G[i].mesh].refs--; }
    aa_rx_sg_destroy(base_sg);
    sim_state(mixh((uint64_t)nG, (uint64_t)nt)); sim_hash_u64((uint64_t)nG);
    all_gone(mark);
}
SIM_SCENARIO("P08", sg_sharing, sg_sharing, 2);
