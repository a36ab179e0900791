/* Plugins: scene graphs and meshes that come from shared objects, with a simulated dynamic loader. */
#include "util.h"
#include <amino.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_plugin.h>
#include <dlfcn.h>
#define NMOD 3
#define NOBJ 8
#define MAXF 60
/* A module: while it is loaded its data is a block of memory, which goes away with the last dlclose(). */
struct module { const char *file; int count, nest; float *vert; unsigned *idx; int has_sg, has_mesh, null_fun; unsigned loads; };
static struct module mod[NMOD];
static char dl_msg[80]; static int dl_pending, dl_busy;
#define NVERT 6
static int mod_of(void *h) { for (int i = 0; i < NMOD; i++) if ((void *)&mod[i] == h) return i; sim_violation("handle", "the loader is given a handle it never returned"); }
static void dl_enter(void) { sim_atomic_begin(); }
static void dl_leave(void) { sim_atomic_end(); }
static void *pl_open(const char *f, int mode) {
    (void)mode; void *r = NULL; dl_enter();
    int i; for (i = 0; i < NMOD && strcmp(mod[i].file, f); i++);
    if (i == NMOD || sim_fault(F_DLOPEN_FAIL)) { snprintf(dl_msg, sizeof dl_msg, "%.40s: cannot open shared object file", f); dl_pending = 1; }
    else {
        struct module *m = &mod[i];
        if (!m->count++) { m->vert = (float *)malloc(sizeof(float) * 3 * NVERT); m->idx = (unsigned *)malloc(sizeof(unsigned) * 3); for (int k = 0; k < 3 * NVERT; k++) m->vert[k] = (float)(i * 100 + k); for (int k = 0; k < 3; k++) m->idx[k] = (unsigned)k; m->loads++; }
        r = m;
    }
    dl_leave(); return r;
}
static int pl_close(void *h) {
    dl_enter(); struct module *m = &mod[mod_of(h)];
    SIM_CHECK(m->count > 0, "handle", "plugin %s is closed more often than it was opened", m->file);
    if (!--m->count) { free(m->vert); free(m->idx); m->vert = NULL; m->idx = NULL; }
    dl_leave(); return 0;
}
static char *pl_error(void) { if (!dl_pending) return NULL; dl_pending = 0; return dl_msg; }
/* the code of the modules */
static struct aa_rx_mesh *mod_mesh(int i) {
    SIM_CHECK(mod[i].count > 0, "unloaded", "code of %s runs while it is not loaded", mod[i].file);
    if (mod[i].null_fun & 1) return NULL;
    struct aa_rx_mesh *m = aa_rx_mesh_create();
    aa_rx_mesh_set_vertices(m, NVERT, mod[i].vert, 0); aa_rx_mesh_set_normals(m, NVERT, mod[i].vert, 0); aa_rx_mesh_set_indices(m, 1, mod[i].idx, 0);
    return m;
}
static struct aa_rx_mesh *mod_mesh0(void) { return mod_mesh(0); }
static struct aa_rx_mesh *mod_mesh1(void) { return mod_mesh(1); }
static struct aa_rx_mesh *mod_mesh2(void) { return mod_mesh(2); }
static int serial, nest_frames, last_serial; static unsigned nest_faults; static int nest_from[NMOD];
static unsigned dl_faults(void) { return sim_fault_fired(F_DLOPEN_FAIL) + sim_fault_fired(F_DLSYM_FAIL); }
static struct aa_rx_sg *mod_sg(int i, struct aa_rx_sg *sg, const char *root) {
    static const double q[4] = {0, 0, 0, 1}, v[3] = {0, 0, 1}; char nm[40];
    SIM_CHECK(mod[i].count > 0, "unloaded", "code of %s runs while it is not loaded", mod[i].file);
    if (mod[i].null_fun & 2) return NULL;
    if (!sg) sg = aa_rx_sg_create();
    dl_enter(); int my = serial++; snprintf(nm, sizeof nm, "part_%d_%d", i, my); dl_leave();
    aa_rx_sg_add_frame_fixed(sg, root, nm, q, v);
    struct aa_rx_mesh *m = aa_rx_mesh_create(); aa_rx_mesh_set_vertices(m, NVERT, mod[i].vert, 0); aa_rx_mesh_set_indices(m, 1, mod[i].idx, 0);
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_attach(sg, nm, aa_rx_geom_mesh(o, m)); aa_rx_geom_opt_destroy(o); aa_rx_mesh_destroy(m);
    if (mod[i].nest > i && mod[i].nest < NMOD) { /* a plugin that takes a part of its scene from another plugin */
        int j = mod[i].nest; unsigned f0 = dl_faults(), n0 = nest_faults; struct aa_rx_sg *x = aa_rx_dl_sg_at(mod[j].file, "robot_with_a_rather_long_name", sg, nm); nest_faults = n0 + dl_faults() - f0;
        if (x) { SIM_CHECK(x == sg, "scene", "the scene graph loaded into is not the one returned"); nest_frames++; nest_from[j] = 1; sim_probe("plugin that loads a plugin"); }
    }
    last_serial = my;
    return sg;
}
static struct aa_rx_sg *mod_sg0(struct aa_rx_sg *s, const char *r) { return mod_sg(0, s, r); }
static struct aa_rx_sg *mod_sg1(struct aa_rx_sg *s, const char *r) { return mod_sg(1, s, r); }
static struct aa_rx_sg *mod_sg2(struct aa_rx_sg *s, const char *r) { return mod_sg(2, s, r); }
static void *pl_sym(void *h, const char *s) {
    dl_enter(); int i = mod_of(h); void *r = NULL; SIM_CHECK(mod[i].count > 0, "handle", "a symbol is looked up in %s, which is not loaded", mod[i].file);
    if (!sim_fault(F_DLSYM_FAIL)) {
        if (mod[i].has_mesh && !strcmp(s, "aa_rx_dl_mesh__part")) r = i == 0 ? (void *)mod_mesh0 : i == 1 ? (void *)mod_mesh1 : (void *)mod_mesh2;
        if (mod[i].has_sg && !strcmp(s, "aa_rx_dl_sg__robot_with_a_rather_long_name")) r = i == 0 ? (void *)mod_sg0 : i == 1 ? (void *)mod_sg1 : (void *)mod_sg2;
    }
    if (!r) { snprintf(dl_msg, sizeof dl_msg, "undefined symbol: %.50s", s); dl_pending = 1; }
    dl_leave(); return r;
}
static const struct sim_loader pl_loader = {pl_open, pl_sym, pl_close, pl_error};
/* live objects: who needs which module */
struct obj { struct aa_rx_sg *sg; struct aa_rx_mesh *mesh; int from[NMOD]; int frames; int geoms; };
static struct obj ob[NOBJ];
static void see_mesh(void *cx, aa_rx_frame_id f, struct aa_rx_geom *g) {
    (void)f; const struct aa_rx_mesh *seen; enum aa_rx_geom_shape t; void *s = aa_rx_geom_shape(g, &t); if (cx) ++*(int *)cx;
    if (t == AA_RX_MESH) seen = (struct aa_rx_mesh *)s; else seen = NULL;
    if (!seen) return;
    size_t nv = 0, ni = 0; const float *v = aa_rx_mesh_get_vertices(seen, &nv); const unsigned *x = aa_rx_mesh_get_indices(seen, &ni);
    SIM_CHECK(sim_heap_addressable(v, sizeof(float) * 3 * NVERT) != 0 && sim_heap_addressable(x, sizeof(unsigned) * 3) != 0, "unloaded", "a mesh refers to the data of a plugin that is no longer loaded");
    int i = (int)v[0] / 100; SIM_CHECK(i >= 0 && i < NMOD && nv == NVERT && v[3 * NVERT - 1] == (float)(i * 100 + 3 * NVERT - 1) && x[2] == 2, "mesh", "a mesh from a plugin has other data than the plugin gave it");
}
static void see_mesh1(const struct aa_rx_mesh *m) {
    size_t nv = 0; const float *v = aa_rx_mesh_get_vertices(m, &nv);
    SIM_CHECK(sim_heap_addressable(v, sizeof(float) * 3 * NVERT) != 0, "unloaded", "a mesh refers to the data of a plugin that is no longer loaded"); SIM_CHECK(v[4] == (float)((int)v[0] + 4), "mesh", "a mesh has other data than the plugin gave it");
}
static void plug_state(const char *when) {
    int need[NMOD] = {0};
    for (int k = 0; k < NOBJ; k++) if (ob[k].sg || ob[k].mesh) for (int i = 0; i < NMOD; i++) need[i] |= ob[k].from[i];
    for (int i = 0; i < NMOD; i++) {
        SIM_CHECK(!need[i] || mod[i].count, "unloaded", "%s: plugin %s is not loaded although something from it is in use", when, mod[i].file);
        SIM_CHECK(need[i] || !mod[i].count, "loaded", "%s: plugin %s stays loaded (%d) although nothing from it is in use", when, mod[i].file, mod[i].count);
    }
    for (int k = 0; k < NOBJ; k++) {
        if (ob[k].sg) { int n_seen = 0; aa_rx_sg_init(ob[k].sg); SIM_CHECK((int)aa_rx_sg_frame_count(ob[k].sg) == ob[k].frames, "scene", "%s: a scene graph has %zu frames instead of %d", when, aa_rx_sg_frame_count(ob[k].sg), ob[k].frames);
            aa_rx_sg_map_geom(ob[k].sg, see_mesh, &n_seen); SIM_CHECK(n_seen == ob[k].geoms, "scene", "%s: a scene graph has %d geometries instead of %d", when, n_seen, ob[k].geoms); }
        if (ob[k].mesh) see_mesh1(ob[k].mesh);
    }
}
static void plug_drop(int k) { if (ob[k].sg) aa_rx_sg_destroy(ob[k].sg); if (ob[k].mesh) aa_rx_mesh_destroy(ob[k].mesh); memset(&ob[k], 0, sizeof ob[k]); }
static int pick_obj(int want) { int k = (int)op_choose(NOBJ); for (int j = 0; j < NOBJ; j++) { int x = (k + j) % NOBJ; if (want == 0 ? !ob[x].sg && !ob[x].mesh : want == 1 ? ob[x].sg != NULL : want == 2 ? ob[x].mesh != NULL : ob[x].sg || ob[x].mesh) return x; } return -1; }
static void plug_setup(void) {
    static const char *const fn[NMOD] = {"libhand.so", "./plugins/libarm_with_a_rather_long_path_name.so", "libhand2.so"};
    memset(mod, 0, sizeof mod); memset(ob, 0, sizeof ob); serial = 0; dl_pending = 0; sim_dl = &pl_loader;
    for (int i = 0; i < NMOD; i++) { mod[i].file = fn[i]; mod[i].has_sg = op_choose(5) != 4; mod[i].has_mesh = op_choose(5) != 4; mod[i].null_fun = op_choose(5) == 4 ? op_range(1, 3) : 0; mod[i].nest = op_choose(3) == 2 ? op_range(0, NMOD - 1) : 0; }
    if (cfg_choose(2)) { sim_fault_enable(F_DLOPEN_FAIL, 1, 6); sim_fault_enable(F_DLSYM_FAIL, 1, 6); }
}
static int frames_of(int k) { return ob[k].frames; }
static void plug_load(void) {
    static const char *const none = "libnone.so"; char f[80], nm[60], root[60] = "";
    int i = op_range(0, NMOD), into = op_choose(2) ? pick_obj(1) : -1, k = into >= 0 ? into : pick_obj(0), at = (int)op_choose(2); if (k < 0) return;
    snprintf(f, sizeof f, "%s", i < NMOD ? mod[i].file : none); snprintf(nm, sizeof nm, "%s", op_choose(8) == 7 ? "other" : "robot_with_a_rather_long_name");
    if (at && into >= 0) { aa_rx_sg_init(ob[into].sg); snprintf(root, sizeof root, "%s", aa_rx_sg_frame_name(ob[into].sg, (aa_rx_frame_id)op_choose((uint32_t)frames_of(into)))); }
    int before = i < NMOD ? mod[i].count : 0; unsigned f0 = dl_faults(); nest_frames = 0; nest_faults = 0; memset(nest_from, 0, sizeof nest_from);
    if (dl_pending == 0 && op_choose(4) == 3) { dl_pending = 1; snprintf(dl_msg, sizeof dl_msg, "an older error"); }
    struct aa_rx_sg *sg = into >= 0 ? ob[into].sg : NULL, *r = at ? aa_rx_dl_sg_at(f, nm, sg, root) : aa_rx_dl_sg(f, nm, sg);
    int fault = dl_faults() - nest_faults != f0, want = !fault && i < NMOD && mod[i].has_sg && !(mod[i].null_fun & 2) && nm[0] == 'r';
    SIM_CHECK(!!r == want, "load", "loading a scene graph from %s %s", f, want ? "fails" : "succeeds although it cannot");
    if (!r) { SIM_CHECK(i == NMOD || mod[i].count == before, "loaded", "after a failed load %s is loaded %d times instead of %d", f, mod[i].count, before); sim_probe("load failed"); return; }
    if (sg) { SIM_CHECK(r == sg, "scene", "the scene graph loaded into is not the one returned"); sim_probe("plugin added to a scene graph"); }
    ob[k].sg = r; ob[k].from[i] = 1; ob[k].frames += 1 + nest_frames; ob[k].geoms += 1 + nest_frames; for (int x = 0; x < NMOD; x++) ob[k].from[x] |= nest_from[x]; if (mod[i].loads > 1) sim_probe("plugin loaded anew");
    aa_rx_sg_init(r); char part[40]; snprintf(part, sizeof part, "part_%d_%d", i, last_serial); aa_rx_frame_id id = aa_rx_sg_frame_id(r, part); SIM_CHECK(id != AA_RX_FRAME_NONE, "scene", "the plugin's frame is missing");
    aa_rx_frame_id up = aa_rx_sg_frame_parent(r, id); SIM_CHECK(root[0] ? up == aa_rx_sg_frame_id(r, root) : up == AA_RX_FRAME_ROOT, "scene", "the plugin's frame is not under '%s'", root);
}
static void plug_history(void) {
    sim_heap_fill((int)op_choose(2) ? 0xff : 0x5a); uint64_t mark = sim_heap_mark(); plug_setup();
    for (int o = op_range(1, 16); o > 0; o--) {
        int k, j;
        switch (op_choose(8)) {
        case 0: case 1: case 2: plug_load(); break;
        case 3: { /* a mesh */
            k = pick_obj(0); if (k < 0) break; int i = op_range(0, NMOD), before = i < NMOD ? mod[i].count : 0; unsigned f0 = sim_fault_fired(F_DLOPEN_FAIL) + sim_fault_fired(F_DLSYM_FAIL);
            struct aa_rx_mesh *m = aa_rx_dl_mesh(i < NMOD ? mod[i].file : "libnone.so", op_choose(8) == 7 ? "other" : "part");
            int fault = sim_fault_fired(F_DLOPEN_FAIL) + sim_fault_fired(F_DLSYM_FAIL) != f0;
            if (!m) { SIM_CHECK(i == NMOD || mod[i].count == before, "loaded", "after a failed load %s is loaded %d times instead of %d", mod[i].file, mod[i].count, before); break; }
            SIM_CHECK(!fault && i < NMOD && mod[i].has_mesh && !(mod[i].null_fun & 1), "load", "a mesh is loaded although it cannot be");
            ob[k].mesh = m; ob[k].from[i] = 1; sim_probe("mesh loaded"); break; }
        case 4: /* a mesh used by a scene graph */
            k = pick_obj(2); j = pick_obj(1); if (k < 0 || j < 0) break;
            { struct aa_rx_geom_opt *op = aa_rx_geom_opt_create(); aa_rx_geom_attach(ob[j].sg, aa_rx_sg_frame_name(ob[j].sg, 0), aa_rx_geom_mesh(op, ob[k].mesh)); aa_rx_geom_opt_destroy(op); ob[j].geoms++; for (int i = 0; i < NMOD; i++) ob[j].from[i] |= ob[k].from[i]; sim_probe("mesh attached"); } break;
        case 5: k = pick_obj(1); j = pick_obj(0); if (k < 0 || j < 0) break; ob[j] = ob[k]; ob[j].mesh = NULL; ob[j].sg = aa_rx_sg_copy(ob[k].sg); sim_probe("copy of a plugin's scene graph"); break;
        default: k = pick_obj(3); if (k >= 0) plug_drop(k);
        }
        plug_state("after an operation");
    }
    uint64_t h = 0; for (int i = 0; i < NMOD; i++) h = h * 64 + (uint64_t)mod[i].count; sim_state(h); sim_hash_u64(h); sim_hash_u64((uint64_t)serial);
    while (pick_obj(3) >= 0) { plug_drop(pick_obj(3)); plug_state("at the end"); }
    sim_dl = NULL; LEAKCHECK(mark, "memory");
}
SIM_SCENARIO("P25", plug_history, plug_history, 3);
/* threads that load, copy and destroy at the same time */
static struct aa_rx_sg *shared_sg; static struct aa_rx_mesh *shared_mesh;
static void *plug_worker(void *p) {
    int n = *(int *)p;
    for (; n > 0; n--) {
        struct aa_rx_sg *s = NULL; struct aa_rx_mesh *m = NULL;
        switch (op_choose(4)) {
        case 3: { /* the same mesh in each thread's scene */
            static const double q[4] = {0, 0, 0, 1}, v[3] = {0, 0, 1}; s = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(s, "", "own", q, v); struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); int c = op_range(1, 3); for (int i = 0; i < c; i++) aa_rx_geom_attach(s, "own", aa_rx_geom_mesh(o, shared_mesh)); aa_rx_geom_opt_destroy(o); sim_probe("mesh shared by threads"); break; }
        case 0: s = aa_rx_dl_sg(mod[op_choose(NMOD)].file, "robot_with_a_rather_long_name", NULL); break;
        case 1: s = aa_rx_sg_copy(shared_sg); break;
        default: m = aa_rx_dl_mesh(mod[op_choose(NMOD)].file, "part");
        }
        sim_yield();
        if (s) { aa_rx_sg_init(s); aa_rx_sg_map_geom(s, see_mesh, NULL); aa_rx_sg_destroy(s); }
        if (m) { see_mesh1(m); aa_rx_mesh_destroy(m); }
    }
    return NULL;
}
static void plug_threads(void) {
    sim_sched_swarm(1); sim_set_races(1); uint64_t mark = sim_heap_mark(); plug_setup(); for (int i = 0; i < NMOD; i++) { mod[i].null_fun = 0; mod[i].has_sg = mod[i].has_mesh = 1; } sim_fault_disable(F_DLOPEN_FAIL); sim_fault_disable(F_DLSYM_FAIL);
    shared_sg = aa_rx_dl_sg(mod[op_choose(NMOD)].file, "robot_with_a_rather_long_name", NULL); if (op_choose(2)) shared_sg = aa_rx_dl_sg(mod[op_choose(NMOD)].file, "robot_with_a_rather_long_name", shared_sg);
    aa_rx_sg_init(shared_sg); shared_mesh = aa_rx_dl_mesh(mod[op_choose(NMOD)].file, "part");
    sim_tid t[3]; static int n[3]; int nt = op_range(2, 3); for (int k = 0; k < nt; k++) { n[k] = op_range(1, 5); t[k] = sim_spawn("loader", plug_worker, &n[k]); }
    for (int k = 0; k < nt; k++) sim_join(t[k]);
    SIM_CHECK(aa_rx_mesh_refcount(shared_mesh) == 1, "mesh", "a mesh nothing but its owner uses has %u references", aa_rx_mesh_refcount(shared_mesh));
    see_mesh1(shared_mesh); aa_rx_mesh_destroy(shared_mesh); aa_rx_sg_map_geom(shared_sg, see_mesh, NULL); aa_rx_sg_destroy(shared_sg);
    for (int i = 0; i < NMOD; i++) SIM_CHECK(!mod[i].count, "loaded", "plugin %s stays loaded (%d)", mod[i].file, mod[i].count);
    sim_hash_u64((uint64_t)serial); sim_dl = NULL; LEAKCHECK(mark, "memory");
}
SIM_SCENARIO("P25", plug_threads, plug_threads, 1);
