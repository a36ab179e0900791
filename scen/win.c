/* The window, its display loop and the graphics data behind it. */
#include <amino.h>
#include "sgmodel.h"
#include <SDL_opengl.h>
#include <amino/rx/scene_gl.h>
#include <amino/rx/scene_sdl.h>
#include <amino/rx/scene_win.h>
#include <amino/rx/mp_seq.h>
#include "glstub.h"

void *aa_rx_win_call(void *(*function)(void *), void *context);
void aa_rx_win_get_config(struct aa_rx_win *win, size_t n, double *q);

/* ------------------------------------------------------------ scenes with known geometry */
#define MAXG 6
struct wgeom { int frame; float lo[3], hi[3]; int visual, collision; double scale; uint8_t rgba[4]; float spec[3]; };
struct wscene { struct m_sg m; struct aa_rx_sg *sg; int ng, nc, nf, fid[NN], cid[NN]; struct wgeom g[MAXG]; };
static unsigned w_uniq;

static struct aa_rx_geom *w_geom(struct wgeom *w, struct aa_rx_geom_opt *opt) {
    float s = 0.25f + 0.03125f * (float)(w_uniq++ % 61);
    switch (op_choose(7)) {
    case 0: default: { double d[3] = {s, s / 2, s / 4};
        for (int k = 0; k < 3; k++) { w->hi[k] = (float)d[k] / 2; w->lo[k] = -w->hi[k]; }
        return aa_rx_geom_box(opt, d); }
    case 1: for (int k = 0; k < 3; k++) { w->hi[k] = s; w->lo[k] = -s; } return aa_rx_geom_sphere(opt, s);
    case 2: w->hi[0] = w->hi[1] = s; w->lo[0] = w->lo[1] = -s; w->lo[2] = 0; w->hi[2] = 3 * s; return aa_rx_geom_cylinder(opt, 3 * s, s);
    case 3: w->hi[0] = w->hi[1] = s; w->lo[0] = w->lo[1] = -s; w->lo[2] = 0; w->hi[2] = 2 * s; return aa_rx_geom_cone(opt, 2 * s, s, s / 2);
    case 4: w->hi[0] = w->hi[1] = s * 1.25f; w->lo[0] = w->lo[1] = -s * 1.25f; w->hi[2] = s / 4; w->lo[2] = -s / 4; return aa_rx_geom_torus(opt, 2 * M_PI, s, s / 4);
    case 5: { double dim[2] = {s, 2 * s}, del[2] = {s / 2, s / 2};
        w->hi[0] = s + s / 16; w->hi[1] = 2 * s + s / 16; w->lo[0] = -w->hi[0]; w->lo[1] = -w->hi[1]; w->lo[2] = w->hi[2] = 0;
        return aa_rx_geom_grid(opt, dim, del, s / 8); }
    case 6: {
        float v[12] = {0, 0, 0, s, 0, 0, 0, 5 * s, 0, 0, 0, s};
        unsigned ix[12] = {0, 1, 2, 0, 1, 3, 0, 2, 3, 1, 2, 3};
        for (int k = 0; k < 3; k++) { w->lo[k] = 0; w->hi[k] = s; }
        w->hi[1] = 5 * s;
        struct aa_rx_mesh *me = aa_rx_mesh_create();
        aa_rx_mesh_set_vertices(me, 4, v, 1);
        if (op_choose(2)) aa_rx_mesh_set_normals(me, 4, v, 1);
        aa_rx_mesh_set_indices(me, 4, ix, 1);
        aa_rx_mesh_set_texture(me, opt);
        struct aa_rx_geom *g = aa_rx_geom_mesh(opt, me);
        aa_rx_mesh_destroy(me);
        return g; }
    }
}
static void w_build(struct wscene *s, int lo, int hi, int allvis) {
    struct aa_rx_sg *sg = m_build(&s->m, lo, hi);
    s->sg = sg; s->ng = 0;
    int n = op_range(1, MAXG);
    for (int i = 0; i < n; i++) {
        struct wgeom *w = &s->g[s->ng];
        memset(w, 0, sizeof *w);
        w->frame = m_pick_live(&s->m);
        struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
        double c[4], sp[3]; for (int k = 0; k < 4; k++) { c[k] = (double)op_choose(5) / 4; w->rgba[k] = (uint8_t)(c[k] * 255); }
        for (int k = 0; k < 3; k++) { sp[k] = (double)op_choose(3) / 2; w->spec[k] = (float)sp[k]; }
        aa_rx_geom_opt_set_color3(o, c[0], c[1], c[2]); aa_rx_geom_opt_set_alpha(o, c[3]);
        aa_rx_geom_opt_set_specular3(o, sp[0], sp[1], sp[2]);
        w->visual = allvis ? 1 : (int)op_choose(4) != 3; w->collision = (int)op_choose(2); w->scale = op_choose(3) == 2 ? 0.5 : 1;
        aa_rx_geom_opt_set_visual(o, w->visual); aa_rx_geom_opt_set_collision(o, w->collision); aa_rx_geom_opt_set_scale(o, w->scale);
        aa_rx_geom_attach(sg, m_names[w->frame], w_geom(w, o));
        aa_rx_geom_opt_destroy(o);
        s->ng++;
    }
    SIM_CHECK(!aa_rx_sg_init(sg), "scene", "valid scene graph was rejected");
    s->nc = m_ncfg(&s->m); s->nf = m_live(&s->m);
    for (int i = 0; i < NN; i++) if (s->m.f[i].live) {     /* the scene may be gone when a picture is judged */
        s->fid[i] = (int)aa_rx_sg_frame_id(sg, m_names[i]);
        s->cid[i] = s->m.f[i].type == AA_RX_FRAME_FIXED ? -1 : (int)aa_rx_sg_config_id(sg, s->m.f[i].cfg);
    }
}
static void w_abs(const struct wscene *s, const double *q, int i, double *E) {
    const struct m_frame *f = &s->m.f[i];
    double R[7], P[7];
    m_rel(f, s->cid[i] < 0 ? 0 : q[s->cid[i]], R);
    if (f->parent < 0) memcpy(E, R, sizeof R);
    else { w_abs(s, q, f->parent, P); mE_mul(P, R, E); }
}

/* ------------------------------------------------------------ what a picture should show */
struct wstate { struct wscene *s; double q[NN + 1]; int visual, collision; uint32_t mask; };
static const char *w_match(const struct gl_frame *f, const struct wstate *st) {
    static char why[200];
    static double W[NN][7];
    const struct wscene *s = st->s;
    int want = 0, used[GL_MAXDRAW] = {0};
    if (!s) return f->n ? "something drawn for no scene" : NULL;
    for (int i = 0; i < NN; i++) if (s->m.f[i].live) w_abs(s, st->q, i, W[i]);
    for (int i = 0; i < s->ng; i++) {
        const struct wgeom *w = &s->g[i];
        if (!((st->visual && w->visual) || (st->collision && w->collision))) continue;
        if (st->mask & (1u << s->fid[w->frame])) continue;
        want++;
        int hit = 0;
        for (int k = 0; k < f->n && !hit; k++) {
            const struct gl_draw *d = &f->d[k];
            if (used[k]) continue;
            int ok = 1;
            for (int a = 0; a < 3; a++) {
                float tol = 0.004f * (fabsf(w->hi[a]) + 0.01f);
                if (!(fabsf(d->lo[a] - w->lo[a]) <= tol && fabsf(d->hi[a] - w->hi[a]) <= tol)) ok = 0;
            }
            for (int c = 0; c < 3 && ok; c++) {
                double e[3] = {c == 0, c == 1, c == 2}, r[3];
                mq_rot(W[w->frame], e, r);
                for (int a = 0; a < 3; a++) if (!(fabs(d->M[4 * c + a] - r[a] * w->scale) < 2e-5 && fabs(d->R[3 * c + a] - r[a]) < 2e-5)) ok = 0;
            }
            for (int a = 0; a < 3 && ok; a++) if (!(fabs(d->M[12 + a] - W[w->frame][4 + a]) < 2e-5 * (1 + fabs(W[w->frame][4 + a])))) ok = 0;
            if (memcmp(&d->rgba, w->rgba, 4) || memcmp(d->spec, w->spec, 12)) ok = 0;
            if (ok) { used[k] = 1; hit = 1; }
        }
        if (!hit) { snprintf(why, sizeof why, "geometry %d (frame '%s') is not drawn at its pose", i, m_names[w->frame]); return why; }
    }
    if (want != f->n) { snprintf(why, sizeof why, "%d pieces drawn, %d expected", f->n, want); return why; }
    return NULL;
}
/* camera: position and the product of the perspective and the inverse pose */
static int w_cam_ok(const struct gl_frame *f, const double *E, double aspect) {
    for (int k = 0; k < 3; k++) if (!(fabs(f->v_cam[k] - E[4 + k]) < 1e-5 * (1 + fabs(E[4 + k])))) return 0;
    double I[7], T[16] = {0}, P[16] = {0};
    mE_inv(E, I);
    for (int c = 0; c < 3; c++) { double e[3] = {c == 0, c == 1, c == 2}; mq_rot(I, e, T + 4 * c); T[12 + c] = I[4 + c]; }
    T[15] = 1;
    double t = tan(M_PI_4 / 2), zn = .05, zf = 100;
    P[0] = 1 / (aspect * t); P[5] = 1 / t; P[10] = -(zf + zn) / (zf - zn); P[11] = -1; P[14] = -2 * zf * zn / (zf - zn);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
        double x = 0;
        for (int k = 0; k < 4; k++) x += P[4 * k + i] * T[4 * j + k];
        if (!(fabs(f->M_cam[4 * j + i] - x) < 1e-4 * (1 + fabs(x)))) return 0;
    }
    return 1;
}

/* ------------------------------------------------------------ histories of published states */
#define MAXV 96
static uint64_t w_clock;                 /* order of events in this run */
static uint64_t w_tick(void) { return ++w_clock; }
static struct { struct wstate st; uint64_t beg, end; } wv[MAXV]; static int nwv;
static struct { double E[7]; uint64_t beg, end; } wc[MAXV]; static int nwc;
static uint64_t w_lower, w_frames, w_pictures;
static double w_aspect = 4.0 / 3;
static int w_camcheck, w_joint, w_last_v, w_last_c;
static void w_on_wait(void) { w_lower = w_tick(); }
/* may version i of n be what a picture made between lower and now shows? */
#define CAND(arr, n, i, lower, now) (arr[i].beg < (now) && ((i) + 1 >= (n) || arr[(i) + 1].end == 0 || arr[(i) + 1].end > (lower)))
static void w_on_swap(const struct gl_frame *f) {
    uint64_t now = w_tick();
    w_frames++;
    if (!f->cleared) return;
    w_pictures++;
    int hit = -1, hitc = -1, any = 0; const char *why = NULL;
    if (w_joint) {      /* update i set state and camera in one locked section */
        for (int i = w_last_v; i < nwv && hit < 0; i++) if (CAND(wv, nwv, i, w_lower, now)) {
            const char *r = w_match(f, &wv[i].st);
            if (r) why = r; else { any = 1; if (w_cam_ok(f, wc[i].E, w_aspect)) hit = hitc = i; }
        }
        SIM_CHECK(hit >= 0 || !any, "atomic", "picture %llu mixes the state of one locked section with the camera of another", (unsigned long long)f->seq);
    } else
        for (int i = w_last_v; i < nwv && hit < 0; i++) if (CAND(wv, nwv, i, w_lower, now)) {
            const char *r = w_match(f, &wv[i].st);
            if (r) why = r; else hit = i;
        }
    SIM_CHECK(hit >= 0, "picture", "picture %llu shows no state that was current while it was made (candidates %d..%d: %s)", (unsigned long long)f->seq, w_last_v, nwv - 1, why ? why : "none");
    w_last_v = hit;
    if (w_camcheck) {
        for (int i = w_last_c; i < nwc && hitc < 0; i++) if (CAND(wc, nwc, i, w_lower, now) && w_cam_ok(f, wc[i].E, w_aspect)) hitc = i;
        SIM_CHECK(hitc >= 0, "camera", "picture %llu was not taken from any camera pose that was current while it was made", (unsigned long long)f->seq);
        w_last_c = hitc;
    }
    sim_state(mixh((uint64_t)hit, (uint64_t)f->n));
    sim_hash_u64((uint64_t)f->n);
}
static void wv_begin(const struct wstate *st) { SIM_CHECK(nwv < MAXV, "harness", "too many versions"); wv[nwv].st = *st; wv[nwv].beg = w_tick(); wv[nwv].end = 0; nwv++; }
static void wv_end(void) { wv[nwv - 1].end = w_tick(); }
static void wc_begin(const double *E) { SIM_CHECK(nwc < MAXV, "harness", "too many cameras"); memcpy(wc[nwc].E, E, 56); wc[nwc].beg = w_tick(); wc[nwc].end = 0; nwc++; }
static void wc_end(void) { wc[nwc - 1].end = w_tick(); }

static struct aa_rx_win *w_win;
static volatile int w_done;
static void *w_loop(void *a) { (void)a; aa_rx_win_run(); w_done = 1; return NULL; }
static int w_pred_frames(void *p) { return w_pictures >= *(uint64_t *)p; }
static int w_pred_done(void *p) { (void)p; return w_done; }
static int w_pred_alone(void *p) { (void)p; return sim_thread_count() <= 1; }
static void w_on_event(const SDL_Event *e) { if (e->type == SDL_WINDOWEVENT && e->window.event == SDL_WINDOWEVENT_RESIZED) w_aspect = (double)e->window.data1 / (double)e->window.data2; }
/* the loop must produce n more pictures */
static void w_wait_pictures(unsigned n) { uint64_t t = w_pictures + n; sim_block_until(w_pred_frames, &t, "the display loop to draw"); }
static void w_randcam(double *E) { m_randE(E); for (int k = 4; k < 7; k++) E[k] *= 3; }
static void w_reset(void) {
    sim_sched_swarm(1); sim_set_races(1); sim_set_step_limit(4000000);
    glstub_reset(); glstub_on_swap = NULL; glstub_on_event = NULL; glstub_on_spnav = NULL; w_aspect = 4.0 / 3; glstub_on_wait = NULL; glstub_event_kinds = 0;
    nwv = nwc = 0; w_clock = w_lower = w_frames = w_pictures = 0; w_camcheck = w_joint = w_last_v = w_last_c = 0; w_done = 0;
    if (cfg_choose(3) == 2) sim_fault_enable(F_SPURIOUS_WAKE, 1, 6);
    if (cfg_choose(3) == 2) sim_fault_enable(F_STALL, 1, 60);
}

/* ------------------------------------------------------------ P12: state shown by the window */
static struct wscene w_sc[12]; static int n_wsc;
static void w_randq(struct wstate *st) { m_randcfg(st->q, st->s ? st->s->nc : 0); }
struct wr { int n; int kind; };
static void *wr_scene(void *a) {           /* replaces scenes and configurations, as demo/simple-rx/simple-thread.c does */
    struct wr *w = (struct wr *)a;
    struct wstate st = wv[nwv - 1].st;
    struct wscene *old = st.s;
    for (int k = 0; k < w->n; k++) {
        if (op_choose(3) == 0 && n_wsc < 12) {
            struct wscene *s = &w_sc[n_wsc++];
            w_build(s, 1, 5, 0);
            st.s = s; memset(st.q, 0, sizeof st.q); st.mask = 0;
            wv_begin(&st); aa_rx_win_set_sg(w_win, s->sg); wv_end();
            if (old) { aa_rx_sg_destroy(old->sg); sim_probe("old scene destroyed while the loop runs"); }
            old = s;
        } else {
            w_randq(&st);
            wv_begin(&st);
            if (op_choose(3) == 1) {
                double b[2 * (NN + 1)];
                for (int i = 0; i < st.s->nc; i++) { b[2 * i] = st.q[i]; b[2 * i + 1] = 7e7; }
                struct aa_dvec v = AA_DVEC_INIT((size_t)st.s->nc, b, 2);
                aa_rx_win_set_bconfig(w_win, &v);
            } else aa_rx_win_set_config(w_win, (size_t)st.s->nc, st.q);
            wv_end();
            if (op_choose(3) == 1) {
                double g[NN + 1];
                aa_rx_win_get_config(w_win, (size_t)st.s->nc, g);
                for (int i = 0; i < st.s->nc; i++) SIM_CHECK(g[i] == st.q[i], "get-config", "configuration %d reads back as %g, set to %g", i, g[i], st.q[i]);
            }
        }
        if (op_choose(2)) sim_sleep_ns((int64_t)op_choose(8) * 9000000);
        else if (op_choose(4) == 3) w_wait_pictures(1);
    }
    return NULL;
}
static void *wr_cam(void *a) {
    struct wr *w = (struct wr *)a;
    for (int k = 0; k < w->n; k++) {
        double E[7], G[7];
        w_randcam(E);
        wc_begin(E); aa_rx_win_set_tf_cam(w_win, E); wc_end();
        if (op_choose(2)) {
            aa_rx_win_get_tf_cam(w_win, G);
            SIM_CHECK(!memcmp(E, G, sizeof E), "get-camera", "camera pose reads back differently than it was set");
        }
        if (op_choose(2)) sim_sleep_ns((int64_t)op_choose(8) * 9000000);
    }
    return NULL;
}
static void *wr_joint(void *a) {            /* several changes in one locked section */
    struct wr *w = (struct wr *)a;
    struct wstate st = wv[nwv - 1].st;
    struct aa_gl_globals *G = aa_rx_win_gl_globals(w_win);
    for (int k = 0; k < w->n; k++) {
        double E[7];
        w_randcam(E); w_randq(&st);
        int old_mask = (int)st.mask;
        st.visual = (int)op_choose(4) != 3; st.collision = (int)op_choose(2);
        if (op_choose(3) == 0) st.mask = 0;
        else for (int b = (int)op_choose(3); b > 0; b--) st.mask ^= 1u << op_choose((uint32_t)aa_rx_sg_frame_count(st.s->sg));
        wv_begin(&st); wc_begin(E);
        aa_rx_win_lock(w_win);
        aa_rx_win_set_config(w_win, (size_t)st.s->nc, st.q);
        if (op_choose(2)) sim_yield();
        aa_gl_globals_set_show_visual(G, st.visual); aa_gl_globals_set_show_collision(G, st.collision);
        if (!st.mask) aa_gl_globals_unmask_all(G);
        else for (int b = 31; b >= 0; b--) if (((uint32_t)old_mask ^ st.mask) & (1u << b)) aa_gl_globals_mask(G, (size_t)b, (st.mask >> b) & 1);
        for (size_t b = 0; b < aa_rx_sg_frame_count(st.s->sg); b++) SIM_CHECK(!!aa_gl_globals_is_masked(G, b) == !!(st.mask & (1u << b)), "mask", "frame %zu reads as %s", b, aa_gl_globals_is_masked(G, b) ? "masked" : "not masked");
        SIM_CHECK(!aa_gl_globals_is_masked(G, 1000), "mask", "a frame never masked is masked");
        aa_rx_win_set_tf_cam(w_win, E);
        aa_rx_win_unlock(w_win);
        wv_end(); wc_end();
        if (op_choose(2)) sim_sleep_ns((int64_t)op_choose(8) * 9000000);
    }
    return NULL;
}
static int w_blank(struct aa_rx_win *w, void *cx, struct aa_sdl_display_params *p) { (void)w; (void)cx; aa_sdl_display_params_set_update(p); return 0; }
static void w_count_swap(const struct gl_frame *f) { (void)f; w_pictures++; }
static void p12_state(void) {
    w_reset();
    n_wsc = 0;
    aa_sdl_init();              /* the input bindings stay for ever */
    uint64_t mark = sim_heap_mark();
    w_win = aa_rx_win_default_create("sim", 400, 300);
    SIM_CHECK(w_win, "create", "window was not created");
    struct wstate st; memset(&st, 0, sizeof st);
    st.visual = 1; st.s = &w_sc[n_wsc++];
    w_build(st.s, 1, 5, 0);
    double E0[7];
    aa_rx_win_get_tf_cam(w_win, E0);
    wc_begin(E0); wc_end();
    wv_begin(&st); wv_end();
    aa_rx_win_set_sg(w_win, st.s->sg);
    w_joint = (int)cfg_choose(3) == 2; w_camcheck = 1;
    glstub_on_swap = w_on_swap; glstub_on_wait = w_on_wait;
    glstub_event_kinds = cfg_choose(2) ? GE_EXPOSE | GE_RESIZE | GE_FULL : 0;
    glstub_on_event = w_on_event;
    if (glstub_event_kinds) sim_fault_enable(F_INPUT_EVENT, 1, 6);
    sim_tid loop = sim_spawn("loop", w_loop, NULL), t[2]; int nt = 0;
    struct wr a = {op_range(1, 8), 0}, b = {op_range(0, 8), 0};
    if (w_joint) t[nt++] = sim_spawn("joint", wr_joint, &a);
    else { t[nt++] = sim_spawn("scene", wr_scene, &a); t[nt++] = sim_spawn("camera", wr_cam, &b); }
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    /* once updates stop, the window shows the latest state */
    w_wait_pictures(3);
    SIM_CHECK(!w_match(&(struct gl_frame){0}, &(struct wstate){0}) , "harness", "model");
    SIM_CHECK(w_last_v == nwv - 1 || !memcmp(&wv[w_last_v].st, &wv[nwv - 1].st, sizeof wv[0].st), "stale", "updates have stopped, but pictures still show update %d of %d", w_last_v, nwv - 1);
    SIM_CHECK(w_last_c == nwc - 1 || !memcmp(wc[w_last_c].E, wc[nwc - 1].E, 56), "stale", "camera updates have stopped, but pictures still use pose %d of %d", w_last_c, nwc - 1);
    aa_rx_win_set_display(w_win, w_blank, NULL, NULL);
    aa_rx_sg_destroy(wv[nwv - 1].st.s->sg);
    glstub_on_swap = w_count_swap;
    w_wait_pictures(3);         /* the loop collects the graphics data */
    aa_rx_win_stop(w_win);
    sim_join(loop);
    aa_rx_win_destroy(w_win);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P12", win_state, p12_state, 3);

/* masks: any history of hiding and showing frames */
static void p12_mask(void) {
    sim_heap_fill((int)cfg_choose(3) == 0 ? 0 : 0xA5);
    uint64_t mark = sim_heap_mark();
    struct aa_gl_globals *G = aa_gl_globals_create();
    static uint8_t on[512];
    memset(on, 0, sizeof on);
    uint32_t range = 8u << cfg_choose(6);
    for (int k = op_range(1, 40); k > 0; k--) {
        uint32_t i = op_choose(range); int v = (int)op_choose(3) != 0;
        if (op_choose(24) == 23) { aa_gl_globals_unmask_all(G); memset(on, 0, sizeof on); }
        else { aa_gl_globals_mask(G, i, v ? 1 + (int)op_choose(3) : 0); on[i] = (uint8_t)v; }
        for (uint32_t j = 0; j < 512; j++) SIM_CHECK(!!aa_gl_globals_is_masked(G, j) == on[j], "mask", "frame %u reads as %s", j, on[j] ? "shown" : "hidden");
    }
    aa_gl_globals_destroy(G);
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P12", gl_mask, p12_mask, 1);

/* ------------------------------------------------------------ P09: graphics data of shared geometry */
static struct gl_frame w_lastf;
static void p09_swap(const struct gl_frame *f) { w_frames++; if (f->cleared) { w_pictures++; w_lastf = *f; } w_on_swap(f); }
struct pool9 { struct aa_rx_geom *g[24]; struct wgeom w[24]; int n; };
static struct pool9 g9;
static struct wscene *scene9(int share) {
    SIM_CHECK(n_wsc < 12, "harness", "scenes");
    struct wscene *s = &w_sc[n_wsc++];
    w_build(s, 1, 4, 1);
    /* plus geometry shared with other scenes */
    for (int k = share ? op_range(0, 2) : 0; k > 0 && s->ng < MAXG && g9.n; k--) {
        int i = (int)op_choose((uint32_t)g9.n);
        if (!g9.g[i]) continue;
        s->g[s->ng] = g9.w[i];
        s->g[s->ng].frame = m_pick_live(&s->m);
        aa_rx_geom_attach(s->sg, m_names[s->g[s->ng].frame], aa_rx_geom_copy(g9.g[i]));
        s->ng++;
    }
    SIM_CHECK(!aa_rx_sg_init(s->sg), "scene", "rejected");
    return s;
}
static void *p09_side(void *a) {        /* scenes and geometry that are never shown */
    for (int k = *(int *)a; k > 0; k--) {
        struct aa_rx_sg *sg = aa_rx_sg_create();
        aa_rx_sg_add_frame_fixed(sg, "", "x", NULL, NULL);
        struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
        double d[3] = {1, 1, 1};
        aa_rx_geom_attach(sg, "x", aa_rx_geom_box(o, d));
        aa_rx_geom_opt_destroy(o);
        aa_rx_sg_init(sg);
        aa_rx_sg_destroy(sg);
    }
    return NULL;
}
static void *p09_writer(void *a) {
    int n = *(int *)a;
    struct wstate st = wv[nwv - 1].st;
    struct wscene *cur = st.s; struct aa_rx_sg *keep[12]; int nk = 0;
    for (int k = 0; k < n && n_wsc < 11; k++) {
        switch (op_choose(4)) {
        case 0: default: {
            struct wscene *s = scene9(1);
            st.s = s; memset(st.q, 0, sizeof st.q);
            wv_begin(&st); aa_rx_win_set_sg(w_win, s->sg); wv_end();
            if (op_choose(3) == 2) keep[nk++] = cur->sg; else { aa_rx_sg_destroy(cur->sg); sim_probe("scene destroyed on another thread"); }
            cur = s; break; }
        case 1: {               /* a copy of the shown scene shares its geometry */
            struct wscene *s = &w_sc[n_wsc++];
            *s = *cur; s->sg = aa_rx_sg_copy(cur->sg);
            SIM_CHECK(!aa_rx_sg_init(s->sg), "scene", "copy rejected");
            for (int i = 0; i < NN; i++) if (s->m.f[i].live) { s->fid[i] = (int)aa_rx_sg_frame_id(s->sg, m_names[i]); s->cid[i] = s->m.f[i].type == AA_RX_FRAME_FIXED ? -1 : (int)aa_rx_sg_config_id(s->sg, s->m.f[i].cfg); }
            st.s = s; memset(st.q, 0, sizeof st.q);
            wv_begin(&st); aa_rx_win_set_sg(w_win, s->sg); wv_end();
            aa_rx_sg_destroy(cur->sg); cur = s; sim_probe("copy outlives the original"); break; }
        case 2: if (g9.n) { int i = (int)op_choose((uint32_t)g9.n); if (g9.g[i]) { aa_rx_geom_destroy(g9.g[i]); g9.g[i] = NULL; } } break;
        case 3: if (nk) aa_rx_sg_destroy(keep[--nk]); break;
        }
        if (op_choose(3) == 1) sim_sleep_ns((int64_t)op_choose(6) * 11000000);
        if (op_choose(4) == 1) w_wait_pictures(1);
    }
    while (nk) aa_rx_sg_destroy(keep[--nk]);
    return NULL;
}
static void p09_buffers(void) {
    w_reset();
    n_wsc = 0; memset(&g9, 0, sizeof g9); memset(&w_lastf, 0, sizeof w_lastf);
    w_win = aa_rx_win_default_create("sim", 400, 300);
    for (int k = op_range(0, 4); k > 0; k--) {
        struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
        aa_rx_geom_opt_set_color3(o, 1, 0, 0); aa_rx_geom_opt_set_alpha(o, 1); aa_rx_geom_opt_set_specular3(o, 0, 0, 0); aa_rx_geom_opt_set_scale(o, 1);
        aa_rx_geom_opt_set_visual(o, 1); aa_rx_geom_opt_set_collision(o, 0);
        struct wgeom *w = &g9.w[g9.n]; w->visual = 1; w->scale = 1; w->rgba[0] = 255; w->rgba[3] = 255;
        g9.g[g9.n] = w_geom(w, o); g9.n++;
        aa_rx_geom_opt_destroy(o);
    }
    struct wstate st; memset(&st, 0, sizeof st);
    st.visual = 1; st.s = scene9(1);
    wv_begin(&st); wv_end();
    aa_rx_win_set_sg(w_win, st.s->sg);
    glstub_on_swap = p09_swap; glstub_on_wait = w_on_wait;
    sim_tid loop = sim_spawn("loop", w_loop, NULL);
    int n1 = op_range(1, 9), n2 = op_range(0, 4);
    sim_tid a = sim_spawn("writer", p09_writer, &n1), b = sim_spawn("side", p09_side, &n2);
    sim_join(a); sim_join(b);
    for (int i = 0; i < g9.n; i++) if (g9.g[i]) aa_rx_geom_destroy(g9.g[i]);
    w_wait_pictures(4);
    /* only what the shown scene uses is left on the GPU */
    unsigned live[512], nl = glstub_live(live, 512);
    SIM_CHECK(nl <= 512, "gl-leak", "%u graphics objects", nl);
    for (unsigned i = 0; i < nl; i++) {
        int used = 0;
        for (int k = 0; k < w_lastf.n; k++) { const struct gl_draw *d = &w_lastf.d[k]; used |= d->values == live[i] || d->indices == live[i] || d->normals == live[i] || d->uv == live[i] || d->tex == live[i]; }
        SIM_CHECK(used, "gl-leak", "graphics object %u outlives every scene that used it (%u live, %llu made, %llu deleted)", live[i], nl, (unsigned long long)glstub_gen_count(), (unsigned long long)glstub_del_count());
    }
    sim_state(mixh(nl, glstub_del_count()));
    aa_rx_win_stop(w_win);
    sim_join(loop);
    aa_rx_win_destroy(w_win);
    aa_rx_sg_destroy(wv[nwv - 1].st.s->sg);
}
SIM_SCENARIO("P09", gl_buffers, p09_buffers, 1);

/* ------------------------------------------------------------ P10: calls into the window thread */
struct call { int runs, thread; void *ret; struct call *nested; int id; };
static int call_win; static struct call calls[64]; static int n_call, w_loop_id, w_creator;
static void *call_fn(void *p) {
    struct call *c = (struct call *)p;
    c->runs++; c->thread = sim_self_id();
    if (op_choose(3) == 1) sim_yield();
    if (c->nested) {
        void *r = aa_rx_win_call(call_fn, c->nested);
        SIM_CHECK(r == c->nested->ret && c->nested->runs == 1 && c->nested->thread == c->thread, "call-nested", "nested call: ran %d times", c->nested->runs);
        sim_probe("nested call");
    }
    if (call_win && op_choose(4) == 1) { double E[7]; aa_rx_win_get_tf_cam(w_win, E); }
    return c->ret;
}
static struct call *call_new(void) {
    struct call *c = &calls[n_call]; memset(c, 0, sizeof *c); c->id = n_call; c->ret = (char *)calls + n_call * 3 + 1; n_call++;
    return c;
}
static void call_make(void) {
    if (n_call > 60) return;
    struct call *c = call_new();
    if (op_choose(5) == 4) c->nested = call_new();
    void *r = aa_rx_win_call(call_fn, c);
    SIM_CHECK(r == c->ret, "call-result", "call %d returned another call's result", c->id);
    SIM_CHECK(c->runs == 1, "call-once", "call %d ran %d times", c->id, c->runs);
    int me = sim_self_id();
    SIM_CHECK(c->thread == w_loop_id || (me == w_creator && c->thread == me), "call-thread", "call %d from thread %d ran on thread %d, the loop is thread %d", c->id, me, c->thread, w_loop_id);
}
static void *call_thread(void *a) { for (int k = *(int *)a; k > 0; k--) { call_make(); if (op_choose(3) == 1) sim_sleep_ns((int64_t)op_choose(5) * 9000000); } return NULL; }
static void *call_loop(void *a) { (void)a; w_loop_id = sim_self_id(); aa_rx_win_run(); w_done = 1; return NULL; }
static void p10_calls(void) {
    w_reset();
    n_call = 0; w_win = NULL; w_loop_id = -1; w_creator = sim_self_id();
    int late = (int)cfg_choose(2), k[4], nt = 1 + (int)cfg_choose(4);
    sim_tid t[4], loop = NULL;
    for (int i = 0; i < nt; i++) k[i] = op_range(1, 5);
    call_win = !late;
    if (!late) w_win = aa_rx_win_default_create("sim", 400, 300);
    loop = sim_spawn("loop", call_loop, NULL);
    for (int i = 0; i < nt; i++) t[i] = sim_spawn("caller", call_thread, &k[i]);
    if (late) {
        if (op_choose(2)) sim_sleep_ns(20000000);
        struct aa_rx_win *w = aa_rx_win_default_create("sim", 400, 300);
        w_win = w; sim_probe("calls before the window exists");
    }
    for (int i = op_range(0, 2); i > 0; i--) call_make();
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    aa_rx_win_stop(w_win);
    sim_join(loop);
    aa_rx_win_destroy(w_win);
    sim_state((uint64_t)n_call);
}
SIM_SCENARIO("P10", win_call, p10_calls, 1);

/* ------------------------------------------------------------ P11: starting, stopping, closing */
static struct { int64_t stop_ns; uint64_t stop_frames; int runs_in; int loops; } l11;
static uint64_t l_frames; static int l_looping = -1, l_over[64], l_nruns;
static int p11_display(struct aa_rx_win *w, void *cx, struct aa_sdl_display_params *p) {
    (void)w; (void)p;
    int me = sim_self_id();
    SIM_CHECK(*(int *)cx == 77 || *(int *)cx == 78, "display-context", "display function called with a stale context");
    /* a loop another one has replaced shows nothing any more */
    if (l_looping >= 0 && l_looping != me) l_over[l_looping & 63] = 1;
    SIM_CHECK(!l_over[me & 63], "one-loop", "display called on threads %d and %d in turn", l_looping, me);
    l_looping = me; l_frames++;
    if (l11.stop_frames) { SIM_CHECK(l_frames <= l11.stop_frames + 3 + 2 * (uint64_t)l_nruns, "stop", "%llu frames after stop", (unsigned long long)(l_frames - l11.stop_frames)); }
    if (op_choose(2)) aa_sdl_display_params_set_update(p);
    return 0;
}
static int l_destroyed, l_owned;
static void p11_free(void *cx) { SIM_CHECK(*(int *)cx != 78, "display-context", "destructor called for a context that was given none"); SIM_CHECK(*(int *)cx == 77, "display-context", "context destroyed twice"); *(int *)cx = 0; l_destroyed++; }
static int p11_cx[8];
static volatile int l_ret;
static void *p11_run(void *a) { (void)a; if (op_choose(2)) sim_sleep_ns((int64_t)op_choose(40) * 1000000); aa_rx_win_run(); l_ret++; return NULL; }
static int pred_frames11(void *p) { return l_frames >= *(uint64_t *)p; }
static int pred_ret11(void *p) { return l_ret >= *(int *)p; }
static int *l_cur;
/* a context with or without a destructor; the one it replaces must be gone (or left alone) when the call returns */
static void p11_set(int *ncx) {
    int k = op_choose(4);
    int *cx = &p11_cx[(*ncx)++], owned = l_owned, *was = l_cur;
    *cx = k == 3 ? 78 : 77;
    if (k == 3) sim_probe("display context without a destructor");
    aa_rx_win_set_display(w_win, p11_display, cx, k == 3 ? NULL : p11_free);
    SIM_CHECK(l_destroyed == owned, "display-context", "%d contexts destroyed, %d with destructors replaced", l_destroyed, owned);
    if (was && *was == 78) *was = 0;        /* its owner may drop it now */
    l_cur = cx; l_owned += k != 3;
}
static void p11_once(void) {
    memset(&l11, 0, sizeof l11); l_frames = 0; l_looping = -1; l_ret = 0; l_destroyed = 0; w_win = NULL; memset(l_over, 0, sizeof l_over);
    memset(p11_cx, 0, sizeof p11_cx); l_cur = NULL; l_owned = 0;
    if (cfg_choose(3) == 2) { glstub_window_fail = 1; }
    int async = (int)cfg_choose(2), early = (int)cfg_choose(2), extra = (int)cfg_choose(3), ncx = 0, soq = (int)cfg_choose(3), byquit = 0, racing_destroy = (int)cfg_choose(3) == 2 && async;
    sim_tid r[4]; int nr = 0;
    if (early) { if (async) aa_rx_win_run_async(); else r[nr++] = sim_spawn("run", p11_run, NULL); sim_probe("loop started before the window exists"); }
    if (early && op_choose(2)) sim_sleep_ns((int64_t)op_choose(50) * 1000000);
    w_win = aa_rx_win_default_create("sim", 400, 300);
    SIM_CHECK(w_win, "create", "window was not created");
    SIM_CHECK(aa_rx_win_is_running(w_win), "running", "a window that was not stopped reports that it is not running");
    if (op_choose(3) == 2) SIM_CHECK(!aa_rx_win_default_create("second", 10, 10), "create", "a second window was created");
    if (soq) aa_rx_win_stop_on_quit(w_win, soq - 1);
    int stops = soq != 1;           /* the default is to stop */
    p11_set(&ncx);
    if (!early) { if (async) aa_rx_win_run_async(); else r[nr++] = sim_spawn("run", p11_run, NULL); }
    for (int i = 0; i < extra && !async; i++) { r[nr++] = sim_spawn("run2", p11_run, NULL); sim_probe("competing loops"); }
    l_nruns = nr;
    int steps = op_range(0, 5);
    for (int i = 0; i < steps && !byquit; i++) {
        switch (op_choose(5)) {
        case 0: { uint64_t n = l_frames + 1 + op_choose(3); sim_block_until(pred_frames11, &n, "the display loop to make progress"); break; }
        case 1: sim_sleep_ns((int64_t)op_choose(100) * 1000000); break;
        case 2: if (ncx < 8) { p11_set(&ncx); sim_probe("display function replaced while running"); } break;
        case 3:
            if (l_frames) {
                glstub_push_quit();
                if (stops) { byquit = 1; sim_probe("closed by the user"); }
                else { uint64_t n = l_frames + 3; sim_block_until(pred_frames11, &n, "the display loop to continue after an ignored close"); sim_probe("close ignored"); }
            }
            break;
        case 4: if (!async) SIM_CHECK(aa_rx_win_is_running(w_win), "running", "a running window reports that it is not"); break;
        }
    }
    if (!byquit) {
        aa_rx_win_stop(w_win);
        l11.stop_frames = l_frames + 1; l11.stop_ns = sim_now_ns();
        SIM_CHECK(!aa_rx_win_is_running(w_win), "running", "a stopped window reports that it is running");
    }
    if (racing_destroy && !byquit) {
        aa_rx_win_destroy(w_win);       /* nothing tells the caller when the asynchronous loop has ended */
        sim_probe("destroyed right after stop");
        sim_block_until(w_pred_alone, NULL, "the asynchronous loop to end");
    } else {
        if (async) sim_block_until(w_pred_alone, NULL, "the asynchronous loop to end");
        else { for (int i = 0; i < nr; i++) sim_join(r[i]); SIM_CHECK(l_ret == nr, "run", "%d of %d calls of run returned", l_ret, nr); }
        SIM_CHECK(!aa_rx_win_is_running(w_win), "running", "a window whose loop ended reports that it is running");
        if (l11.stop_ns) SIM_CHECK(sim_now_ns() - l11.stop_ns < 2000000000LL + 200000000LL * (int64_t)sim_fault_fired(F_STALL) * 0 || sim_fault_fired(F_STALL), "stop", "loop ended %.3f s after stop", 1e-9 * (double)(sim_now_ns() - l11.stop_ns));
        aa_rx_win_destroy(w_win);
    }
    SIM_CHECK(l_destroyed == l_owned, "display-context", "%d of %d display contexts were destroyed", l_destroyed, l_owned);
    SIM_CHECK(glstub_windows() == 0 && glstub_contexts() == 0, "destroy", "window or context left behind");
    sim_state(mixh(l_frames, (uint64_t)ncx));
}
static void p11_life(void) {
    w_reset();
    p11_once();
}
SIM_SCENARIO("P11", win_life, p11_life, 1);

/* ------------------------------------------------------------ P13: timed playback of plans */
#define MAXP 12
#define DT13 0.8
struct plan13 { int nel, np[4], tot, made; struct aa_rx_sg *sg[4]; float box[4]; double y[24], z[24]; int keepseq; struct aa_rx_mp_seq *seq; uint64_t beg, end; };
static struct plan13 pl[MAXP]; static int n_pl, n_sg13; static struct { struct aa_rx_sg *sg; float box; int cx, cy, cz; } sg13[4];
static struct { int v, shown, wraps; double a, b; double la, lb; uint64_t ltick; int points; } p13;
static double w_lower_s;
static double now_s(void) { return 1e-9 * (double)sim_now_ns(); }
static void p13_on_wait(void) { w_lower = w_tick(); w_lower_s = now_s(); }
static void p13_swap(const struct gl_frame *f) {
    uint64_t now = w_tick(); double hi = now_s(), lo = w_lower_s;
    w_frames++;
    if (!f->cleared) { if (f->seq && p13.ltick == 0) { p13.ltick = now; p13.la = lo; p13.lb = hi; p13.shown = 0; } return; }
    w_pictures++;
    SIM_CHECK(f->n == 1, "plan-picture", "%d pieces drawn for a plan over scenes of one", f->n);
    const struct gl_draw *d = &f->d[0];
    double x = d->M[12];
    int v = (int)floor((x + 0.01) / 32);
    SIM_CHECK(v >= 0 && v < n_pl, "plan", "the picture shows no point of any plan (x = %g)", x);
    const struct plan13 *p = &pl[v];
    double u = x - 32 * v, eps = 2e-3;
    int i0 = (int)floor(u + 2e-4), e = 0, off = 0;
    double fr = u - i0; if (fr < 2e-4) fr = 0;
    SIM_CHECK(i0 >= 0 && i0 < p->tot, "plan", "plan %d of %d points shows point %g", v, p->tot, u);
    while (off + p->np[e] <= i0) off += p->np[e++];
    int last = i0 + 1 == off + p->np[e];
    SIM_CHECK(!(last && fr > 0), "plan", "plan %d is interpolated past the end of part %d", v, e);
    SIM_CHECK(fabsf(d->hi[0] - p->box[e] / 2) < 1e-5, "plan", "plan %d, point %g is shown in the scene of another part", v, u);
    double y = p->y[i0] + (last ? 0 : fr * (p->y[i0 + 1] - p->y[i0])), z = p->z[i0] + (last ? 0 : fr * (p->z[i0 + 1] - p->z[i0]));
    SIM_CHECK(fabs(d->M[13] - y) < 1e-2 && fabs(d->M[14] - z) < 1e-2, "plan", "plan %d at %g is at (%g %g), not (%g %g)", v, u, d->M[13], d->M[14], y, z);
    /* when may this point be shown? */
    double t_lo = (i0 + fr) * DT13 - eps, t_hi = (last ? i0 + 1 : i0 + fr) * DT13 + eps, T = p->tot * DT13;
    int ok = 0; double na = 1e300, nb = -1e300;
    int start = i0 == 0 && fr == 0;
#define ADD13(A, B) do { double A_ = (A), B_ = (B); if (A_ <= B_ + eps) { ok = 1; if (A_ < na) na = A_; if (B_ > nb) nb = B_; } } while (0)
    if (p13.shown && v == p13.v) {
        ADD13(fmax(p13.a, lo - t_hi), fmin(p13.b, hi - t_lo));
        int cont = ok;
        if (start && hi - p13.a >= T - eps) { ADD13(fmax(lo, p13.a + T), hi); if (!cont) { p13.wraps++; sim_probe("plan restarted"); } }
    } else {
        SIM_CHECK(v >= p13.v && (p13.v == v || CAND(pl, n_pl, v, w_lower, now)), "plan", "plan %d is shown after plan %d, out of its time", v, p13.v);
        SIM_CHECK(CAND(pl, n_pl, v, w_lower, now), "plan", "plan %d is shown out of its time", v);
        if (start) ADD13(lo, hi);                                          /* restarts when first drawn */
        if (pl[v].beg < p13.ltick) { ADD13(fmax(p13.la, lo - t_hi), fmin(p13.lb, hi - t_lo)); if (start && hi - p13.la >= T - eps) ADD13(lo, hi); }
        if (v != p13.v) p13.wraps = 0;
    }
    SIM_CHECK(CAND(pl, n_pl, v, w_lower, now), "plan", "plan %d is still shown after it was replaced", v);
    SIM_CHECK(ok, "plan-time", "plan %d shows point %g %.3f..%.3f s after its start", v, u, lo - p13.b, hi - p13.a);
    p13.v = v; p13.shown = 1; p13.a = na; p13.b = nb;
    sim_state(mixh((uint64_t)v * 32 + (uint64_t)i0, (uint64_t)(fr * 8)));
    sim_hash_u64((uint64_t)(u * 1000));
}
static void p13_scene(int k) {
    struct aa_rx_sg *sg = aa_rx_sg_create();
    static const double ax[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    int ord[3] = {0, 1, 2};
    for (int i = 2; i > 0; i--) { int j = (int)op_choose((uint32_t)i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
    static const char *nm[3] = {"fx", "fy", "fz"}, *cn[3] = {"x", "y", "z"};
    const char *par = "";
    for (int i = 0; i < 3; i++) { aa_rx_sg_add_frame_prismatic(sg, par, nm[ord[i]], NULL, NULL, cn[ord[i]], ax[ord[i]], 0); par = nm[ord[i]]; }
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    aa_rx_geom_opt_set_color3(o, 1, 0, 0); aa_rx_geom_opt_set_alpha(o, 1); aa_rx_geom_opt_set_specular3(o, 0, 0, 0); aa_rx_geom_opt_set_scale(o, 1); aa_rx_geom_opt_set_visual(o, 1);
    double s = 0.5 + 0.25 * k, d[3] = {s, s, s};
    aa_rx_geom_attach(sg, par, aa_rx_geom_box(o, d));
    aa_rx_geom_opt_destroy(o);
    SIM_CHECK(!aa_rx_sg_init(sg), "scene", "rejected");
    sg13[k].sg = sg; sg13[k].box = (float)s;
    sg13[k].cx = (int)aa_rx_sg_config_id(sg, "x"); sg13[k].cy = (int)aa_rx_sg_config_id(sg, "y"); sg13[k].cz = (int)aa_rx_sg_config_id(sg, "z");
}
/* one element's points */
static double *p13_points(const struct plan13 *p, int v, int e, int off, int k) {
    double *a = (double *)malloc(sizeof(double) * 3 * (size_t)p->np[e]);
    for (int i = 0; i < p->np[e]; i++) { a[3 * i + sg13[k].cx] = 32 * v + off + i; a[3 * i + sg13[k].cy] = p->y[off + i]; a[3 * i + sg13[k].cz] = p->z[off + i]; }
    return a;
}
static void p13_seq_check(struct plan13 *p, int v) {
    SIM_CHECK((int)aa_rx_mp_seq_count(p->seq) == p->nel && (int)aa_rx_mp_seq_point_count(p->seq) == p->tot, "seq", "sequence holds %zu parts of %zu points", aa_rx_mp_seq_count(p->seq), aa_rx_mp_seq_point_count(p->seq));
    int off = 0;
    for (int e = 0; e <= p->nel; e++) {
        const struct aa_rx_sg *sg; size_t n; const double *q;
        aa_rx_mp_seq_elt(p->seq, (size_t)e, &sg, &n, &q);
        if (e == p->nel) { SIM_CHECK(!sg && !n && !q, "seq", "part %d of %d exists", e, p->nel); break; }
        SIM_CHECK(sg == p->sg[e] && (int)n == p->np[e], "seq", "part %d is another one", e);
        for (int i = 0; i < p->np[e]; i++) { double s = q[3 * i] + q[3 * i + 1] + q[3 * i + 2], w = 32 * v + off + i + p->y[off + i] + p->z[off + i]; SIM_CHECK(s == w, "seq", "part %d, point %d changed", e, i); }
        off += p->np[e];
    }
}
static void p13_install(void) {
    struct plan13 *p = &pl[n_pl]; int v = n_pl;
    memset(p, 0, sizeof *p);
    p->nel = op_choose(2) ? 1 : op_range(1, 4);
    for (int e = 0; e < p->nel; e++) { p->np[e] = op_range(1, 5); p->tot += p->np[e]; }
    for (int i = 0; i < p->tot; i++) { p->y[i] = (int)op_choose(9) - 4; p->z[i] = (int)op_choose(9) - 4; }
    p->seq = p->nel > 1 || op_choose(2) ? aa_rx_mp_seq_create() : NULL;
    int off = 0; double *a = NULL;
    for (int e = 0; e < p->nel; e++) {
        int k = (int)op_choose((uint32_t)n_sg13);
        p->sg[e] = sg13[k].sg; p->box[e] = sg13[k].box;
        a = p13_points(p, v, e, off, k);
        if (p->seq) { aa_rx_mp_seq_append_all(p->seq, sg13[k].sg, (size_t)p->np[e], a); memset(a, 0xA5, sizeof(double) * 3 * (size_t)p->np[e]); free(a); }
        off += p->np[e];
    }
    p->end = 0; p->beg = w_tick(); n_pl++;
    if (p->seq) { p13_seq_check(p, v); aa_rx_win_set_display_seq(w_win, p->seq); }
    else { aa_rx_win_set_display_plan(w_win, p->sg[0], (size_t)p->np[0], a); memset(a, 0xA5, sizeof(double) * 3 * (size_t)p->np[0]); free(a); }
    p->end = w_tick();
}
static int pred13(void *c) { (void)c; return p13.shown && p13.v == n_pl - 1 && (p13.wraps >= 1 || pl[n_pl - 1].tot == 1); }
static void *p13_writer(void *a) {
    for (int k = *(int *)a; k > 0 && n_pl < MAXP; k--) {
        sim_sleep_ns((int64_t)op_choose(60) * 100000000);
        int was = n_pl - 1;
        p13_install();
        if (pl[was].seq) { p13_seq_check(&pl[was], was); aa_rx_mp_seq_destroy(pl[was].seq); pl[was].seq = NULL; sim_probe("sequence destroyed after it was replaced"); }
    }
    return NULL;
}
static int w_quits_left;
static void p13_on_event(const SDL_Event *e) { if (e->type == SDL_QUIT) { p13.ltick = 0; sim_probe("playback restarted by a new loop"); } }
static void p13_play(void) {
    w_reset();
    sim_set_step_limit(60000000);
    n_pl = 0; memset(&p13, 0, sizeof p13); p13.v = -1; w_lower_s = now_s();
    aa_sdl_init();
    sim_heap_fill(0xA5);
    uint64_t mark = sim_heap_mark();
    n_sg13 = op_range(1, 4);
    for (int k = 0; k < n_sg13; k++) p13_scene(k);
    w_win = aa_rx_win_default_create("sim", 400, 300);
    aa_rx_win_stop_on_quit(w_win, 0);
    glstub_on_swap = p13_swap; glstub_on_wait = p13_on_wait; glstub_on_event = p13_on_event;
    int early = (int)cfg_choose(2), n = op_range(0, 3);
    if (early) p13_install();
    sim_tid loop = sim_spawn("loop", w_loop, NULL);
    if (!early) { if (op_choose(2)) sim_sleep_ns((int64_t)op_choose(20) * 10000000); p13_install(); }
    sim_tid w = sim_spawn("writer", p13_writer, &n);
    w_quits_left = cfg_choose(3) == 2 ? 1 + (int)op_choose(2) : 0;
    while (w_quits_left-- > 0) { sim_sleep_ns((int64_t)op_choose(40) * 100000000); glstub_push_quit(); }
    sim_join(w);
    sim_block_until(pred13, NULL, "the last plan to be played to its end");
    aa_rx_win_set_display(w_win, w_blank, NULL, NULL);
    for (int k = 0; k < n_sg13; k++) aa_rx_sg_destroy(sg13[k].sg);
    glstub_on_swap = w_count_swap;
    w_wait_pictures(3);
    aa_rx_win_stop(w_win);
    sim_join(loop);
    aa_rx_win_destroy(w_win);
    if (pl[n_pl - 1].seq) aa_rx_mp_seq_destroy(pl[n_pl - 1].seq);
    aa_mem_region_local_destroy();
    LEAKCHECK(mark, "leak");
}
SIM_SCENARIO("P13", win_plan, p13_play, 1);

/* ------------------------------------------------------------ P23: input events */
/* Operations on the camera: events (loop thread), sets and reads (any thread).
 * A history is right if some order of the operations that respects real time
 * explains every picture and every read. */
enum { O_EVENT, O_SET, O_READ, O_PICT, O_CLIP, O_HOME };
struct op23 { int kind, th; uint64_t beg, end; double E[7]; SDL_Event ev; int dm[2]; float Mc[16], vc[3]; double aspect; int axes[6]; char clip[160]; int ctrl, shift, alt; };
#define MAXO 400
static struct op23 o23[MAXO]; static int n_o23, o23_full;
static struct op23 *o_add(int kind, int th) {
    if (n_o23 >= MAXO) { o23_full = 1; static struct op23 d; return &d; }
    struct op23 *o = &o23[n_o23++];
    memset(o, 0, sizeof *o); o->kind = kind; o->th = th; o->beg = w_tick();
    return o;
}
static struct op23 *o23_open;       /* the event being processed by the loop */
static int o23_spnav_on, o23_ctrl, o23_shift, o23_alt, o23_mx, o23_my;
static double o23_home[7];
static void o23_close(void) { if (o23_open) { o23_open->end = w_tick(); if (o23_open->kind == O_CLIP) snprintf(o23_open->clip, sizeof o23_open->clip, "%s", glstub_clipboard()); o23_open = NULL; } }
static void o23_event(double *E, const struct op23 *o) {
    const SDL_Event *e = &o->ev;
    double pre[4] = {0, 0, 0, 1}, post[7] = {0, 0, 0, 1, 0, 0, 0}, ax = 0, az = 0, s = 1;
    const double R = .05;
    int moved = 1;
    if (o->axes[0] || o->axes[1] || o->axes[2] || o->axes[3] || o->axes[4] || o->axes[5]) {
        double d[6], v[3], w[3], dx[6], N[7];
        for (int i = 0; i < 6; i++) { double a = o->axes[i] / 350.0; d[i] = a > .1 ? (a - .1) / .9 : a < -.1 ? (a + .1) / .9 : 0; }
        const double sv[3] = {1.5, 1.5, -1.5}, sw[3] = {2, 2, -2};
        for (int i = 0; i < 3; i++) { v[i] = d[i] * sv[i]; w[i] = d[3 + i] * sw[i]; }
        mq_rot(E, v, dx); mq_rot(E, w, dx + 3);
        if (!(fabs(d[0]) + fabs(d[1]) + fabs(d[2]) + fabs(d[3]) + fabs(d[4]) + fabs(d[5]) > 0)) return;
        aa_tf_qutr_svel(E, dx, 1.0 / 30, N);
        memcpy(E, N, sizeof N);
        return;
    }
    switch (e->type) {
    case SDL_KEYDOWN:
        switch (e->key.keysym.sym) {
        case SDLK_KP_2: s = -1; /* fall through */
        case SDLK_KP_8: if (o->ctrl) post[5] = s * R; else ax = s * R; break;
        case SDLK_KP_4: s = -1; /* fall through */
        case SDLK_KP_6: if (o->ctrl) post[4] = s * R; else az = s * R; break;
        case SDLK_KP_MINUS: post[6] = R; break;
        case SDLK_KP_PLUS: post[6] = -R; break;
        case SDLK_HOME: memcpy(E, o23_home, 56); break;
        default: moved = 0; break;
        }
        break;
    case SDL_MOUSEMOTION:
        if (e->motion.state & SDL_BUTTON(SDL_BUTTON_LEFT)) { ax = -.1 * R * o->dm[1]; az = -.1 * R * o->dm[0]; }
        else if (e->motion.state & SDL_BUTTON(SDL_BUTTON_RIGHT)) { post[4] = -.1 * R * o->dm[0]; post[5] = .1 * R * o->dm[1]; }
        else moved = 0;
        break;
    case SDL_MOUSEWHEEL: {
        double y = e->wheel.y * R;
        if (o->ctrl && o->shift) { post[2] = sin(y / 2); post[3] = cos(y / 2); }
        else if (o->alt && o->shift) ax = y;
        else if (o->alt && o->ctrl) az = y;
        else if (o->ctrl) post[4] = y;
        else if (o->shift) post[5] = y;
        else if (!o->alt) post[6] = -y;
        break; }
    default: moved = 0;
    }
    if (!moved) return;
    double xw[3], ex[3] = {1, 0, 0}, qx[4], qz[4] = {0, 0, sin(az / 2), cos(az / 2)}, N[7], P[7] = {0};
    mq_rot(E, ex, xw);
    for (int i = 0; i < 3; i++) qx[i] = xw[i] * sin(ax / 2);
    qx[3] = cos(ax / 2);
    mq_mul(qz, qx, pre); memcpy(P, pre, 32);
    mE_mul(P, E, N); mE_mul(N, post, E);
}
static int o23_same(const double *A, const double *B) {
    double d = 0, s = A[0] * B[0] + A[1] * B[1] + A[2] * B[2] + A[3] * B[3] < 0 ? -1 : 1;
    for (int i = 0; i < 4; i++) d += fabs(A[i] - s * B[i]);
    for (int i = 4; i < 7; i++) d += fabs(A[i] - B[i]) / (1 + fabs(B[i]));
    return d < 1e-6;
}
/* depth-first search over the orders */
static int o_seq[3][MAXO], o_n[3], o_best; static long o_budget;
static struct { uint8_t full; uint16_t at[3]; double E[7]; } o_seen[1 << 14]; static int o_nseen;
static int o_seen_before(const int *at, const double *E) {
    uint64_t h = mixh(mixh((uint64_t)at[0], (uint64_t)at[1]), (uint64_t)at[2]);
    for (int i = 0; i < 3; i++) h = mixh(h, (uint64_t)(int64_t)llrint(E[4 + i] * 1e6));
    for (uint32_t k = 0; k < 64; k++) {
        uint32_t s = (uint32_t)((h + k) & ((1 << 14) - 1));
        if (!o_seen[s].full) { o_seen[s].full = 1; for (int i = 0; i < 3; i++) o_seen[s].at[i] = (uint16_t)at[i]; memcpy(o_seen[s].E, E, 56); return 0; }
        if (o_seen[s].at[0] == at[0] && o_seen[s].at[1] == at[1] && o_seen[s].at[2] == at[2] && o23_same(o_seen[s].E, E)) return 1;
    }
    return 0;
}
static int o_explain(int *at, const double *E) {
    int done = at[0] + at[1] + at[2];
    if (done > o_best) o_best = done;
    if (at[0] == o_n[0] && at[1] == o_n[1] && at[2] == o_n[2]) return 1;
    if (--o_budget < 0) return 1;           /* undecided counts as explained */
    if (o_seen_before(at, E)) return 0;
    uint64_t first_end = UINT64_MAX;
    for (int t = 0; t < 3; t++) if (at[t] < o_n[t] && o23[o_seq[t][at[t]]].end < first_end) first_end = o23[o_seq[t][at[t]]].end;
    for (int t = 0; t < 3; t++) {
        if (at[t] >= o_n[t]) continue;
        const struct op23 *o = &o23[o_seq[t][at[t]]];
        if (o->beg > first_end) continue;
        double N[7]; memcpy(N, E, 56);
        int ok = 1;
        switch (o->kind) {
        case O_EVENT: o23_event(N, o); break;
        case O_SET: memcpy(N, o->E, 56); break;
        case O_READ: ok = o23_same(o->E, E); break;
        case O_CLIP: { char b[160]; double v[7]; snprintf(b, sizeof b, "%s", o->clip);
            ok = sscanf(b, "%lf %lf %lf %lf %lf %lf %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6) == 7;
            for (int i = 0; i < 7 && ok; i++) ok = fabs(v[i] - E[i]) < 2e-6 || (i < 4 && fabs(v[i] + E[i]) < 2e-6); break; }
        case O_PICT: { struct gl_frame f; memcpy(f.M_cam, o->Mc, sizeof f.M_cam); memcpy(f.v_cam, o->vc, sizeof f.v_cam); ok = w_cam_ok(&f, E, o->aspect); break; }
        default: break;
        }
        if (!ok) continue;
        at[t]++;
        if (o_explain(at, N)) return 1;
        at[t]--;
    }
    return 0;
}
/* bound handlers */
#define MAXB 24
static struct { int key, type, ret; uint64_t beg, end; int hits; } bind23[MAXB]; static int n_bind;
static int h_next_seq, h_bad; static const SDL_Event *h_cur;
static int h23(void *cx, struct aa_sdl_display_params *p) {
    long b = (long)cx - 1;
    SIM_CHECK(b >= 0 && b < n_bind, "handler", "handler called with another's context");
    const SDL_Event *e = aa_sdl_display_params_get_event(p);
    SIM_CHECK(h_cur && e->type == h_cur->type && (e->type == SDL_KEYDOWN ? e->key.keysym.sym == h_cur->key.keysym.sym : e->user.code == h_cur->user.code), "handler", "handler %ld sees another event", b);
    SIM_CHECK(e->type == SDL_KEYDOWN ? bind23[b].key == e->key.keysym.sym : bind23[b].type == (int)e->type, "handler", "handler %ld called for an event it is not bound to", b);
    bind23[b].hits++; h_next_seq++;
    SIM_CHECK(h_next_seq == 1, "handler", "one event was handled %d times", h_next_seq);
    /* the first binding handles the event */
    for (int k = 0; k < n_bind; k++) if (k != b && bind23[k].key == bind23[b].key && bind23[k].type == bind23[b].type && bind23[k].end && bind23[k].end < bind23[b].beg) SIM_CHECK(0, "handler", "binding %ld handled an event bound before by %d", b, k);
    sim_probe("bound handler called");
    if (bind23[b].ret == 0) { if (o23_open) { o23_open->kind = O_HOME; } }    /* handled: the camera stays */
    return bind23[b].ret;
}
static void p23_prev_done(void) {
    if (h_cur) {
        /* had a complete binding existed before the event was delivered? */
        for (int k = 0; k < n_bind; k++) if (bind23[k].end && o23_open && bind23[k].end < o23_open->beg && bind23[k].type == (int)h_cur->type && (h_cur->type != SDL_KEYDOWN || bind23[k].key == h_cur->key.keysym.sym))
            SIM_CHECK(h_next_seq == 1, "handler", "an event was not passed to the handler bound to it");
        h_cur = NULL;
    }
    o23_close();
}
static SDL_Event h_copy;
static void p23_on_event(const SDL_Event *e) {
    p23_prev_done();
    struct op23 *o = o_add(e->type == SDL_KEYDOWN && e->key.keysym.sym == SDLK_c ? O_CLIP : O_EVENT, 0);
    o->ev = *e; o->ctrl = o23_ctrl; o->shift = o23_shift; o->alt = o23_alt;
    if (e->type == SDL_MOUSEMOTION) { o->dm[0] = e->motion.x - o23_mx; o->dm[1] = e->motion.y - o23_my; o23_mx = e->motion.x; o23_my = e->motion.y; }
    w_on_event(e);
    o23_open = o; h_copy = *e; h_cur = &h_copy; h_next_seq = 0;
}
static void p23_on_wait(void) { p23_prev_done(); w_lower = w_tick(); }
static void p23_on_spnav(const int *axes) {
    p23_prev_done();
    if (!axes || !o23_spnav_on) return;
    struct op23 *o = o_add(O_EVENT, 0);
    /* the device reports x y z rx ry rz; the library keeps translation first */
    memcpy(o->axes, axes, sizeof o->axes);
    o23_open = o;
}
static void p23_on_swap(const struct gl_frame *f) {
    p23_prev_done();
    w_frames++;
    if (!f->cleared) return;
    w_pictures++;
    struct op23 *o = o_add(O_PICT, 0);
    o->beg = w_lower; memcpy(o->Mc, f->M_cam, sizeof o->Mc); memcpy(o->vc, f->v_cam, sizeof o->vc); o->aspect = w_aspect;
    o->end = w_tick();
}
static int th23, nk23;
static void *p23_user(void *a) {
    int n = *(int *)a, th = ++th23;
    for (int k = 0; k < n; k++) {
        switch (op_choose(5)) {
        case 0: { double E[7]; w_randcam(E); struct op23 *o = o_add(O_SET, th); memcpy(o->E, E, 56); aa_rx_win_set_tf_cam(w_win, E); o->end = w_tick(); break; }
        case 1: { double E[7]; struct op23 *o = o_add(O_READ, th); aa_rx_win_get_tf_cam(w_win, E); memcpy(o->E, E, 56); o->end = w_tick(); break; }
        case 2: if (n_bind < MAXB) {
            int b = n_bind++;
            static const int ks[] = {SDLK_a, SDLK_b, SDLK_KP_8, SDLK_c, SDLK_KP_PLUS};
            memset(&bind23[b], 0, sizeof bind23[b]);
            bind23[b].ret = op_choose(3) == 2 ? 1 : 0;
            bind23[b].beg = w_tick();
            if (op_choose(2)) { bind23[b].type = SDL_KEYDOWN; bind23[b].key = ks[op_choose((uint32_t)nk23)]; aa_sdl_bind_key(bind23[b].key, h23, (void *)(long)(b + 1)); }
            else { bind23[b].type = op_choose(2) ? SDL_MOUSEWHEEL : SDL_USEREVENT; aa_sdl_bind_event((SDL_EventType)bind23[b].type, h23, (void *)(long)(b + 1)); }
            bind23[b].end = w_tick(); } break;
        case 3: { SDL_Event e; memset(&e, 0, sizeof e); static const int ks[] = {SDLK_a, SDLK_b, SDLK_KP_8, SDLK_c, SDLK_KP_PLUS, SDLK_HOME, SDLK_KP_4, SDLK_KP_2};
            static int code;
            switch (op_choose(4)) {
            case 0: e.type = SDL_KEYDOWN; e.key.windowID = 1; e.key.keysym.sym = ks[op_choose(nk23 < 5 && op_choose(2) ? (uint32_t)nk23 : 8)]; break;
            case 1: e.type = SDL_USEREVENT; e.user.code = ++code; break;
            case 2: e.type = SDL_MOUSEWHEEL; e.wheel.y = (int)op_choose(5) - 2; break;
            case 3: e.type = SDL_MOUSEMOTION; e.motion.x = (int)op_choose(50); e.motion.y = (int)op_choose(50); e.motion.state = op_choose(2) ? SDL_BUTTON(SDL_BUTTON_LEFT) : op_choose(2) ? SDL_BUTTON(SDL_BUTTON_RIGHT) : 0; break;
            }
            glstub_push(&e); break; }
        case 4: sim_sleep_ns((int64_t)op_choose(8) * 9000000); break;
        }
    }
    return NULL;
}
static int pred_quiet(void *c) { (void)c; return glstub_pending() == 0; }
static void p23_events(void) {
    w_reset();
    n_o23 = n_bind = th23 = o23_full = 0; nk23 = 1 + (int)cfg_choose(5); o23_open = NULL; h_cur = NULL; o23_mx = o23_my = 0; n_wsc = 0;
    o23_ctrl = cfg_choose(4) == 1; o23_shift = cfg_choose(4) == 1; o23_alt = cfg_choose(4) == 1; o23_spnav_on = cfg_choose(3) == 2;
    glstub_key(SDL_SCANCODE_LCTRL, o23_ctrl); glstub_key(SDL_SCANCODE_RSHIFT, o23_shift); glstub_key(SDL_SCANCODE_LALT, o23_alt);
    glstub_spnav_have(cfg_choose(3) != 0); if (cfg_choose(3) == 0) { glstub_spnav_have(0); o23_spnav_on = 0; }
    w_win = aa_rx_win_default_create("sim", 400, 300);
    aa_rx_win_stop_on_quit(w_win, 0);
    struct wscene *s = &w_sc[n_wsc++];
    w_build(s, 1, 3, 1);
    aa_rx_win_set_sg(w_win, s->sg);
    double E0[7]; aa_rx_win_get_tf_cam(w_win, E0); memcpy(o23_home, E0, 56);
    glstub_key(SDL_SCANCODE_F, o23_spnav_on);
    int focus = cfg_choose(4) != 1; glstub_focus(focus); if (!focus) o23_spnav_on = 0;
    if (o23_spnav_on) { int a[6]; for (int i = 0; i < 6; i++) a[i] = ((int)op_choose(9) - 4) * 80; glstub_spnav(a[0], a[1], a[2], a[3], a[4], a[5]); sim_probe("spacenav"); }
    glstub_on_swap = p23_on_swap; glstub_on_wait = p23_on_wait; glstub_on_event = p23_on_event; glstub_on_spnav = p23_on_spnav;
    if (cfg_choose(2)) { glstub_event_kinds = GE_MOTION | GE_WHEEL | GE_KEY | GE_RESIZE | GE_EXPOSE | GE_HOME; sim_fault_enable(F_INPUT_EVENT, 1, 12); }
    sim_tid loop = sim_spawn("loop", w_loop, NULL);
    int n[2] = {op_range(1, 12), op_range(0, 10)};
    sim_tid a = sim_spawn("user", p23_user, &n[0]), b = sim_spawn("user", p23_user, &n[1]);
    sim_join(a); sim_join(b);
    sim_block_until(pred_quiet, NULL, "all events to be taken");
    w_wait_pictures(2);
    aa_rx_win_stop(w_win);
    sim_join(loop);
    p23_prev_done();
    { struct op23 *o = o_add(O_READ, 1); aa_rx_win_get_tf_cam(w_win, o->E); o->end = w_tick(); }
    if (!o23_full) {
        memset(o_n, 0, sizeof o_n); memset(o_seen, 0, sizeof o_seen); o_best = 0; o_budget = 20000;
        for (int i = 0; i < n_o23; i++) { SIM_CHECK(o23[i].end, "harness", "operation %d never ended", i); o_seq[o23[i].th][o_n[o23[i].th]++] = i; }
        int at[3] = {0, 0, 0};
        int ok = o_explain(at, E0);
        if (o_budget < 0) sim_probe("order search gave up");
        SIM_CHECK(ok, "camera-order", "no order of %d operations on the camera explains what was seen (at most %d)", n_o23, o_best);
    }
    sim_state(mixh((uint64_t)n_o23, (uint64_t)h_next_seq));
    aa_rx_win_destroy(w_win);
    aa_rx_sg_destroy(s->sg);
}
SIM_SCENARIO("P23", win_events, p23_events, 1);

/* driving the robot with the device: the end-effector follows the commanded velocity, within limits */
static struct { int x, ax[3], cycles, drawn; double pos[3], lim; struct aa_rx_sg_sub *ssg; int have_lim; } tele;
static void tele_vel(double *v) {
    double d[3];
    for (int i = 0; i < 3; i++) { double a = tele.ax[i] / 350.0; d[i] = a > .1 ? (a - .1) / .9 : a < -.1 ? (a + .1) / .9 : 0; }
    v[0] = .5 * d[2]; v[1] = -.5 * d[0]; v[2] = .5 * d[1];
}
static void tele_spnav(const int *axes) {
    (void)axes;
    tele.cycles++;
    if (op_choose(8) == 1) { tele.x = !tele.x; glstub_key(SDL_SCANCODE_X, tele.x); }
    if (op_choose(40) == 1) { aa_rx_win_set_sg_sub(w_win, tele.ssg); memset(tele.pos, 0, sizeof tele.pos); sim_probe("scene replaced while driving"); }
}
static void tele_swap(const struct gl_frame *f) {
    w_frames++;
    if (!f->cleared) return;
    w_pictures++; tele.drawn++;
    SIM_CHECK(f->n == 1, "drive", "%d pieces drawn", f->n);
    double v[3]; tele_vel(v);
    for (int i = 0; i < 3; i++) {
        double p = f->d[0].M[12 + i], want = tele.pos[i] + (tele.x && tele.cycles ? v[i] / 30 : 0), tol = 2e-3 + 0.1 * fabs(v[i] / 30);
        if (tele.have_lim && fabs(tele.pos[i]) >= tele.lim - 1e-5 && want * tele.pos[i] > 0 && fabs(want) >= fabs(tele.pos[i])) want = tele.pos[i];
        SIM_CHECK(fabs(p - want) < tol, "drive", "axis %d is at %g, expected %g (was %g, command %g)", i, p, want, tele.pos[i], tele.x ? v[i] : 0);
        SIM_CHECK(!tele.have_lim || fabs(p) < tele.lim + 0.03, "drive-limit", "axis %d is at %g beyond its limit %g", i, p, tele.lim);
        tele.pos[i] = p;
    }
    sim_hash_u64((uint64_t)(int64_t)(tele.pos[0] * 1e4));
}
static int tele_pred(void *c) { (void)c; return tele.drawn >= 60; }
static void p23_drive(void) {
    w_reset();
    memset(&tele, 0, sizeof tele);
    glstub_spnav_have(1);
    p13_scene(0);
    tele.have_lim = (int)cfg_choose(2); tele.lim = 0.2;
    if (tele.have_lim) { aa_rx_sg_set_limit_pos(sg13[0].sg, "x", -tele.lim, tele.lim); aa_rx_sg_set_limit_pos(sg13[0].sg, "y", -tele.lim, tele.lim); aa_rx_sg_set_limit_pos(sg13[0].sg, "z", -tele.lim, tele.lim); aa_rx_sg_init(sg13[0].sg); }
    sim_heap_fill(0xA5);
    tele.ssg = aa_rx_sg_chain_create(sg13[0].sg, AA_RX_FRAME_ROOT, (aa_rx_frame_id)aa_rx_sg_frame_count(sg13[0].sg) - 1);
    for (int i = 0; i < 3; i++) tele.ax[i] = ((int)op_choose(9) - 4) * 80;
    glstub_spnav(tele.ax[0], tele.ax[1], tele.ax[2], 0, 0, 0);
    w_win = aa_rx_win_default_create("sim", 400, 300);
    aa_rx_win_set_sg_sub(w_win, tele.ssg);
    glstub_focus(1);
    glstub_on_swap = tele_swap; glstub_on_spnav = tele_spnav;
    sim_tid loop = sim_spawn("loop", w_loop, NULL);
    sim_block_until(tele_pred, NULL, "60 pictures");
    aa_rx_win_stop(w_win);
    sim_join(loop);
    aa_rx_win_destroy(w_win);
    aa_rx_sg_sub_destroy(tele.ssg);
    aa_rx_sg_destroy(sg13[0].sg);
}
SIM_SCENARIO("P23", win_drive, p23_drive, 1);
