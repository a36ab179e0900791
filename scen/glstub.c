#define GL_GLEXT_PROTOTYPES
#include <SDL.h>
#include <SDL_opengl.h>
#include <spnav.h>
#include <sys/mman.h>
#include "util.h"
#include "glstub.h"

void (*glstub_on_swap)(const struct gl_frame *f);
void (*glstub_on_wait)(void);
int glstub_window_fail;
unsigned glstub_event_kinds = 0;

/* ---------------------------------------------------------------- GL objects */
#define MAXOBJ 8192
struct gobj {
    uint8_t live, kind;         /* kind 1 buffer, 2 texture, 3 shader, 4 program, 5 vao */
    uint8_t elem;
    size_t size;                /* bytes of data */
    float lo[3], hi[3];
    unsigned max_index;
    uint64_t hash;
    uint32_t rgba; int w, h;
};
static struct gobj obj[MAXOBJ];
static unsigned n_obj = 1;
static uint64_t n_gen, n_del, n_swap;
struct SDL_Window { int id; int live; uint32_t flags; };
static struct SDL_Window wins[8];
static int n_win;
static struct ctx { int live, holder; struct SDL_Window *w; } ctxs[8];
static int n_ctx;
static struct gl_frame fr;
static unsigned cur_ab, cur_eb, cur_tex, cur_prog;
static struct { unsigned buf; int size; int on; } attr[16];
static GLenum pend_err;

static void gl_(const char *fn) {
    int me = sim_self_id();
    for (int i = 0; i < n_ctx; i++) if (ctxs[i].live && ctxs[i].holder == me) return;
    sim_violation("gl-thread", "%s called on thread %d, which has no current GL context", fn, me);
}
#define G() gl_(__func__)
static struct gobj *need(unsigned n, int kind, const char *fn) {
    if (n >= n_obj || !obj[n].live || obj[n].kind != kind) sim_violation("gl-object", "%s: object %u is not a live %s", fn, n, kind == 1 ? "buffer" : kind == 2 ? "texture" : "object");
    return &obj[n];
}
static unsigned mk(int kind) {
    if (n_obj >= MAXOBJ) sim_violation("gl-object", "more than %d GL objects created", MAXOBJ);
    memset(&obj[n_obj], 0, sizeof obj[0]);
    obj[n_obj].live = 1; obj[n_obj].kind = (uint8_t)kind;
    return n_obj++;
}
void glstub_reset(void) { memset(&fr, 0, sizeof fr); n_gen = n_del = n_swap = 0; }
int glstub_live_buffers(void) { int k = 0; for (unsigned i = 1; i < n_obj; i++) k += obj[i].live && obj[i].kind == 1; return k; }
unsigned glstub_live(unsigned *names, unsigned max) { unsigned k = 0; for (unsigned i = 1; i < n_obj; i++) if (obj[i].live && (obj[i].kind == 1 || obj[i].kind == 2)) { if (k < max) names[k] = i; k++; } return k; }
int glstub_live_textures(void) { int k = 0; for (unsigned i = 1; i < n_obj; i++) k += obj[i].live && obj[i].kind == 2; return k; }
uint64_t glstub_gen_count(void) { return n_gen; }
uint64_t glstub_del_count(void) { return n_del; }
uint64_t glstub_swaps(void) { return n_swap; }
int glstub_contexts(void) { int k = 0; for (int i = 0; i < n_ctx; i++) k += ctxs[i].live; return k; }
int glstub_windows(void) { int k = 0; for (int i = 0; i < n_win; i++) k += wins[i].live; return k; }
int glstub_current(void) { for (int i = 0; i < n_ctx; i++) if (ctxs[i].live && ctxs[i].holder >= 0 && sim_thread_alive(ctxs[i].holder)) return ctxs[i].holder; return -1; }

void glGenBuffers(GLsizei n, GLuint *p) { G(); for (int i = 0; i < n; i++) { p[i] = mk(1); n_gen++; } }
void glGenTextures(GLsizei n, GLuint *p) { G(); for (int i = 0; i < n; i++) { p[i] = mk(2); n_gen++; } }
void glGenVertexArrays(GLsizei n, GLuint *p) { G(); for (int i = 0; i < n; i++) p[i] = mk(5); }
void glDeleteBuffers(GLsizei n, const GLuint *p) {
    G();
    for (int i = 0; i < n; i++) {
        if (!p[i]) continue;
        if (p[i] >= n_obj || !obj[p[i]].live || obj[p[i]].kind != 1) sim_violation("gl-delete", "glDeleteBuffers(%u): not a live buffer (deleted twice or never created)", p[i]);
        obj[p[i]].live = 0; n_del++;
    }
}
void glDeleteTextures(GLsizei n, const GLuint *p) {
    G();
    for (int i = 0; i < n; i++) {
        if (!p[i]) continue;
        if (p[i] >= n_obj || !obj[p[i]].live || obj[p[i]].kind != 2) sim_violation("gl-delete", "glDeleteTextures(%u): not a live texture (deleted twice or never created)", p[i]);
        obj[p[i]].live = 0; n_del++;
    }
}
void glBindBuffer(GLenum t, GLuint b) {
    G();
    if (b) need(b, 1, __func__);
    if (t == GL_ARRAY_BUFFER) cur_ab = b; else if (t == GL_ELEMENT_ARRAY_BUFFER) cur_eb = b; else pend_err = GL_INVALID_ENUM;
}
void glBindTexture(GLenum t, GLuint b) { G(); if (b) need(b, 2, __func__); (void)t; cur_tex = b; }
void glBindVertexArray(GLuint a) { G(); if (a) need(a, 5, __func__); }
void glBufferData(GLenum t, GLsizeiptr size, const void *data, GLenum usage) {
    G(); (void)usage;
    unsigned b = t == GL_ARRAY_BUFFER ? cur_ab : cur_eb;
    struct gobj *o = need(b, 1, __func__);
    if (size < 0) { pend_err = GL_INVALID_VALUE; return; }
    sim_check_range(data, (size_t)size, 0);
    o->size = (size_t)size;
    o->elem = t == GL_ELEMENT_ARRAY_BUFFER;
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i + 4 <= (size_t)size; i += 4) { uint32_t v; memcpy(&v, (const char *)data + i, 4); h = (h ^ v) * 1099511628211ULL; }
    o->hash = h;
    if (o->elem) { for (size_t i = 0; i < (size_t)size / 4; i++) { unsigned v = ((const unsigned *)data)[i]; if (v > o->max_index || !i) o->max_index = v; } }
    else {
        const float *f = (const float *)data;
        for (size_t i = 0; i < (size_t)size / 12; i++) for (int k = 0; k < 3; k++) {
            if (!i || f[3 * i + (size_t)k] < o->lo[k]) o->lo[k] = f[3 * i + (size_t)k];
            if (!i || f[3 * i + (size_t)k] > o->hi[k]) o->hi[k] = f[3 * i + (size_t)k];
        }
    }
}
void glTexImage2D(GLenum t, GLint l, GLint f, GLsizei w, GLsizei h, GLint b, GLenum fmt, GLenum ty, const void *data) {
    G(); (void)t; (void)l; (void)f; (void)b; (void)fmt; (void)ty;
    struct gobj *o = need(cur_tex, 2, __func__);
    if (w < 1 || h < 1) { pend_err = GL_INVALID_VALUE; return; }
    sim_check_range(data, (size_t)w * (size_t)h * 4, 0);
    memcpy(&o->rgba, data, 4); o->w = w; o->h = h;
}
void glTexParameteri(GLenum t, GLenum p, GLint v) { G(); (void)t; (void)p; (void)v; }
GLuint glCreateShader(GLenum t) { G(); (void)t; return mk(3); }
void glShaderSource(GLuint s, GLsizei n, const GLchar *const *str, const GLint *len) { G(); (void)s; (void)n; (void)str; (void)len; }
void glCompileShader(GLuint s) { G(); need(s, 3, __func__); }
void glGetShaderiv(GLuint s, GLenum p, GLint *v) { G(); (void)s; (void)p; *v = p == GL_INFO_LOG_LENGTH ? 0 : GL_TRUE; }
void glGetShaderInfoLog(GLuint s, GLsizei n, GLsizei *l, GLchar *b) { G(); (void)s; if (n > 0) *b = 0; if (l) *l = 0; }
GLuint glCreateProgram(void) { G(); return mk(4); }
void glAttachShader(GLuint p, GLuint s) { G(); need(p, 4, __func__); need(s, 3, __func__); }
void glLinkProgram(GLuint p) { G(); need(p, 4, __func__); }
void glGetProgramiv(GLuint s, GLenum p, GLint *v) { G(); (void)s; (void)p; *v = p == GL_INFO_LOG_LENGTH ? 0 : GL_TRUE; }
void glGetProgramInfoLog(GLuint s, GLsizei n, GLsizei *l, GLchar *b) { G(); (void)s; if (n > 0) *b = 0; if (l) *l = 0; }
const GLubyte *glGetString(GLenum n) { G(); (void)n; return (const GLubyte *)"2.0 simulated"; }
void glUseProgram(GLuint p) { G(); if (p) need(p, 4, __func__); cur_prog = p; }
/* locations: attributes 0.., uniforms 100.. by name */
static const char *const an[] = {"position", "normal", "UV"};
static const char *const un[] = {"light_world", "ambient", "light_color", "light_power", "specular", "texture_sampler", "camera_world", "matrix_model", "matrix_camera", "matrix_rotate"};
enum { U_LIGHT = 100, U_AMB, U_LCOL, U_LPOW, U_SPEC, U_TEX, U_CAMW, U_MODEL, U_CAM, U_ROT };
static float U_model[16], U_rot[9], U_spec[3];
GLint glGetAttribLocation(GLuint p, const GLchar *n) { G(); need(p, 4, __func__); for (int i = 0; i < 3; i++) if (!strcmp(an[i], n)) return i; return -1; }
GLint glGetUniformLocation(GLuint p, const GLchar *n) { G(); need(p, 4, __func__); for (int i = 0; i < 10; i++) if (!strcmp(un[i], n)) return 100 + i; return -1; }
static void prog_(const char *fn) { if (!cur_prog) sim_violation("gl-state", "%s without a program in use", fn); }
void glUniform1f(GLint l, GLfloat v) { G(); prog_(__func__); if (l == U_LPOW) fr.light_power = v; }
void glUniform3fv(GLint l, GLsizei n, const GLfloat *v) {
    G(); prog_(__func__); (void)n;
    float *d = l == U_LIGHT ? fr.v_light : l == U_AMB ? fr.ambient : l == U_LCOL ? fr.light_color : l == U_SPEC ? U_spec : l == U_CAMW ? fr.v_cam : NULL;
    if (d) memcpy(d, v, 12);
}
void glUniformMatrix3fv(GLint l, GLsizei n, GLboolean tr, const GLfloat *v) { G(); prog_(__func__); (void)n; (void)tr; if (l == U_ROT) memcpy(U_rot, v, 36); }
void glUniformMatrix4fv(GLint l, GLsizei n, GLboolean tr, const GLfloat *v) { G(); prog_(__func__); (void)n; (void)tr; if (l == U_MODEL) memcpy(U_model, v, 64); else if (l == U_CAM) memcpy(fr.M_cam, v, 64); }
void glVertexAttribPointer(GLuint i, GLint size, GLenum ty, GLboolean nrm, GLsizei stride, const void *p) { G(); (void)ty; (void)nrm; (void)stride; (void)p; if (i < 16) { attr[i].buf = cur_ab; attr[i].size = size; } }
void glEnableVertexAttribArray(GLuint i) { G(); if (i < 16) attr[i].on = 1; }
void glDisableVertexAttribArray(GLuint i) { G(); if (i < 16) attr[i].on = 0; }
static void draw(const char *fn, int count, int indexed) {
    gl_(fn); prog_(fn);
    if (!attr[0].on) sim_violation("gl-state", "%s without vertex positions", fn);
    struct gobj *v = need(attr[0].buf, 1, fn);
    size_t nv = v->size / (sizeof(float) * (size_t)attr[0].size);
    for (int a = 1; a < 3; a++) if (attr[a].on) {
        struct gobj *x = need(attr[a].buf, 1, fn);
        size_t na = x->size / (sizeof(float) * (size_t)attr[a].size);
        if (na < nv) sim_violation("gl-state", "%s: attribute %d has %zu elements for %zu vertices", fn, a, na, nv);
    }
    if (indexed) {
        struct gobj *e = need(cur_eb, 1, fn);
        if ((size_t)count * 4 > e->size) sim_violation("gl-state", "%s: %d indices of a buffer of %zu", fn, count, e->size / 4);
        if (count && e->max_index >= nv) sim_violation("gl-state", "%s: index %u of %zu vertices", fn, e->max_index, nv);
    } else if ((size_t)count > nv) sim_violation("gl-state", "%s: %d of %zu vertices", fn, count, nv);
    if (fr.n >= GL_MAXDRAW) sim_violation("gl-state", "more than %d draws without a clear", GL_MAXDRAW);
    struct gl_draw *d = &fr.d[fr.n++];
    memset(d, 0, sizeof *d);
    d->values = attr[0].buf; d->indices = indexed ? cur_eb : 0; d->normals = attr[1].on ? attr[1].buf : 0; d->tex = cur_tex; d->uv = attr[2].on ? attr[2].buf : 0;
    d->count = count; d->indexed = indexed; d->n_vert = (int)nv;
    memcpy(d->M, U_model, 64); memcpy(d->R, U_rot, 36); memcpy(d->spec, U_spec, 12);
    memcpy(d->lo, v->lo, 12); memcpy(d->hi, v->hi, 12); d->vhash = v->hash;
    if (cur_tex) { struct gobj *t = need(cur_tex, 2, fn); d->rgba = t->rgba; d->tw = t->w; d->th = t->h; }
}
void glDrawArrays(GLenum m, GLint f, GLsizei n) { (void)m; (void)f; draw(__func__, n, 0); }
void glDrawElements(GLenum m, GLsizei n, GLenum t, const void *p) { (void)m; (void)t; (void)p; draw(__func__, n, 1); }
void glEnable(GLenum c) { G(); (void)c; }
void glBlendFunc(GLenum a, GLenum b) { G(); (void)a; (void)b; }
void glClearColor(GLfloat r, GLfloat g, GLfloat b, GLfloat a) { G(); (void)r; (void)g; (void)b; (void)a; }
void glClear(GLbitfield m) { G(); (void)m; fr.n = 0; fr.cleared = 1; }
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { G(); (void)x; (void)y; (void)w; (void)h; }
GLenum glGetError(void) { G(); GLenum e = pend_err; pend_err = GL_NO_ERROR; return e; }

/* ---------------------------------------------------------------- SDL */
void (*glstub_on_event)(const SDL_Event *e);
void (*glstub_on_spnav)(const int *axes);
static int sdl_inited;
static char clip[512];
static SDL_Event evq[256];
static int ev_h, ev_t;
static uint8_t keys[SDL_NUM_SCANCODES];
static int mx, my; static uint32_t mb;
int SDL_Init(Uint32 f) { (void)f; sdl_inited = 1; return 0; }
const char *SDL_GetError(void) { return "simulated"; }
SDL_bool SDL_SetHint(const char *n, const char *v) { (void)n; (void)v; return SDL_TRUE; }
int SDL_GL_SetAttribute(SDL_GLattr a, int v) { (void)a; (void)v; return 0; }
int SDL_GL_SetSwapInterval(int i) { (void)i; return 0; }
SDL_Window *SDL_CreateWindow(const char *t, int x, int y, int w, int h, Uint32 f) {
    (void)t; (void)x; (void)y; (void)w; (void)h;
    sim_yield();
    if (glstub_window_fail > 0) { glstub_window_fail--; sim_fault_note(F_CREATE_FAIL); return NULL; }
    if (n_win >= 8) sim_violation("sdl", "too many windows");
    wins[n_win].live = 1; wins[n_win].id = n_win + 1; wins[n_win].flags = f | SDL_WINDOW_INPUT_FOCUS;
    return &wins[n_win++];
}
void SDL_DestroyWindow(SDL_Window *w) { if (!w->live) sim_violation("sdl", "window destroyed twice"); w->live = 0; }
SDL_GLContext SDL_GL_CreateContext(SDL_Window *w) {
    if (n_ctx >= 8) sim_violation("sdl", "too many contexts");
    ctxs[n_ctx].live = 1; ctxs[n_ctx].holder = sim_self_id(); ctxs[n_ctx].w = w;
    return &ctxs[n_ctx++];
}
void SDL_GL_DeleteContext(SDL_GLContext c_) {
    struct ctx *c = (struct ctx *)c_;
    if (!c->live) sim_violation("sdl", "context deleted twice");
    c->live = 0; c->holder = -1;
    for (unsigned i = 1; i < n_obj; i++) obj[i].live = 0;
}
int SDL_GL_MakeCurrent(SDL_Window *w, SDL_GLContext c_) {
    sim_yield();
    int me = sim_self_id();
    if (!w || !w->live) sim_violation("sdl", "SDL_GL_MakeCurrent on a destroyed window");
    struct ctx *c = (struct ctx *)c_;
    if (c && c->live && c->holder >= 0 && c->holder != me && sim_thread_alive(c->holder)) sim_violation("gl-thread", "context made current on thread %d while current on thread %d", me, c->holder);
    for (int i = 0; i < n_ctx; i++) if (ctxs[i].holder == me) ctxs[i].holder = -1;
    if (c) { if (!c->live) sim_violation("sdl", "SDL_GL_MakeCurrent of a deleted context"); c->holder = me; }
    return 0;
}
void SDL_GL_SwapWindow(SDL_Window *w) {
    gl_(__func__);
    if (!w->live) sim_violation("sdl", "swap of a destroyed window");
    fr.seq = ++n_swap; fr.t_ns = sim_now_ns();
    if (glstub_on_swap) glstub_on_swap(&fr);
    fr.cleared = 0;
    sim_yield();
}
void glstub_push(const SDL_Event *e) { if (ev_t - ev_h < 256) evq[ev_t++ % 256] = *e; }
void glstub_push_key(int key) { SDL_Event e; memset(&e, 0, sizeof e); e.type = SDL_KEYDOWN; e.key.keysym.sym = key; e.key.windowID = 1; glstub_push(&e); }
void glstub_push_quit(void) { SDL_Event e; memset(&e, 0, sizeof e); e.type = SDL_QUIT; glstub_push(&e); }
int glstub_pending(void) { return ev_t - ev_h; }
static int rand_event(SDL_Event *e) {
    unsigned k = sim_choose(S_FAULT, 8);
    if (!(glstub_event_kinds & (1u << k))) return 0;
    memset(e, 0, sizeof *e);
    static const int ks[] = {SDLK_KP_2, SDLK_KP_8, SDLK_KP_4, SDLK_KP_6, SDLK_KP_MINUS, SDLK_KP_PLUS, SDLK_c, SDLK_BACKQUOTE};
    switch (1u << k) {
    case GE_MOTION: e->type = SDL_MOUSEMOTION; e->motion.x = (int)sim_choose(S_FAULT, 64); e->motion.y = (int)sim_choose(S_FAULT, 64); e->motion.state = sim_choose(S_FAULT, 2) ? SDL_BUTTON(SDL_BUTTON_LEFT) : SDL_BUTTON(SDL_BUTTON_RIGHT); break;
    case GE_WHEEL: e->type = SDL_MOUSEWHEEL; e->wheel.y = sim_choose(S_FAULT, 2) ? 1 : -1; break;
    case GE_KEY: e->type = SDL_KEYDOWN; e->key.windowID = 1; e->key.keysym.sym = ks[sim_choose(S_FAULT, 8)]; break;
    case GE_RESIZE: e->type = SDL_WINDOWEVENT; e->window.event = SDL_WINDOWEVENT_RESIZED; e->window.data1 = 320 + (int)sim_choose(S_FAULT, 4) * 100; e->window.data2 = 240; break;
    case GE_EXPOSE: e->type = SDL_WINDOWEVENT; e->window.event = SDL_WINDOWEVENT_EXPOSED; break;
    case GE_QUIT: e->type = SDL_QUIT; break;
    case GE_FULL: e->type = SDL_KEYDOWN; e->key.windowID = 1; e->key.keysym.sym = SDLK_F11; break;
    case GE_HOME: e->type = SDL_KEYDOWN; e->key.windowID = 1; e->key.keysym.sym = SDLK_HOME; break;
    }
    return 1;
}
int SDL_WaitEventTimeout(SDL_Event *e, int timeout) {
    int64_t end = sim_now_ns() + (int64_t)timeout * 1000000;
    if (glstub_on_wait) glstub_on_wait();
    sim_yield();
    for (;;) {
        if (ev_h != ev_t) { *e = evq[ev_h++ % 256]; if (glstub_on_event) glstub_on_event(e); return 1; }
        if (glstub_event_kinds && sim_fault(F_INPUT_EVENT) && rand_event(e)) { if (glstub_on_event) glstub_on_event(e); return 1; }
        int64_t now = sim_now_ns();
        if (now >= end) return 0;
        sim_sleep_ns(end - now > 8000000 ? 8000000 : end - now);
    }
}
const Uint8 *SDL_GetKeyboardState(int *n) { if (n) *n = SDL_NUM_SCANCODES; return keys; }
Uint32 SDL_GetMouseState(int *x, int *y) { if (x) *x = mx; if (y) *y = my; return mb; }
SDL_Scancode SDL_GetScancodeFromKey(SDL_Keycode k) { return k >= 'a' && k <= 'z' ? (SDL_Scancode)(SDL_SCANCODE_A + (k - 'a')) : SDL_SCANCODE_UNKNOWN; }
Uint32 SDL_GetWindowFlags(SDL_Window *w) { if (!w || !w->live) sim_violation("sdl", "flags of a destroyed window"); return w->flags; }
SDL_Window *SDL_GetWindowFromID(Uint32 id) { return id >= 1 && (int)id <= n_win ? &wins[id - 1] : NULL; }
int SDL_SetWindowFullscreen(SDL_Window *w, Uint32 f) { w->flags = (w->flags & ~(Uint32)(SDL_WINDOW_FULLSCREEN | SDL_WINDOW_FULLSCREEN_DESKTOP)) | f; return 0; }
int SDL_SetClipboardText(const char *t) { snprintf(clip, sizeof clip, "%s", t); return 0; }
const char *glstub_clipboard(void) { return clip; }
int glstub_is_fullscreen(void) { return n_win && (wins[0].flags & SDL_WINDOW_FULLSCREEN_DESKTOP) ? 1 : 0; }
void glstub_key(int sc, int down) { keys[sc] = (uint8_t)down; }
void glstub_focus(int on) { for (int i = 0; i < n_win; i++) wins[i].flags = on ? wins[i].flags | SDL_WINDOW_INPUT_FOCUS : wins[i].flags & ~(Uint32)SDL_WINDOW_INPUT_FOCUS; }
void glstub_mouse(int x, int y, uint32_t b) { mx = x; my = y; mb = b; }
/* ---------------------------------------------------------------- spnav */
static int sp_have, sp_pending; static spnav_event sp_ev;
void glstub_spnav_have(int on) { sp_have = on; }
void glstub_spnav(int x, int y, int z, int rx, int ry, int rz) {
    memset(&sp_ev, 0, sizeof sp_ev);
    sp_ev.type = SPNAV_EVENT_MOTION; sp_ev.motion.x = x; sp_ev.motion.y = y; sp_ev.motion.z = z; sp_ev.motion.rx = rx; sp_ev.motion.ry = ry; sp_ev.motion.rz = rz;
    sp_pending = 1;
}
int spnav_open(void) { return sp_have ? 0 : -1; }
int spnav_poll_event(spnav_event *e) { if (!sp_pending) { if (glstub_on_spnav) glstub_on_spnav(sp_ev.type ? &sp_ev.motion.x : NULL); return 0; } sp_pending = 0; *e = sp_ev; return 1; }
