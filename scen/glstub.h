/* A deterministic OpenGL + SDL2 + spnav, as far as amino uses them.
 *
 * GL is modelled as named objects owned by a context that is current in at
 * most one thread; every call checks that rule.  SDL delivers events from a
 * queue the scenario or the fault stream fills, and waits in simulated time. */
#ifndef GLSTUB_H
#define GLSTUB_H
#include <SDL.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct gl_draw {
    unsigned values, indices, normals, uv, tex;
    int count, indexed;
    float M[16], R[9], spec[3];
    int n_vert;                 /* vertices in the position buffer */
    float lo[3], hi[3];         /* their extents */
    uint64_t vhash;             /* hash of position data */
    uint32_t rgba;              /* first texel */
    int tw, th;                 /* texture size */
};
#define GL_MAXDRAW 64
struct gl_frame {
    uint64_t seq;               /* number of the picture */
    int64_t t_ns;
    int cleared;
    int n;
    struct gl_draw d[GL_MAXDRAW];
    float M_cam[16], v_cam[3], v_light[3], light_color[3], ambient[3], light_power;
};
/* called at every buffer swap, on the thread that swaps */
extern void (*glstub_on_swap)(const struct gl_frame *f);
extern void (*glstub_on_wait)(void);        /* at every SDL_WaitEventTimeout */
extern void (*glstub_on_event)(const SDL_Event *e);     /* when an event is delivered */
extern void (*glstub_on_spnav)(const int *axes);        /* when the device has no more events */
void glstub_reset(void);
void glstub_push(const SDL_Event *e);
void glstub_push_key(int key);
void glstub_push_quit(void);
int glstub_pending(void);
void glstub_key(int scancode, int down);
void glstub_focus(int on);
void glstub_mouse(int x, int y, uint32_t buttons);
void glstub_spnav(int x, int y, int z, int rx, int ry, int rz);
void glstub_spnav_have(int on);
int glstub_live_buffers(void);
unsigned glstub_live(unsigned *names, unsigned max);   /* live buffers and textures */
int glstub_live_textures(void);
uint64_t glstub_gen_count(void), glstub_del_count(void);
int glstub_contexts(void), glstub_windows(void);
int glstub_current(void);                   /* id of the thread with the context, -1 none */
int glstub_is_fullscreen(void);
const char *glstub_clipboard(void);
uint64_t glstub_swaps(void);
extern int glstub_window_fail;              /* fail the next n window creations */
extern unsigned glstub_event_kinds;         /* bit set of events F_INPUT_EVENT may make */
enum { GE_MOTION = 1, GE_WHEEL = 2, GE_KEY = 4, GE_RESIZE = 8, GE_EXPOSE = 16, GE_QUIT = 32, GE_FULL = 64, GE_HOME = 128 };
#ifdef __cplusplus
}
#endif
#endif
