import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
stub=open('/verif/scen/glstub.c').read().replace('#include "util.h"','#include "glshim.h"').replace('#define MAXOBJ 8192','#define MAXOBJ 400000')
GL=dict(libs='"$here/glstub.c" -lamino-gl -lamino', flags='-I/usr/include/SDL2 -D_GNU_SOURCE', extra={'glstub.c':stub,'glstub.h':open('/verif/scen/glstub.h').read(),'glshim.h':open('/verif/tools/seeds/glshim.h').read()}, timeout=120)
H='''#include <amino.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <SDL_opengl.h>
#include <amino/rx/scene_gl.h>
#include <amino/rx/scene_sdl.h>
#include <amino/rx/scene_win.h>
#include <amino/rx/mp_seq.h>
#include "glshim.h"
#include "glstub.h"
#include <math.h>
#include <errno.h>
#include <sched.h>
void *aa_rx_win_call(void *(*function)(void *), void *context);
static struct aa_rx_win *win;
static void *loop(void *a) { aa_rx_win_run(); return NULL; }
static struct aa_rx_sg *scene(void) {
    static const double ax[3][3] = {{1,0,0},{0,1,0},{0,0,1}}; const double d[3] = {1,1,1};
    struct aa_rx_sg *sg = aa_rx_sg_create();
    aa_rx_sg_add_frame_prismatic(sg, "", "x", NULL, NULL, "x", ax[0], 0);
    aa_rx_sg_add_frame_prismatic(sg, "x", "y", NULL, NULL, "y", ax[1], 0);
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    aa_rx_geom_attach(sg, "y", aa_rx_geom_box(o, d));
    aa_rx_geom_opt_destroy(o); aa_rx_sg_init(sg); return sg;
}
'''
W='src/rx/sdl_win.c'
mk('P10-if-wait','P10',[(W,'''    while( ! s_handler_done ) {
        s_wait();
    }''','''    if( ! s_handler_done ) {
        s_wait();
    }''')],H+'''
static int bad;
/* POSIX lets a condition wait return without a signal */
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
 static __thread unsigned n; if (n++ % 3 == 1) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
 struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 5; int r = pthread_cond_timedwait(c, m, &ts); return r == ETIMEDOUT ? 0 : r; }
static void *fn(void *p) { usleep(2000); return p; }
static void *caller(void *a) { for (long i = 0; i < 60; i++) { void *k = (char *)a + i; if (aa_rx_win_call(fn, k) != k) { bad = 1; break; } } return NULL; }
int main() { win = aa_rx_win_default_create("d", 100, 100); pthread_t l, t[4]; pthread_create(&l, 0, loop, 0);
 static char b[4][100]; for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, caller, b[i]);
 usleep(100000);
 for (int i = 0; i < 4; i++) { if (bad) break; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 30; if (pthread_timedjoin_np(t[i], 0, &ts)) { bad = 1; puts("a call never returned"); } }
 if (bad) puts("a call returned another result"); _exit(bad); }
''',"a condition wait that returns while the call is still running (a wakeup for another waiter, or a spurious one)","aa_rx_win_call() returns before its function ran, with no or another call's result",**GL)
mk('P09-late-clear','P09',[('src/amino_gl.c','''        local_dead_buffers = s_dead_buffers;
        s_dead_buffers = NULL;
    }
    s_cleanup_unlock();

    while( local''','''        local_dead_buffers = s_dead_buffers;
    }
    s_cleanup_unlock();
    s_dead_buffers = NULL;

    while( local''')],H+'''
static int n_del, stop;
/* many geometries die on other threads while the loop collects */
static struct aa_rx_geom *mk(void) { const double d[3] = {1,1,1}; struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); struct aa_rx_geom *g = aa_rx_geom_box(o, d); aa_rx_geom_opt_destroy(o); return g; }
static struct aa_rx_geom *g[4][400];
void aa_geom_gl_buffers_init(struct aa_rx_geom *);
static pthread_barrier_t b;
static void *killer(void *a) { long k = (long)a; pthread_barrier_wait(&b); for (int i = 0; i < 400; i++) { aa_rx_geom_destroy(g[k][i]); for (volatile int j = 0; j < 200; j++); } __atomic_add_fetch(&stop, 1, __ATOMIC_SEQ_CST); return NULL; }
int main() { win = aa_rx_win_default_create("d", 100, 100);
 SDL_GL_CreateContext(SDL_GetWindowFromID(1));
 for (int r = 0; r < 60; r++) {
  pthread_t t[4]; pthread_barrier_init(&b, 0, 5); stop = 0;
  for (long k = 0; k < 4; k++) { for (int i = 0; i < 400; i++) { g[k][i] = mk(); if (i % 20 == 0) aa_geom_gl_buffers_init(g[k][i]); } pthread_create(&t[k], 0, killer, (void *)k); }
  pthread_barrier_wait(&b);
  while (__atomic_load_n(&stop, __ATOMIC_SEQ_CST) < 4) aa_gl_buffers_cleanup();
  for (int k = 0; k < 4; k++) pthread_join(t[k], 0);
  aa_gl_buffers_cleanup();
  if (glstub_live_buffers()) { printf("%d graphics objects left behind\\n", glstub_live_buffers()); _exit(1); }
 }
 _exit(0); }
''',"a scene destroyed by one thread at the moment the display loop collects dead graphics data","graphics objects scheduled between reading and clearing the list are never deleted, and the list is accessed without its lock",**GL)
mk('P12-draw-unlocked','P12',[(W,'''    r = win->display(win, win->display_cx, params );

    if( win->stop ) {
        aa_sdl_display_params_set_quit(params);
    }

    aa_rx_win_unlock(win);
''','''    if( win->stop ) {
        aa_sdl_display_params_set_quit(params);
    }

    aa_rx_win_unlock(win);

    r = win->display(win, win->display_cx, params );
''')],H+'''
static int bad;
static void slow(void) { usleep(500); }
static int show(struct aa_rx_win *w, void *cx, struct aa_sdl_display_params *p) {
    double E[7], F[7]; aa_rx_win_get_tf_cam(w, E); usleep(3000); aa_rx_win_get_tf_cam(w, F);
    if (memcmp(E, F, sizeof E)) bad = 1;
    return 0; }
int main() { win = aa_rx_win_default_create("d", 100, 100); aa_rx_win_set_display(win, show, NULL, NULL);
 pthread_t l; pthread_create(&l, 0, loop, 0);
 for (int i = 0; i < 1500 && !bad; i++) { double E[7] = {0,0,0,1,i,0,0}; aa_rx_win_lock(win); aa_rx_win_set_tf_cam(win, E); aa_rx_win_unlock(win); usleep(1000); }
 if (bad) puts("the camera changed while a picture was drawn"); _exit(bad); }
''',"another thread updating the window while a picture is being drawn","the window is not locked while its display function runs, so one picture mixes two updates",**GL)
CLK='''static int64_t off; 
static double last_x = -1, seen[64]; static int nseen;
static void swap(const struct gl_frame *f) { if (f->cleared && f->n == 1) { last_x = f->d[0].M[12]; if (nseen < 4000) { int k = (int)floor(last_x + .5); if (k >= 0 && k < 64 && fabs(last_x - k) < .1) seen[k] += 1; } } }
'''
mk('P13-last-point','P13',[(W,'''    if( all_cnt < i1 ) {
        //printf("reset''','''    if( all_cnt <= i1 ) {
        //printf("reset''')],H+CLK+'''
int main() { win = aa_rx_win_default_create("d", 100, 100); struct aa_rx_sg *sg = scene();
 double q[6] = {0, 0, 1, 0, 2, 0}; glstub_on_swap = swap; 
 if (aa_rx_sg_config_id(sg, "x") != 0) for (int i = 0; i < 3; i++) { double t = q[2*i]; q[2*i] = q[2*i+1]; q[2*i+1] = t; }
 aa_rx_win_set_display_plan(win, sg, 3, q); pthread_t l; pthread_create(&l, 0, loop, 0);
 sleep(4);
 if (seen[2] < 15) { printf("the last point was shown in %g pictures\\n", seen[2]); _exit(1); } _exit(0); }
''',"playing a plan up to its last point","playback restarts as soon as the last point is reached instead of showing it for its full step",**GL)
mk('P13-second-part','P13',[(W,'''                       t-dt*(double)offset, q );''','''                       t-dt*(double)(offset ? offset-1 : 0), q );''')],H+CLK+'''
static int bad; static double prev = -1;
static void swap2(const struct gl_frame *f) { if (!f->cleared || f->n != 1) return; double x = f->d[0].M[12]; if (x > 12.001 || (x > 1.001 && x < 9.999)) { bad = 1; printf("x = %g is on no part\\n", x); } }
int main() { win = aa_rx_win_default_create("d", 100, 100); struct aa_rx_sg *sg = scene(); int c = (int)aa_rx_sg_config_id(sg, "x");
 double a[4] = {0}, b[6] = {0}; a[c] = 0; a[2 + c] = 1; b[c] = 10; b[2 + c] = 11; b[4 + c] = 12; glstub_on_swap = swap2;
 struct aa_rx_mp_seq *s = aa_rx_mp_seq_create(); aa_rx_mp_seq_append_all(s, sg, 2, a); aa_rx_mp_seq_append_all(s, sg, 3, b);
 aa_rx_win_set_display_seq(win, s); pthread_t l; pthread_create(&l, 0, loop, 0);
 for (int i = 0; i < 60 && !bad; i++) usleep(100000); _exit(bad); }
''',"a sequence with more than one part, while a later part is interpolated","points of later parts are extrapolated by one step",**GL)
S='src/amino_sdl.c'
mk('P23-mouse-origin','P23',[(S,'''            update_tf = 1;
        }
        globals->mouse[0] = e->motion.x;
        globals->mouse[1] = e->motion.y;
''','''            update_tf = 1;
        }
        if( update_tf ) {
            globals->mouse[0] = e->motion.x;
            globals->mouse[1] = e->motion.y;
        }
''')],H+'''
static void push(int x, int y, uint32_t st) { SDL_Event e; memset(&e, 0, sizeof e); e.type = SDL_MOUSEMOTION; e.motion.x = x; e.motion.y = y; e.motion.state = st; glstub_push(&e); }
int main() { win = aa_rx_win_default_create("d", 100, 100); double E[7], F[7]; aa_rx_win_get_tf_cam(win, E);
 pthread_t l; pthread_create(&l, 0, loop, 0);
 push(300, 200, 0); push(300, 200, SDL_BUTTON(SDL_BUTTON_LEFT)); usleep(300000); aa_rx_win_get_tf_cam(win, F);
 for (int i = 0; i < 7; i++) if (fabs(E[i] - F[i]) > 1e-9) { puts("the camera moved although the mouse did not while its button was down"); _exit(1); } _exit(0); }
''',"the mouse moving with no button held before it is dragged","the first dragging motion moves the camera by everything the mouse moved before",**GL)
mk('P23-last-binding','P23',[('src/sdl_handler.c','''        for( size_t i = 0; !r && i < s_key_vector.size; i ++ ) {''','''        for( size_t i = 0; i < s_key_vector.size; i ++ ) {''')],H+'''
static int hit[2]; static int h(void *c, struct aa_sdl_display_params *p) { hit[(long)c]++; return 0; }
int main() { win = aa_rx_win_default_create("d", 100, 100); pthread_t l; pthread_create(&l, 0, loop, 0);
 aa_sdl_bind_key(SDLK_a, h, (void *)0); aa_sdl_bind_key(SDLK_a, h, (void *)1); glstub_push_key(SDLK_a); usleep(300000);
 if (hit[0] != 1 || hit[1]) { printf("handlers called %d %d times\\n", hit[0], hit[1]); _exit(1); } _exit(0); }
''',"two handlers bound to the same key","the last handler bound to a key gets its events instead of the first",**GL)
mk('P11-old-destructor','P11',[(W,'''    win->destroy_cx = destructor;''','''    if( destructor ) win->destroy_cx = destructor;''')],H+'''
static int x[2], bad; static void fr(void *p) { if (p == &x[1]) bad = 1; ++*(int *)p; }
static int show(struct aa_rx_win *w, void *cx, struct aa_sdl_display_params *p) { return 0; }
int main() { win = aa_rx_win_default_create("d", 100, 100); pthread_t l; pthread_create(&l, 0, loop, 0);
 aa_rx_win_set_display(win, show, &x[0], fr); aa_rx_win_set_display(win, show, &x[1], NULL); aa_rx_win_set_display(win, show, NULL, NULL);
 if (bad || x[0] != 1) { printf("contexts destroyed %d %d times\\n", x[0], x[1]); _exit(1); } _exit(0); }
''',"a display function with a destructor replaced by one without, and that one replaced again","the old destructor is run on a context that has none",**GL)
