import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='''#include <amino.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_fk.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_sub.h>
#include <amino/rx/wavefront.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
static const double ax[3]={0,0,1}, v1[3]={1,0,0};
'''
mk('P14-update-tolerance','P14',[('src/rx/sg_api.cpp','aa_feq(q0[fj->config_index], q[fj->config_index], 0 )','aa_feq(q0[fj->config_index], q[fj->config_index], 1e-3 )')],
H+'''int main(){ struct aa_rx_sg*sg=aa_rx_sg_create();
aa_rx_sg_add_frame_revolute(sg,"","a",aa_tf_quat_ident,v1,"q0",ax,0); aa_rx_sg_add_frame_fixed(sg,"a","b",aa_tf_quat_ident,v1); aa_rx_sg_init(sg);
double q0[1]={0.25},q[1]={0.2505},r0[14],a0[14],r[14],a[14],rr[14],aa[14];
aa_rx_sg_tf(sg,1,q0,2,r0,7,a0,7); aa_rx_sg_tf_update(sg,1,q0,q,2,r0,7,a0,7,r,7,a,7); aa_rx_sg_tf(sg,1,q,2,rr,7,aa,7);
for(int i=0;i<14;i++) if(fabs(a[i]-aa[i])>1e-9){printf("pose differs %g\\n",a[i]-aa[i]);return 1;} return 0;}''',
 "an incremental kinematics update whose configuration moved by less than 1e-3","aa_rx_sg_tf_update() returns the old pose for small motions, so the kinematics interfaces disagree")
mk('P14-stale-config','P14',[('src/rx/scenegraph.cpp','        config_map.clear();\n        config_rmap.clear();','        config_rmap.clear();')],
H+'''int main(){ struct aa_rx_sg*sg=aa_rx_sg_create();
aa_rx_sg_add_frame_revolute(sg,"","a",aa_tf_quat_ident,v1,"q0",ax,0); aa_rx_sg_add_frame_revolute(sg,"","b",aa_tf_quat_ident,v1,"q1",ax,0); aa_rx_sg_init(sg);
aa_rx_sg_rm_frame(sg,"a"); aa_rx_sg_init(sg);
if(aa_rx_sg_config_id(sg,"q0")!=AA_RX_CONFIG_NONE){printf("removed configuration still has an id\\n");return 1;} return 0;}''',
 "removing the last joint of a configuration and re-initialising","the removed configuration variable keeps an id that now names another variable or lies past the end")
mk('P16-static-joint','P16',[('src/rx/scenegraph.cpp','''    double qo = q[this->config_index] + this->offset;
    double h[4];
    aa_tf_axang2quat2( axis, qo, h );
    // TODO: can we elide when identify?
    // Maybe using a different frame type.
    aa_tf_qmul( E +''','''    double qo = q[this->config_index] + this->offset;
    static double h[4];
    aa_tf_axang2quat2( axis, qo, h );
    // TODO: can we elide when identify?
    // Maybe using a different frame type.
    aa_tf_qmul( E +''')],
H+'''static struct aa_rx_sg*sg; static int bad;
static void*th(void*p){ double q[1]={(double)(long)p}, E0[7],A0[7],E[7],A[7]; 
 /* expected pose, computed by hand: rotation about z */
 double s=sin(q[0]/2),c=cos(q[0]/2);
 for(int i=0;i<3000000&&!bad;i++){ aa_rx_sg_tf(sg,1,q,1,E,7,A,7); if(fabs(A[2]-s)>1e-9||fabs(A[3]-c)>1e-9) bad=1; } return 0;}
int main(){ sg=aa_rx_sg_create(); aa_rx_sg_add_frame_revolute(sg,"","a",aa_tf_quat_ident,v1,"q0",ax,0); aa_rx_sg_init(sg);
pthread_t t[6]; for(long i=0;i<6;i++)pthread_create(&t[i],0,th,(void*)(i)); for(int i=0;i<6;i++)pthread_join(t[i],0); if(bad)printf("a reader got another thread's pose\\n"); return bad;}''',
 "two threads computing kinematics of the same scene graph at the same time","revolute joints share a static buffer, so concurrent readers get each other's poses")
mk('P06-eintr-short','P06',[('include/amino/time.h','''    } while( 0 != r ) ;
    return 0;''','''    } while( 0 != r && t.tv_sec > 0 ) ;
    return 0;''')],
'''#include <amino.h>
#include <amino/time.h>
#include <signal.h>
#include <sys/time.h>
#include <stdio.h>
static void h(int s){(void)s;}
int main(){ struct sigaction sa={0}; sa.sa_handler=h; sigaction(SIGALRM,&sa,0); struct itimerval it={{0,0},{0,50000}}; setitimer(ITIMER_REAL,&it,0);
struct timespec a,b,t={0,300000000}; clock_gettime(CLOCK_MONOTONIC,&a); aa_tm_relsleep(t); clock_gettime(CLOCK_MONOTONIC,&b);
double d=(b.tv_sec-a.tv_sec)+(b.tv_nsec-a.tv_nsec)*1e-9; printf("slept %g\\n",d); return d<0.3;}''',
 "a signal interrupting a sleep when less than a second remains","the sleep ends early instead of sleeping the remaining time")
mk('P08-dec-then-read','P08',[('src/rx/scene_geom.c','''    unsigned oldcount = aa_mem_ref_dec(&mesh->refcount);
    if( 1 == oldcount ) {''','''    aa_mem_ref_dec(&mesh->refcount);
    if( 0 == mesh->refcount ) {''')],
H+'''#include <stdatomic.h>
static atomic_int freed, go, done; static struct aa_rx_mesh*m; static struct aa_rx_geom*g[2];
static void dtor(void*p){ atomic_fetch_add(&freed,1); }
#define N 400000
static void*th(void*p){ for(int i=1;i<=N;i++){ while(atomic_load(&go)<i); aa_rx_geom_destroy(g[(long)p]); atomic_fetch_add(&done,1);} return 0;}
int main(){ pthread_t t[2]; for(long i=0;i<2;i++)pthread_create(&t[i],0,th,(void*)i);
struct aa_rx_geom_opt*o=aa_rx_geom_opt_create();
for(int i=1;i<=N;i++){ m=aa_rx_mesh_create(); aa_rx_mesh_set_destructor(m,dtor,0); g[0]=aa_rx_geom_mesh(o,m); g[1]=aa_rx_geom_mesh(o,m); aa_rx_mesh_destroy(m); freed=0; done=0;
 atomic_store(&go,i); while(atomic_load(&done)<2); if(freed!=1){printf("destroyed %d times\\n",(int)freed);_exit(1);} } _exit(0);}''',
 "two threads dropping the last two references to a mesh at the same time","the mesh is destroyed twice or read after it was freed, because the count is read again after the decrement",
 libs='"$repo/.libs/libamino.a" -loctomap -loctomath -lClp -lCoinUtils -lnlopt -lglpk -llapack -lblas -lcolamd -lstdc++',timeout=250)
mk('P07-material-prefix','P07',[('src/wavefront/wf_obj.c','if( 0 == strcmp(material, obj->materials.data[i]) ) {','if( 0 == strncmp(material, obj->materials.data[i], strlen(obj->materials.data[i])) ) {')],
H+'''int main(){ FILE*f=fopen("m.mtl","w"); fprintf(f,"newmtl red\\nKd 1 0 0\\nnewmtl red2\\nKd 0 1 0\\n"); fclose(f);
f=fopen("m.obj","w"); fprintf(f,"mtllib m.mtl\\no x\\nv 0 0 0\\nv 1 0 0\\nv 0 1 0\\nvn 0 0 1\\nusemtl red\\nf 1//1 2//1 3//1\\nusemtl red2\\nf 1//1 2//1 3//1\\n"); fclose(f);
struct aa_rx_wf_obj*o=aa_rx_wf_parse("m.obj"); if(!o){printf("no parse\\n");return 2;} const int32_t*v; size_t n; aa_rx_wf_obj_get_texture_indices(o,&v,&n);
if(n!=2||v[0]==v[1]){printf("faces share a material\\n");return 1;} return 0;}''',
 "a material whose name starts with the name of a material used earlier","faces get the wrong material")
