import sys; sys.path.insert(0,'/verif/tools')
exec(open('/verif/tools/seeds/s1.py').read().split("mk('P14-update")[0])
mk('P01-printf-exact','P01',[('src/mem.c','(r >= (int)aa_mem_region_freesize(reg) )','(r > (int)aa_mem_region_freesize(reg) )')],
H+'''int main(){ for(size_t pre=0;pre<300;pre++) for(int len=1;len<300;len++){ struct aa_mem_region r; aa_mem_region_init(&r,256); aa_mem_region_alloc(&r,pre?pre:1);
 char b[400]; memset(b,'x',len); b[len]=0; char*s=aa_mem_region_printf(&r,"%s",b); if(strcmp(s,b)){printf("string of %d after %zu differs\\n",len,pre);return 1;} aa_mem_region_destroy(&r);} return 0;}''',
 "a formatted string whose characters, but not the terminating zero, exactly fill the chunk","the string returned by aa_mem_region_printf is not the formatted one")
mk('P02-racy-key','P02',[('src/mem.c','''    if( pthread_once( &local_region_once, local_region_make_key ) ) {
        perror("pthread_once");
        abort();
    }
''','''    static int have_key = 0;
    (void)local_region_once;
    if( ! have_key ) {
        local_region_make_key();
        have_key = 1;
    }
''')],
'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
'''+H+'''static volatile int slow;
int pthread_key_create(pthread_key_t*k,void(*d)(void*)){ int(*f)(pthread_key_t*,void(*)(void*))=(int(*)(pthread_key_t*,void(*)(void*)))dlsym(RTLD_NEXT,"pthread_key_create"); if(slow) usleep(rand()%3000); int r=f(k,d); if(slow) usleep(rand()%1000); return r; }
static pthread_barrier_t b; static int bad;
static void*th(void*p){ usleep(rand()%2000); struct aa_mem_region*r=aa_mem_region_local_get(); char*x=(char*)aa_mem_region_alloc(r,64); memset(x,(int)(long)p,64);
 pthread_barrier_wait(&b); usleep(10000); struct aa_mem_region*r2=aa_mem_region_local_get(); if(r2!=r) bad=1; pthread_barrier_wait(&b); return 0; }
#include <sys/wait.h>
int main(){ slow=1; for(int i=0;i<40;i++){ pid_t p=fork(); if(!p){ srand(i); pthread_barrier_init(&b,0,4); pthread_t t[4]; for(long k=0;k<4;k++)pthread_create(&t[k],0,th,(void*)(k+1)); for(int k=0;k<4;k++)pthread_join(t[k],0); _exit(bad);} int s; waitpid(p,&s,0); if(s){printf("a thread lost its region\\n");return 1;} } return 0;}''',
 "two threads using the thread-local region for the first time of the process at once, one creating the key while the other has stored its region","a thread's region is replaced by another one, the first leaks", libs="-lamino -ldl")
mk('P03-release-keeps-free','P03',[('src/mem.c','''    pool->top = NULL;
    aa_mem_region_release( &pool->region );''','''    aa_mem_region_release( &pool->region );''')],
H+'''int main(){ aa_mem_pool_t p; aa_mem_pool_init(&p,32,4); void*a=aa_mem_pool_alloc(&p),*b=aa_mem_pool_alloc(&p); (void)b; aa_mem_pool_free(&p,a); aa_mem_pool_release(&p);
 void*x[8]; for(int i=0;i<8;i++){ x[i]=aa_mem_pool_alloc(&p); for(int j=0;j<i;j++) if(x[i]==x[j]){printf("handed out twice\\n");return 1;} } return 0;}''',
 "an object freed before the pool is released, the next objects allocated after it","two live objects share memory")
mk('P15-allow-clean','P15',[('src/rx/sg_api.cpp','''        scene_graph->sg->allowed.erase(p);
    }
    scene_graph->sg->dirty_collision = 1;''','''        scene_graph->sg->allowed.erase(p);
        scene_graph->sg->dirty_collision = 1;
    }''')],
H+'''#include <amino/rx/scene_collision.h>
int main(){ struct aa_rx_sg*sg=aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg,"","a",aa_tf_quat_ident,v1); aa_rx_sg_add_frame_fixed(sg,"","b",aa_tf_quat_ident,v1); aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg);
 aa_rx_sg_allow_collision_name(sg,"a","b",1); aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg); struct aa_rx_cl_set*s=aa_rx_cl_set_create(sg); aa_rx_sg_cl_set_copy(sg,s);
 if(!aa_rx_cl_set_get(s,aa_rx_sg_frame_id(sg,"a"),aa_rx_sg_frame_id(sg,"b"))){printf("not allowed\\n");return 1;} return 0;}''',
 "a pair allowed after collision handling was initialised, without any other edit","the allowed pair is ignored", libs="-lamino-collision -lamino")
mk('P15-merge-overwrites','P15',[('src/rx/collision_set.cpp','''            if (aa_rx_cl_set_get(from, i, j)) {
                aa_rx_cl_set_set(into, i, j, 1);
            }''','''            aa_rx_cl_set_set(into, i, j, aa_rx_cl_set_get(from, i, j));''')],
H+'''#include <amino/rx/scene_collision.h>
int main(){ struct aa_rx_sg*sg=aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg,"","a",aa_tf_quat_ident,v1); aa_rx_sg_add_frame_fixed(sg,"","b",aa_tf_quat_ident,v1); aa_rx_sg_add_frame_fixed(sg,"","c",aa_tf_quat_ident,v1); aa_rx_sg_init(sg);
 struct aa_rx_cl_set*s=aa_rx_cl_set_create(sg),*t=aa_rx_cl_set_create(sg); aa_rx_cl_set_set(s,0,1,1); aa_rx_cl_set_set(t,1,2,1); aa_rx_cl_set_merge(s,t); if(!aa_rx_cl_set_get(s,0,1)||!aa_rx_cl_set_get(s,1,2)){printf("pair lost\\n");return 1;} return 0;}''',
 "merging into a set with pairs the other does not have","merging removes pairs", libs="-lamino-collision -lamino")
C=H+'''#include <amino/rx/scene_collision.h>
static struct aa_rx_sg*sg; static struct aa_rx_geom_opt*o;
static void frame(const char*n){ aa_rx_sg_add_frame_prismatic(sg,"",n,aa_tf_quat_ident,aa_tf_vec_ident,NULL,v1,0); }
static void box(const char*n,double d){ double e[3]={d,d,d}; aa_rx_geom_attach(sg,n,aa_rx_geom_box(o,e)); }
'''
mk('P17-sticky-distance','P17',[('src/rx/amino_fcl.cpp','''    cl_dist->in_collision = 0;
    size_t n''','''    size_t n'''),('src/rx/amino_fcl.cpp','''    r->data = AA_NEW0_AR(struct dist_ent, n*n);''','''    r->in_collision = 0;
    r->data = AA_NEW0_AR(struct dist_ent, n*n);''')],
C+'''int main(){ sg=aa_rx_sg_create(); o=aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o,1); frame("a"); frame("b"); box("a",1); box("b",1); aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg);
 struct aa_rx_cl*cl=aa_rx_cl_create(sg); struct aa_rx_cl_dist*d=aa_rx_cl_dist_create(cl); struct aa_rx_fk*fk=aa_rx_fk_malloc(sg); double q[3][2]={{0,5},{0,0.5},{0,5}}; int want[3]={0,1,0};
 for(int i=0;i<3;i++){ struct aa_dvec v=AA_DVEC_INIT(2,q[i],1); aa_rx_fk_all(fk,&v); int r=aa_rx_cl_dist_check(d,fk); if(!!r!=want[i]){printf("check %d: %d\\n",i,r);return 1;} } return 0;}''',
 "a distance check without overlap after one with overlap, on the same context","collisions are reported that ended long ago", libs="-lamino-collision -lamino")
mk('P17-same-frame-stops','P17',[('src/rx/amino_fcl.cpp','''    if( id1 == id2 ) return false;

    /* Check if allowed collision */''','''    if( id1 == id2 ) return NULL == data->cl_set;

    /* Check if allowed collision */''')],
C+'''int main(){ sg=aa_rx_sg_create(); o=aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o,1); frame("a"); frame("b"); for(int i=0;i<6;i++){box("a",1+0.01*i); box("b",1+0.01*i);} aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg);
 struct aa_rx_cl*cl=aa_rx_cl_create(sg); struct aa_rx_fk*fk=aa_rx_fk_malloc(sg); for(int i=0;i<20;i++){ double q[2]={0,i*0.045}; struct aa_dvec v=AA_DVEC_INIT(2,q,1); aa_rx_fk_all(fk,&v); if(!aa_rx_cl_check_fk(cl,fk,NULL)){printf("collision missed\\n");return 1;} } return 0;}''',
 "a frame with several overlapping geometries, checked without asking for the set of pairs","a collision with another frame is missed", libs="-lamino-collision -lamino")
K=H+'''#include <amino/rx/scene_ik.h>
#include <amino/rx/scene_wk.h>
'''
mk('P19-stale-start','P19',[('src/rx/scene_ik.c','''    aa_rx_sg_fill_tf_abs( aa_rx_sg_sub_sg(context->ssg), q_start, context->TF );
    aa_rx_fk_all( context->fk, q_start );''','''    aa_rx_sg_fill_tf_abs( aa_rx_sg_sub_sg(context->ssg), q_start, context->TF );''')],
K+'''int main(){ struct aa_rx_sg*sg=aa_rx_sg_create(); double ay[3]={0,1,0}; aa_rx_sg_add_frame_prismatic(sg,"","base",aa_tf_quat_ident,aa_tf_vec_ident,NULL,v1,0);
 const char*p="base"; char n[8][8]; for(int i=0;i<6;i++){ sprintf(n[i],"j%d",i); aa_rx_sg_add_frame_revolute(sg,p,n[i],aa_tf_quat_ident,i?v1:aa_tf_vec_ident,NULL,i%2?ay:ax,0); aa_rx_sg_set_limit_pos(sg,n[i],-2,2); p=n[i]; }
 aa_rx_sg_set_limit_pos(sg,"base",-9,9); aa_rx_sg_init(sg); struct aa_rx_sg_sub*ss=aa_rx_sg_chain_create(sg,aa_rx_sg_frame_id(sg,"base"),aa_rx_sg_frame_id(sg,"j5"));
 struct aa_rx_ik_parm*o=aa_rx_ik_parm_create(); aa_rx_ik_parm_set_algo(o,AA_RX_IK_SQP); struct aa_rx_ik_cx*cx=aa_rx_ik_cx_create(ss,o); double q[7]={5,.2,.3,.1,.4,-.2,.1}; size_t ns=aa_rx_sg_sub_config_count(ss), nq=aa_rx_sg_config_count(sg); double qa[7];
 for(size_t i=0;i<nq;i++) qa[i]=0; qa[aa_rx_sg_config_id(sg,"base")]=5; struct aa_dvec st=AA_DVEC_INIT(nq,qa,1); aa_rx_ik_set_start(cx,&st);
 double qb[7]; memcpy(qb,qa,sizeof qa); for(int i=0;i<6;i++) qb[aa_rx_sg_config_id(sg,n[i])]=q[1+i]; struct aa_dvec vb=AA_DVEC_INIT(nq,qb,1); struct aa_rx_fk*fk=aa_rx_fk_malloc(sg); aa_rx_fk_all(fk,&vb); double E[7]; aa_rx_fk_get_abs_qutr(fk,aa_rx_sg_frame_id(sg,"j5"),E);
 aa_rx_ik_set_restart_time(cx,20); struct aa_dmat T=AA_DMAT_INIT(7,1,E,7); double r[8]; struct aa_dvec vr=AA_DVEC_INIT(ns,r,1); int e=aa_rx_ik_solve(cx,&T,&vr); if(e){printf("no solution\\n");return 2;}
 for(size_t i=0;i<ns;i++) qb[aa_rx_sg_sub_config(ss,i)]=r[i]; aa_rx_fk_all(fk,&vb); double F[7]; aa_rx_fk_get_abs_qutr(fk,aa_rx_sg_frame_id(sg,"j5"),F); for(int i=4;i<7;i++) if(fabs(E[i]-F[i])>0.05){printf("off by %g\\n",E[i]-F[i]);return 1;} return 0;}''',
 "a start in which joints outside the chain differ from zero","a solution that is reported found does not reach the goal",timeout=60)
mk('P19-far-gradient','P19',[('src/rx/ik_nlopt.c','''        if( needs_min ) {
            for( size_t i = 0; i < 8; i ++ ) S_ln[i] *= -1;
        }

''','')] if False else [('src/rx/ik_nlopt.c','''    int needs_min = (S_err[AA_TF_DUQU_REAL_W] < 0 );''','''    int needs_min = (S_err[AA_TF_DUQU_REAL_W] <= -1 );''')],
K+'''#include <amino/rx/scene_ik_internal.h>
int main(){ struct aa_rx_sg*sg=aa_rx_sg_create(); aa_rx_sg_add_frame_revolute(sg,"","a",aa_tf_quat_ident,v1,NULL,ax,0); aa_rx_sg_add_frame_revolute(sg,"a","b",aa_tf_quat_ident,v1,NULL,ax,0); aa_rx_sg_set_limit_pos(sg,"a",-3,3); aa_rx_sg_set_limit_pos(sg,"b",-3,3); aa_rx_sg_init(sg);
 struct aa_rx_sg_sub*ss=aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"b")); struct aa_rx_ik_parm*o=aa_rx_ik_parm_create(); struct aa_rx_ik_cx*cx=aa_rx_ik_cx_create(ss,o);
 double E[7]={0,0,sin(1.2),cos(1.2),1,0.5,0}; struct aa_dmat T=AA_DMAT_INIT(7,1,E,7); struct kin_solve_cx k; memset(&k,0,sizeof k); k.ik_cx=cx; k.ssg=ss; k.opts=o; k.TF_ref=&T; k.frame=aa_rx_sg_frame_id(sg,"b"); k.reg=aa_mem_region_local_get(); k.fk=aa_rx_fk_malloc(sg);
 k.q_all=aa_dvec_malloc(2); aa_dvec_zero(k.q_all); k.q_sub=aa_dvec_malloc(2); struct aa_dvec z=AA_DVEC_INIT(2,(double[]){0,0},1); aa_rx_fk_all(k.fk,&z);
 for(double a=-2.9;a<2.9;a+=0.31){ double q[2]={a,a/2},g[2],f[2]; double x=aa_rx_ik_opt_err_dqln(&k,q,g), y=aa_rx_ik_opt_err_dqln_fd(&k,q,f); if(fabs(x-y)>1e-3||fabs(g[0]-f[0])>1e-2||fabs(g[1]-f[1])>1e-2){printf("at %g: %g %g, %g %g %g %g\\n",a,x,y,g[0],f[0],g[1],f[1]);return 1;} } return 0;}''',
 "an error of more than half a turn","the objective is not the distance the short way round, its gradient leads away")
