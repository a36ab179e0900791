import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='''#include <amino.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <pthread.h>
'''
mk('P04-mad-increment','P04',[('src/la_impl.c','P[i] = (AA_TYPE)fabs( u - x[i*incx] );','P[i] = (AA_TYPE)fabs( u - x[i] );')],
H+'''int main(){ double x[10]; for(int i=0;i<10;i++) x[i]=i%2?1000+i:i; double r=aa_la_d_mad(5,4,x,2); if(r!=2){printf("%g instead of 2\\n",r);return 1;} return 0;}''',
 "a median absolute deviation over every second element of an array","elements between the named ones are used")
mk('P04-static-scratch','P04',[('src/la_impl.c','''        AA_TYPE t[m];
        memcpy( t, A+j, sizeof(t[0])*m );''','''        static AA_TYPE t_small[32]; // avoid large stack frames
        AA_TYPE t_large[m];
        AA_TYPE *t = (m <= 32) ? t_small : t_large;
        memcpy( t, A+j, sizeof(t[0])*m );''')],
H+'''static int bad; static pthread_barrier_t b;
static void*th(void*p){ long k=(long)p; enum{M=16,N=16}; double A[M*N],x[M],E[M*M],F[M*M]; for(int i=0;i<M*N;i++)A[i]=(i*(7+k))%13+k; aa_la_d_colmean(M,N,A,M,x);
 for(int i=0;i<M;i++)for(int j=0;j<M;j++){ double s=0; for(int c=0;c<N;c++) s+=(A[c*M+i]-x[i])*(A[c*M+j]-x[j]); F[j*M+i]=s/(N-1); }
 pthread_barrier_wait(&b); for(int r=0;r<60000&&!bad;r++){ aa_la_d_colcov(M,N,A,M,x,E,M); for(int i=0;i<M*M;i++) if(fabs(E[i]-F[i])>1e-6){bad=1;break;} } return 0; }
int main(){ pthread_t t[4]; pthread_barrier_init(&b,0,4); for(long k=0;k<4;k++)pthread_create(&t[k],0,th,(void*)k); for(int k=0;k<4;k++)pthread_join(t[k],0); if(bad)printf("wrong covariance\\n"); return bad; }''',
 "two threads that compute covariances at the same time","one thread's column gets into the other's covariance")
mk('P04-rectangle-keeps-scratch','P04',[('src/la_impl.c','''    } /* else we're square */


    aa_mem_region_local_pop(B);''','''    } /* else we're square */


    aa_mem_region_local_pop( m < n ? (void*)alt_row : (void*)B );''')],
H+'''int main(){ double A[12]; ssize_t r[4],c[4]; for(int i=0;i<12;i++)A[i]=(i*5)%7; void*p=aa_mem_region_ptr(aa_mem_region_local_get()); aa_la_d_assign_hungarian(4,3,A,4,r,c); if(aa_mem_region_ptr(aa_mem_region_local_get())!=p) return 1;
 aa_la_d_assign_hungarian(3,4,A,3,r,c); if(aa_mem_region_ptr(aa_mem_region_local_get())!=p){printf("scratch memory is not given back\\n");return 1;} return 0;}''',
 "an assignment with more columns than rows","scratch memory of the thread is never given back")
mk('P04-axpy-columns','P04',[('src/mat.c','    if( m == ldX && m == ldY ) {','    if( ldX == ldY ) {')],
H+'''#include <amino/mat.h>
int main(){ double a[12],b[12]; for(int i=0;i<12;i++){a[i]=i;b[i]=100+i;} struct aa_dmat A=AA_DMAT_INIT(2,3,a,4),B=AA_DMAT_INIT(2,3,b,4); aa_dmat_axpy(2,&A,&B);
 for(int i=0;i<12;i++){ double w=100+i+(i%4<2?2*i:0); if(b[i]!=w){printf("element %d is %g, not %g\\n",i,b[i],w);return 1;} } return 0;}''',
 "two blocks of larger matrices that have the same leading dimension","elements outside the block change and elements of the block do not")
G=H+'''#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_plugin.h>
#include <unistd.h>
#include <stdatomic.h>
'''
mk('P25-lost-reference','P25',[('src/rx/scene_geom.c','''    aa_mem_ref_inc( &mesh->refcount );
    ALLOC_GEOM( struct aa_rx_geom_mesh, g,''','''    mesh->refcount = mesh->refcount + 1;
    ALLOC_GEOM( struct aa_rx_geom_mesh, g,''')],
G+'''static struct aa_rx_mesh*m; static pthread_barrier_t b;
static void*th(void*p){ (void)p; pthread_barrier_wait(&b); for(int i=0;i<20000;i++){ struct aa_rx_geom_opt*o=aa_rx_geom_opt_create(); aa_rx_geom_mesh(o,m); aa_rx_geom_opt_destroy(o); } return 0; }
int main(){ m=aa_rx_mesh_create(); pthread_t t[4]; pthread_barrier_init(&b,0,4); for(int k=0;k<4;k++)pthread_create(&t[k],0,th,0); for(int k=0;k<4;k++)pthread_join(t[k],0); unsigned c=aa_rx_mesh_refcount(m); if(c!=80001){printf("%u references\\n",c);return 1;} return 0; }''',
 "two threads that use the same mesh from a plugin in their scenes at the same time","a reference is lost, and the plugin is unloaded while a scene still uses its mesh")
mk('P25-one-handle','P25',[('src/rx/plugin.c','''    void *handle;
    aa_rx_dl_sg_fun fun =''','''    static void *handle;
    aa_rx_dl_sg_fun fun =''')],
G+'''static int count[2]; static char h[2];
void*dlopen(const char*f,int fl){ (void)fl; int i=f[0]-'a'; count[i]++; return &h[i]; }
int dlclose(void*p){ count[(char*)p-h]--; return 0; }
char*dlerror(void){ return 0; }
static struct aa_rx_sg* hand(struct aa_rx_sg*s,const char*r){ (void)r; return s?s:aa_rx_sg_create(); }
static struct aa_rx_sg* arm(struct aa_rx_sg*s,const char*r){ (void)r; if(!s)s=aa_rx_sg_create(); return aa_rx_dl_sg("b","x",s); }
void*dlsym(void*p,const char*n){ (void)n; return p==(void*)h?(void*)arm:(void*)hand; }
int main(){ struct aa_rx_sg*s=aa_rx_dl_sg("a","x",0); if(!s||count[0]!=1||count[1]!=1) return 2; aa_rx_sg_destroy(s); if(count[0]||count[1]){printf("loaded %d %d times\\n",count[0],count[1]);return 1;} return 0;}''',
 "a plugin whose scene-graph function loads a part of its scene from another plugin","the inner plugin is unloaded twice and the outer one never", flags="-rdynamic")
