import sys; sys.path.insert(0,'/verif/tools')
exec(open('/verif/tools/seeds/s1.py').read().split("mk('P14-update")[0])
mk('P08-dec-then-read','P08',[('src/rx/scene_geom.c','''    unsigned oldcount = aa_mem_ref_dec(&mesh->refcount);
    if( 1 == oldcount ) {''','''    aa_mem_ref_dec(&mesh->refcount);
    if( 0 == mesh->refcount ) {''')],
H+'''#include <stdatomic.h>
extern void __libc_free(void*);
static atomic_int freed, go, done; static void *volatile watch; static struct aa_rx_mesh*m; static struct aa_rx_geom*g[2];
void free(void*p){ if(p&&p==watch){ if(atomic_fetch_add(&freed,1)) return; } __libc_free(p); }
#define N 1000000
static void*th(void*p){ for(int i=1;i<=N;i++){ while(atomic_load(&go)<i); aa_rx_geom_destroy(g[(long)p]); atomic_fetch_add(&done,1);} return 0;}
int main(){ pthread_t t[2]; for(long i=0;i<2;i++)pthread_create(&t[i],0,th,(void*)i);
struct aa_rx_geom_opt*o=aa_rx_geom_opt_create();
for(int i=1;i<=N;i++){ m=aa_rx_mesh_create(); g[0]=aa_rx_geom_mesh(o,m); g[1]=aa_rx_geom_mesh(o,m); aa_rx_mesh_destroy(m); freed=0; done=0; watch=m;
 atomic_store(&go,i); while(atomic_load(&done)<2); watch=0; if(freed!=1){printf("freed %d times\\n",(int)freed);_exit(1);} } _exit(0);}''',
 "two threads dropping the last two references to a mesh at the same time","a mesh is destroyed twice (or a freed mesh is read)",timeout=250)
