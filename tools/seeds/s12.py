import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
def c(i,ed,body,needs,br,flags=""): mk(i,'P32',ed,'#include <amino.h>\n#include <amino/endconv.h>\n#include <amino/refcount.h>\n#include <stdatomic.h>\n#include <pthread.h>\n#include <stdio.h>\n#include <string.h>\n'+body,needs,br,flags=flags,libs="-lamino -lpthread")
c('P32-count-unlocked',[('src/refcount.c','''    pthread_mutex_lock( &refcount_mutex );
    unsigned old = *count;
    (*count)--;
    pthread_mutex_unlock( &refcount_mutex );
    return old;''','''    unsigned old = *count;
    pthread_mutex_lock( &refcount_mutex );
    (*count)--;
    pthread_mutex_unlock( &refcount_mutex );
    return old;''')],
'''static unsigned cnt; static _Atomic int last, go; enum { R = 2000000 };
static unsigned c[R]; static int seen[R]; static _Atomic int ready[2];
static void *run(void *p) { int me = (int)(long)p; for (int i = 0; i < R; i++) { atomic_store(&ready[me], i + 1); while (atomic_load(&ready[1 - me]) < i + 1); if (aa_mem_ref_dec_mutex(&c[i]) == 1) __atomic_add_fetch(&seen[i], 1, __ATOMIC_SEQ_CST); } return NULL; }
int main() { for (int i = 0; i < R; i++) c[i] = 2; pthread_t t; pthread_create(&t, NULL, run, (void *)1L); run(NULL); pthread_join(t, NULL); for (int i = 0; i < R; i++) if (seen[i] != 1) return 1; return 0; }
''',"two threads giving back the last two references at the same time","neither thread sees the last reference go")
c('P32-count-exchange',[('src/refcount.c','''    return atomic_fetch_sub(count, 1);''','''    unsigned old = atomic_load(count);
    atomic_store(count, old - 1);
    return old;''')],
'''enum { R = 2000000 };
static _Atomic unsigned c[R]; static int seen[R]; static _Atomic int ready[2];
static void *run(void *p) { int me = (int)(long)p; for (int i = 0; i < R; i++) { atomic_store(&ready[me], i + 1); while (atomic_load(&ready[1 - me]) < i + 1); if (aa_mem_ref_dec_atomic(&c[i]) == 1) __atomic_add_fetch(&seen[i], 1, __ATOMIC_SEQ_CST); } return NULL; }
int main() { for (int i = 0; i < R; i++) c[i] = 2; pthread_t t; pthread_create(&t, NULL, run, (void *)1L); run(NULL); pthread_join(t, NULL); for (int i = 0; i < R; i++) if (seen[i] != 1) return 1; return 0; }
''',"two threads giving back references at the same time","a decrement is lost and the object is never released")
c('P32-swap-tail',[('include/amino/mem.h','''size - size%sizeof(*la); i < size;''','''size - size%sizeof(*la); i + 1 < size;''')],
'''int main() { char a[32], b[32]; for (int n = 0; n < 20; n++) { memset(a, 'a', 32); memset(b, 'b', 32); aa_memswap(a, b, (size_t)n); for (int i = 0; i < 32; i++) if (a[i] != (i < n ? 'b' : 'a') || b[i] != (i < n ? 'a' : 'b')) return 1; } return 0; }
''',"swapping objects whose size is not a multiple of eight","the last octet stays where it was")
c('P32-vector-empty',[('include/amino/mem.h','''        (max) = 2*(size+1);                                     \\''','''        (max) = 2*(max);                                        \\''')],
'''AA_VECTOR_DEF(int, iv)
int main() { iv v; iv_init(&v, 0); for (int i = 0; i < 3; i++) iv_push(&v, i); return !(v.max >= v.size && v.size == 3); }
''',"a vector that starts without room","it never grows, and elements are written past its end")
c('P32-max-alone',[('src/validate.c','''    if( min || max ) {''','''    if( min ) {''')],
'''int main() { double v[2] = {1, 5}, hi[2] = {2, 3}; return !(aa_valid_v(v, 2, NULL, hi, 2) == 2 && aa_valid_v(v, 1, NULL, hi, 1) == 0); }
''',"a vector with an upper limit only","values above it are accepted")
c('P32-reverse-signed',[('include/amino/endconv.h','''            v = (type) (((x >> i) & 0xff) << j);                \\''','''            v = (type) (((x >> i) & (i ? 0xff : 0x7f)) << j);   \\''')],
'''int main() { int32_t x = 0x12345680, y; aa_endconv_st_be_i32(&y, x); return aa_endconv_h_to_be_i32(x) != y; }
''',"a number whose lowest octet has its high bit set","that bit is lost in the conversion")
