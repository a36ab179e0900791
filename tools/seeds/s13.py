import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk('P19-gain-again','P19',[('src/rx/ik_opt.c','''    aa_checked_free(opts->dq_dt_data);
''','''    if( opts->n_dq_dt != n_q ) aa_checked_free(opts->dq_dt_data);
''')],'''#include <amino.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_ik.h>
#include <malloc.h>
int main() {
    size_t before = 0, after = 0;
    double g[64] = {0};
    for (int k = 0; k < 200; k++) {
        struct aa_rx_ik_parm *p = aa_rx_ik_parm_create();
        aa_rx_ik_parm_take_gain_config(p, 64, g, AA_MEM_COPY);
        aa_rx_ik_parm_take_gain_config(p, 64, g, AA_MEM_COPY);
        aa_rx_ik_parm_destroy(p);
        if (k == 50) before = mallinfo2().uordblks;
        after = mallinfo2().uordblks;
    }
    return after > before + 1000;
}
''',"setting the null-space gains a second time","the copy of the first gains is never released")
