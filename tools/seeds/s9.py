import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='''#include <amino.h>
#include <amino/mem.h>
#include <amino/mat.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_fk.h>
#include <amino/rx/scene_sub.h>
#include <stdio.h>
#include <stdlib.h>
#include <setjmp.h>
static jmp_buf jb; static void onerr(const char *m){ (void)m; longjmp(jb,1); }
'''
mk('P28-block-beyond','P28',[('src/mat.c','        col_end > n )','        col_end > src->ld )')],
H+'''int main(){ double d[64]={0}; struct aa_dmat A=AA_DMAT_INIT(3,2,d,6),B; aa_la_set_err(onerr); if(!setjmp(jb)){ aa_dmat_block(&A,0,1,3,5,&B); puts("a block beyond the last column"); return 1; } return 0; }''',
 "a matrix stored with a leading dimension greater than its number of columns, and a block reaching beyond its last column","a view of memory outside of the matrix is handed out")
mk('P28-copy-rows','P28',[('src/mat.c','''    aa_la_check_size(A->rows,B->rows);
    aa_la_check_size(A->cols,B->cols);
    int mi   = (int)(A->rows);''','''    aa_la_check_size(A->rows,AA_MAX(B->rows,AA_MIN(A->rows,B->ld)));
    aa_la_check_size(A->cols,B->cols);
    int mi   = (int)(A->rows);''')],
H+'''int main(){ double a[16]={1,2,3,4,5,6},b[16]={0}; struct aa_dmat A=AA_DMAT_INIT(3,2,a,3),B=AA_DMAT_INIT(2,2,b,4); b[2]=-7; aa_la_set_err(onerr); if(!setjmp(jb)){ aa_dmat_copy(&A,&B); printf("copied over what lies between the columns: %g\\n",b[2]); return 1; } return b[2]!=-7; }''',
 "a copy into a block of a larger matrix with too few rows","the rows below the block are overwritten")
mk('P28-second-block','P28',[('src/rx/scene_kin.c','''    aa_rx_frame_id frame_ee = ssg->frames[n_frames-1];
    double *E_ee = aa_rx_fk_ref(fk,frame_ee);
    const double *pe = E_ee + AA_TF_QUTR_T;

    aa_la_check_size(3, Jr->rows);
    aa_la_check_size(3, Jp->rows);
    aa_la_check_size(n_configs, Jr->cols);
    aa_la_check_size(n_configs, Jp->cols);
''','''    aa_rx_frame_id frame_ee = ssg->frames[n_frames-1];
    double *E_ee = aa_rx_fk_ref(fk,frame_ee);
    const double *pe = E_ee + AA_TF_QUTR_T;

    aa_la_check_size(3, Jr->rows);
    aa_la_check_size(3, Jp->rows);
    aa_la_check_size(n_configs, Jr->cols);
    aa_la_check_size(Jp->cols, AA_MIN(Jr->cols, Jp->cols));
''')],
H+'''int main(){ static const double id[4]={0,0,0,1},z[3]={0,0,1}; struct aa_rx_sg *g=aa_rx_sg_create(); aa_rx_sg_add_frame_revolute(g,"","a",id,z,"qa",z,0); aa_rx_sg_add_frame_revolute(g,"a","b",id,z,"qb",z,0); aa_rx_sg_init(g); struct aa_rx_sg_sub *s=aa_rx_sg_chain_create(g,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(g,"b")); struct aa_rx_fk *fk=aa_rx_fk_malloc(g); double q[2]={0,0},r[6],p[6]; struct aa_dvec v=AA_DVEC_INIT(2,q,1); aa_rx_fk_all(fk,&v);
 struct aa_dmat R=AA_DMAT_INIT(3,2,r,3),P=AA_DMAT_INIT(3,1,p,3); aa_la_set_err(onerr); if(!setjmp(jb)){ aa_rx_sg_sub_jac_vel_fill2(s,fk,&R,&P); puts("written beyond the second matrix"); return 1; } return 0; }''',
 "two separate matrices for the parts of a Jacobian, the second with too few columns","memory after the second matrix is overwritten")
