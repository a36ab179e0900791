import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='''#include <amino.h>
#include <amino/mem.h>
#include <amino/mat.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_fk.h>
#include <amino/rx/scene_sub.h>
#include <amino/rx/scene_ik.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
static const double ident[4]={0,0,0,1}, vz[3]={0,0,1}, vx[3]={1,0,0};
static struct aa_rx_sg *arm(void){ struct aa_rx_sg *g=aa_rx_sg_create(); aa_rx_sg_add_frame_revolute(g,"","a",ident,vz,"qa",vz,0); aa_rx_sg_add_frame_prismatic(g,"a","b",ident,vx,"qb",vx,0); aa_rx_sg_add_frame_revolute(g,"b","c",ident,vx,"qc",vx,0); aa_rx_sg_add_frame_revolute(g,"","d",ident,vx,"qd",vx,0); aa_rx_sg_init(g); return g; }
'''
mk('P27-gather-stride','P27',[('src/rx/scene_kin.c','''        int k =  (int)(ssg->configs[i]) * inc;
        config_subset->data[j] = config_all->data[k];''','''        int k =  (int)(ssg->configs[i] * (aa_rx_config_id)config_subset->inc);
        config_subset->data[j] = config_all->data[k];
        (void)inc;''')],
H+'''int main(){ struct aa_rx_sg *g=arm(); struct aa_rx_sg_sub *s=aa_rx_sg_chain_create(g,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(g,"c")); double all[8]={0},sub[12]={0}; int n=3; for(int i=0;i<4;i++) all[2*i]=i+10; struct aa_dvec A=AA_DVEC_INIT(4,all,2),S=AA_DVEC_INIT(3,sub,1); aa_rx_sg_sub_config_gather(s,&A,&S); for(int i=0;i<n;i++) if(sub[i]!=10+aa_rx_sg_sub_config(s,i)){printf("element %d is %g\\n",i,sub[i]);return 1;} return 0;}''',
 "whole and partial configurations of different strides, such as a column of one matrix and a row of another","values of other joints are gathered")
mk('P27-expand-start','P27',[('src/rx/scene_kin.c','AA_MEM_CPY( path_all + i*n_all, q_start, n_all );','AA_MEM_CPY( path_all + i*n_all, q_start, n_sub );')],
H+'''int main(){ struct aa_rx_sg *g=arm(); struct aa_rx_sg_sub *s=aa_rx_sg_chain_create(g,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(g,"d")); double p[3]={1,2,3}, all[12], q[4]={5,6,7,8}; for(int i=0;i<12;i++) all[i]=-1; aa_rx_sg_sub_expand_path(s,3,q,p,all); for(int i=0;i<3;i++) for(int c=0;c<4;c++){ double w=c==aa_rx_sg_sub_config(s,0)?p[i]:q[c]; if(all[4*i+c]!=w){printf("point %d, configuration %d: %g\\n",i,c,all[4*i+c]);return 1;}} return 0;}''',
 "a path for a chain with few of the scene's joints","joints outside of the chain get values from nowhere")
mk('P27-prismatic-stale','P27',[('src/rx/scene_kin.c','''                aa_tf_qrot(q,a,jr);
                aa_tf_cross(t, jr, jp);
                break;
            }
            case AA_RX_FRAME_PRISMATIC:
                AA_MEM_ZERO(jr, 3);''','''                aa_tf_qrot(q,a,jr);
                aa_tf_cross(t, jr, jp);
                break;
            }
            case AA_RX_FRAME_PRISMATIC:
                if( Jr->ld == Jp->ld ) AA_MEM_ZERO(jr, 3);''')],
H+'''int main(){ struct aa_rx_sg *g=arm(); struct aa_rx_sg_sub *s=aa_rx_sg_chain_create(g,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(g,"c")); struct aa_rx_fk *fk=aa_rx_fk_malloc(g); double q[4]={.1,.2,.3,.4},r[12],p[9]; for(int i=0;i<12;i++) r[i]=77; struct aa_dvec v=AA_DVEC_INIT(4,q,1); aa_rx_fk_all(fk,&v); struct aa_dmat R=AA_DMAT_INIT(3,3,r,4),P=AA_DMAT_INIT(3,3,p,3); aa_rx_sg_sub_jac_twist_fill2(s,fk,&R,&P); for(int i=0;i<3;i++) if(r[4+i]!=0){printf("a sliding joint turns: %g\\n",r[4+i]);return 1;} return 0;}''',
 "a sliding joint, and separate matrices of different leading dimension for the two parts of the Jacobian","the rotational part of the sliding joint keeps what was there")
mk('P27-union-sibling','P27',[('src/rx/scene_sub.cpp','if (frames.find(tip) != frames.end()) break;','if (frames.lower_bound(tip) != frames.end()) break;')],
H+'''struct aa_rx_sg_sub *aa_rx_sg_multiple_chain_create(const struct aa_rx_sg*,aa_rx_frame_id,size_t,aa_rx_frame_id*);
int main(){ for(int f=0;f<2;f++){ struct aa_rx_sg *g=arm(); aa_rx_frame_id t[2]={aa_rx_sg_frame_id(g,f?"d":"c"),aa_rx_sg_frame_id(g,f?"c":"d")}; struct aa_rx_sg_sub *s=aa_rx_sg_multiple_chain_create(g,AA_RX_FRAME_ROOT,2,t); if(aa_rx_sg_sub_frame_count(s)!=4){printf("%zu frames\\n",aa_rx_sg_sub_frame_count(s));return 1;}} return 0;}''',
 "several chains, a later one ending in a frame numbered before one of an earlier chain","frames and joints of the later chain are left out")
