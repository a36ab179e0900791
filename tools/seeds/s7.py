import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='''#include <amino.h>
#include <amino/tf.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
'''
mk('P26-half-turn-axis','P26',[('src/tf/tfmatrix.c','( (y < z) ? 2 : 1 ) :','( (y < z) ? 2 : 0 ) :')],
H+'''int main(){ double e=0; for(int k=1;k<8;k++){ double z=1e-5*k, x=1e-8*k, n=sqrt(1+x*x+z*z), a[4]={x/n,1/n,z/n,M_PI}, R[9], v[3], q[4], p[4]; aa_tf_axang2quat(a,q); aa_tf_quat2rotmat(q,R); aa_tf_rotmat2rotvec(R,v); aa_tf_rotvec2quat(v,p); double d=0; for(int i=0;i<4;i++) d+=p[i]*q[i]; double s=d<0?-1:1; for(int i=0;i<4;i++) e=fmax(e,fabs(s*p[i]-q[i])); }
 if(!(e<1e-11)){printf("error %g\\n",e);return 1;} return 0;}''',
 "the logarithm of half a turn about an axis close to y","the axis comes from a vanishing diagonal element")
mk('P26-relx-stride','P26',[('src/tf.c','aa_tf_9rot( R, &X[ldx*j], xp );','aa_tf_9rot( R, &X[3*j], xp );')],
H+'''int main(){ double X[20],Y[15],R[9]={1,0,0,0,1,0,0,0,1},r[3]; for(int j=0;j<5;j++)for(int i=0;i<4;i++){X[4*j+i]=i<3?j*j+i:100; if(i<3)Y[3*j+i]=j*j+i+(i+1);} aa_tf_relx_mean(5,R,X,4,Y,3,r);
 for(int i=0;i<3;i++) if(fabs(r[i]-(i+1))>1e-9){printf("displacement %g\\n",r[i]);return 1;} return 0;}''',
 "points stored with a leading dimension other than three","coordinates of other points are used")
mk('P26-minimize-real-part','P26',[('src/tf/quat_duqu.c','''    if( S[AA_TF_DUQU_REAL_W] < 0 ) {
        FOR_DUQU(i) S[i] *= -1;
    }''','''    aa_tf_qminimize( S+AA_TF_DUQU_REAL );''')],
H+'''int main(){ double E[7]={0,0,0.6,-0.8,1,2,3},S[8],v[3]; aa_tf_qutr2duqu(E,S); aa_tf_duqu_minimize(S); aa_tf_duqu_trans(S,v); for(int i=0;i<3;i++) if(fabs(v[i]-(i+1))>1e-9){printf("translation %g %g %g\\n",v[0],v[1],v[2]);return 1;} return 0;}''',
 "a dual quaternion whose real part is taken the long way round","the translation is inverted")
mk('P05-callers-buffer','P05',[('src/io.c','if( *elts < read_elts + n ) {','if( *elts <= read_elts ) {')],
H+'''int main(){ FILE*f=tmpfile(); if(!f) return 9; fputs("1 2 3\\n4 5 6\\n",f); rewind(f); size_t elts=5; double*A=malloc(64*sizeof(double)); A[5]=-7; ssize_t r=aa_io_fread_matrix_heap(f,3,&A,&elts); if(r!=2||elts<6||A[5]!=6){printf("%zd lines in %zu elements\\n",r,elts);return 1;} return 0;}''',
 "a matrix read into the caller's buffer, whose size is not a multiple of the line's","the last line is written beyond the end of the buffer")
