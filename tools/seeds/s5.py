import sys; sys.path.insert(0,'/verif/tools')
exec(open('/verif/tools/seeds/s1.py').read().split("mk('P14-update")[0])
O=H+'''#include <amino/opt/opt.h>
#include <amino/opt/lp.h>
'''
mk('P20-clp-skip-zero','P20',[('src/opt/opt_clp.cpp','''            M->modifyCoefficient( i, j, AA_MATREF(A,lda, i,j) );''','''            if( 0 != AA_MATREF(A,lda, i,j) )
                M->modifyCoefficient( i, j, AA_MATREF(A,lda, i,j) );''')],
O+'''int main(){ double A[4]={1,0,1,1}, bl[2]={-10,-10},bu[2]={4,3},c[2]={1,1},xl[2]={0,0},xu[2]={3,3}; struct aa_opt_cx*cx=aa_opt_gmcreate(AA_OPT_LP_SOLVER_CLP,2,2,A,2,bl,bu,c,xl,xu); if(!cx) return 9;
 aa_opt_set_direction(cx,AA_OPT_MAXIMIZE); double x[2]; int r=aa_opt_solve(cx,2,x); if(r){printf("solve %d\\n",r);return 2;}
 double B[4]={1,0,0,1}; aa_opt_set_cstr_gm(cx,2,2,B,2,bl,bu); r=aa_opt_solve(cx,2,x); if(r||fabs(x[0]+x[1]-6)>1e-6){printf("%d %g %g\\n",r,x[0],x[1]);return 1;} return 0;}''',
 "a change of the constraints that makes a coefficient zero","the CLP context keeps the old coefficient and misses the optimum")
mk('P20-glpk-leading-dimension','P20',[('src/opt/opt_glpk.c','''rows-1, AA_MATCOL(A,ldA,(size_t)j) - 1''','''rows-1, AA_MATCOL(A,m,(size_t)j) - 1''')],
O+'''int main(){ double A[6]={1,0,9,1,1,9}, bl[2]={-10,-10},bu[2]={4,3},c[2]={1,1},xl[2]={0,0},xu[2]={5,5}; struct aa_opt_cx*cx=aa_opt_gmcreate(AA_OPT_LP_SOLVER_GLPK,2,2,A,3,bl,bu,c,xl,xu); if(!cx) return 9;
 aa_opt_set_direction(cx,AA_OPT_MAXIMIZE); double x[2]; int r=aa_opt_solve(cx,2,x); if(r||fabs(x[0]+x[1]-4)>1e-6){printf("first: %d %g %g\\n",r,x[0],x[1]);return r?2:1;}
 double B[8]={2,1,9,9,1,1,9,9}; aa_opt_set_cstr_gm(cx,2,2,B,4,bl,bu); r=aa_opt_solve(cx,2,x); double best=3; if(r||fabs(x[0]+x[1]-best)>1e-6){printf("%d %g %g\\n",r,x[0],x[1]);return 1;} return 0;}''',
 "constraints given in a matrix with a leading dimension larger than its rows","the GLPK context solves another program")
W=H+'''#include <amino/rx/scene_wk.h>
'''
mk('P21-brake-from-rest','P21',[('src/rx/lc3.c','''(q_min-v_q_a)/dt - ddq_max*(dt/2) - v_dq_a );''','''(q_min-v_q_a)/dt - ddq_max*(dt/2) - fmax(v_dq_a, 0) );''')],
W+'''int main(){ struct aa_rx_sg*sg=aa_rx_sg_create(); aa_rx_sg_add_frame_prismatic(sg,"","a",aa_tf_quat_ident,aa_tf_vec_ident,NULL,v1,0); aa_rx_sg_set_limit_pos(sg,"a",-1,1); aa_rx_sg_set_limit_vel(sg,"a",-10,10); aa_rx_sg_set_limit_acc(sg,"a",-100,100); aa_rx_sg_init(sg);
 struct aa_rx_sg_sub*ss=aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"a")); struct aa_rx_wk_opts*o=aa_rx_wk_opts_create(); struct aa_rx_wk_lc3_cx*cx=aa_rx_wk_lc3_create(ss,o); struct aa_rx_fk*fk=aa_rx_fk_malloc(sg);
 double q=0,dq=0,dx[6]={0},z=0,n; dx[AA_TF_DX_V]=-8; struct aa_dvec vq=AA_DVEC_INIT(1,&q,1),vdq=AA_DVEC_INIT(1,&dq,1),vx=AA_DVEC_INIT(6,dx,1),vz=AA_DVEC_INIT(1,&z,1),vn=AA_DVEC_INIT(1,&n,1); double dt=0.02;
 for(int i=0;i<60;i++){ aa_rx_fk_all(fk,&vq); int r=aa_rx_wk_dx2dq_lc3(cx,dt,fk,&vx,&vq,&vdq,&vz,&vn); if(r) break; if((-1-q)/dt-100*dt/2 > n+1e-6){printf("at %g: %g\\n",q,n);return 1;} q+=n*dt; dq=n; } return 0;}''',
 "a joint that moves towards its lower limit","the velocity asked for takes the joint beyond its limit")
mk('P21-center-stride','P21',[('src/rx/scene_wk.c','''i < n_q; i ++, xq+=q->inc, xdq_r+=dq_r->inc''','''i < n_q; i ++, xq+=q->inc, xdq_r+=q->inc''')],
W+'''int main(){ struct aa_rx_sg*sg=aa_rx_sg_create(); aa_rx_sg_add_frame_revolute(sg,"","a",aa_tf_quat_ident,v1,NULL,ax,0); aa_rx_sg_add_frame_revolute(sg,"a","b",aa_tf_quat_ident,v1,NULL,ax,0); aa_rx_sg_set_limit_pos(sg,"a",-1,3); aa_rx_sg_set_limit_pos(sg,"b",-1,3); aa_rx_sg_init(sg);
 struct aa_rx_sg_sub*ss=aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"b")); struct aa_rx_wk_opts*o=aa_rx_wk_opts_create(); double q[2]={0,0},d[6]={9,9,9,9,9,9}; struct aa_dvec vq=AA_DVEC_INIT(2,q,1),vd=AA_DVEC_INIT(2,d,3); aa_rx_wk_dqcenter(ss,o,&vq,&vd);
 if(fabs(d[0]-.25)>1e-9||fabs(d[3]-.25)>1e-9||d[1]!=9){printf("%g %g %g\\n",d[0],d[1],d[3]);return 1;} return 0;}''',
 "vectors of different strides","the centering velocity is written to the wrong elements")
J=H+'''#include <amino/ct/state.h>
#include <amino/ct/traj.h>
'''
mk('P22-front-duplicate','P22',[('src/ct/traj.cpp','''        struct aa_ct_pt *f_pt = list->list.front();

        if (aa_ct_state_eq(&f_pt->state, state))''','''        struct aa_ct_pt *f_pt = list->list.back();

        if (aa_ct_state_eq(&f_pt->state, state))''')],
J+'''int main(){ struct aa_mem_region r; aa_mem_region_init(&r,4096); struct aa_ct_pt_list*l=aa_ct_pt_list_create(&r); double a[1]={0},b[1]={1}; struct aa_ct_state s; memset(&s,0,sizeof s); s.n_q=1; s.q=b; aa_ct_pt_list_add(l,&s); s.q=a; aa_ct_pt_list_add(l,&s); aa_ct_pt_list_add_front(l,&s);
 if(aa_ct_pt_list_size(l)!=3){printf("%zu points\\n",aa_ct_pt_list_size(l));return 1;} return 0;}''',
 "a waypoint added at the front that equals the last one (a closed tour)","the waypoint is dropped")
mk('P22-one-velocity-limit','P22',[('src/ct/traj.cpp','''            dti = cx->dq[i] / limits->min->dq[i];''','''            dti = -cx->dq[i] / limits->max->dq[i];''')],
J+'''int main(){ struct aa_mem_region r; aa_mem_region_init(&r,4096); struct aa_ct_pt_list*l=aa_ct_pt_list_create(&r); double a[1]={1},b[1]={0}; aa_ct_pt_list_add_q(l,1,a); aa_ct_pt_list_add_q(l,1,b); double lo[1]={-0.5},hi[1]={2}; struct aa_ct_state mn,mx; memset(&mn,0,sizeof mn); memset(&mx,0,sizeof mx); mn.n_q=mx.n_q=1; mn.dq=mn.ddq=lo; mx.dq=mx.ddq=hi; struct aa_ct_limit lim={&mn,&mx};
 struct aa_ct_seg_list*s=aa_ct_tjq_lin_generate(&r,l,&lim); double q[1],d[1]; aa_ct_seg_list_eval_dq(s,aa_ct_seg_list_duration(s)/2,1,q,d); if(d[0]<-0.5-1e-9){printf("velocity %g\\n",d[0]);return 1;} return 0;}''',
 "velocity limits that differ between the directions, a segment in the slow direction","a linear trajectory exceeds the limit")
D='''#include <amino.h>
#include <stdio.h>
#include <math.h>
'''
mk('P24-stage-time','P24',[('src/sigsys.c','''    sys( cx, t0+3*dt/4, x2, k + 2*n );''','''    sys( cx, t0+dt/2, x2, k + 2*n );''')],
D+'''static void f(const void*c,double t,const double*restrict x,double*restrict y){ (void)c; y[0]=cos(t)-x[0]; }
int main(){ double e[2]; for(int i=0;i<2;i++){ double h=0.1/(1<<i),k[4],a[1],b[1],x[1]={1}; f(0,1,x,k); aa_odestep_rkbs23(1,f,0,1,h,x,k,a,b);
 double C=1-(cos(1)+sin(1))/2; double z=(cos(1+h)+sin(1+h))/2+C*exp(-h); e[i]=fabs(a[0]-z); } if(e[0]/e[1]<10){printf("error %g %g\\n",e[0],e[1]);return 1;} return 0;}''',
 "a system that depends on time","Bogacki-Shampine steps lose an order")
mk('P24-old-time-derivative','P24',[('src/sigsys.c','''            t += dt;
            /* TODO: avoid the duplicate sys() evaluation here */
            sys( sys_cx, t, px1, y );''','''            /* TODO: avoid the duplicate sys() evaluation here */
            sys( sys_cx, t, px1, y );
            t += dt;''')],
D+'''static void f(const void*c,double t,const double*restrict x,double*restrict y){ (void)c;(void)x; y[0]=t; }
static int n,bad; static int ck(void*c,double t,double*restrict x,double*restrict y){ (void)c;(void)x; if(fabs(y[0]-t)>1e-9){printf("derivative %g at %g\\n",y[0],t);bad=1;} return ++n>5; }
int main(){ double x[1]={0},z[1]; struct aa_ode_sol_opts o={0}; aa_ode_sol(AA_ODE_RK4,&o,1,f,0,ck,0,0,0.1,x,z); return bad; }''',
 "a system that depends on time, and a check that uses the derivative","the check gets the derivative at the previous time")
M=H+'''#include <amino/rx/rxerr.h>
#include <amino/rx/scene_collision.h>
#include <amino/rx/scene_planning.h>
'''
SC='''static double q3[3]; static struct aa_rx_sg*sg;
static struct aa_rx_mp* scene(){ struct aa_rx_sg*s=sg=aa_rx_sg_create(); double t1[3]={1,0,0}; 
 aa_rx_sg_add_frame_prismatic(s,"","base",aa_tf_quat_ident,aa_tf_vec_ident,NULL,t1,0); aa_rx_sg_add_frame_revolute(s,"base","a",aa_tf_quat_ident,aa_tf_vec_ident,NULL,ax,0); aa_rx_sg_add_frame_revolute(s,"a","b",aa_tf_quat_ident,t1,NULL,ax,0); aa_rx_sg_add_frame_fixed(s,"b","tip",aa_tf_quat_ident,t1);
 aa_rx_sg_set_limit_pos(s,"base",-2,2); aa_rx_sg_set_limit_pos(s,"a",-3,3); aa_rx_sg_set_limit_pos(s,"b",-3,3); aa_rx_sg_init(s); aa_rx_sg_cl_init(s);
 struct aa_rx_sg_sub*ss=aa_rx_sg_chain_create(s,aa_rx_sg_frame_id(s,"base"),aa_rx_sg_frame_id(s,"tip")); return aa_rx_mp_create(ss); }
static void put(double base,double a,double b){ q3[aa_rx_sg_config_id(sg,"base")]=base;q3[aa_rx_sg_config_id(sg,"a")]=a;q3[aa_rx_sg_config_id(sg,"b")]=b; }
'''
mk('P18-old-samples','P18',[('src/rx/mp/scene_ompl.cpp','''            mp->lazy_samples->clear();
''','''            if( !mp->lazy_samples->hasStates() ) mp->lazy_samples->clear();
''')],
M+SC+'''static int tip(const double*q,double E[7]){ size_t n=aa_rx_sg_frame_count(sg); double R[7*n],A[7*n]; aa_rx_sg_tf(sg,3,q,n,R,7,A,7); memcpy(E,A+7*aa_rx_sg_frame_id(sg,"tip"),56); return 0; }
int main(){ struct aa_rx_mp*mp=scene(); double E[7],G[7]; put(0,0.7,0.9); tip(q3,E); put(0,0,0.1); aa_rx_mp_set_start(mp,3,q3); aa_rx_mp_set_wsgoal(mp,1,NULL,E,7);
 size_t n; double*p; int r=aa_rx_mp_plan(mp,5,&n,&p); if(r){printf("first %d\\n",r);return 0;}
 put(0.4,0.1,0.2); aa_rx_mp_set_start(mp,3,q3); r=aa_rx_mp_plan(mp,1,&n,&p); if(r) return 0; /* the pose may be out of reach from here */
 tip(p+3*(n-1),G); double d=fabs(E[4]-G[4])+fabs(E[5]-G[5]); if(d>0.1){printf("ends %g from the goal\\n",d);return 1;} return 0;}''',
 "a workspace goal, and a second plan from a start that moves a joint outside the chain","the plan ends where the goal was for the first start",libs='-lamino -lamino-planning -lamino-collision')
mk('P18-rest-of-path','P18',[('src/rx/mp/scene_ompl.cpp','''            AA_MEM_CPY( ptr, mp->config_start, ss->config_count_all() );
''','''            if( ptr == *p_path_all ) AA_MEM_CPY( ptr, mp->config_start, ss->config_count_all() );
''')],
M+SC+'''int main(){ struct aa_rx_mp*mp=scene(); put(0.5,0,0.1); aa_rx_mp_set_start(mp,3,q3); double g[2]={1,1}; if(aa_rx_mp_set_goal(mp,2,g)) return 2; size_t n; double*p; int r=aa_rx_mp_plan(mp,5,&n,&p); if(r) return 3;
 for(size_t i=0;i<n;i++) if(p[3*i+aa_rx_sg_config_id(sg,"base")]!=0.5){printf("point %zu moves the base\\n",i);return 1;} return 0;}''',
 "a chain that leaves out a joint of the scene which is away from zero","the path moves a joint that is not part of the plan",libs='-lamino -lamino-planning -lamino-collision')
