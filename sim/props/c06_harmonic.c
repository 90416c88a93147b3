/* C06: generalised harmonic numbers, cached process-wide. */
#include "common.h"
static const double base[]={1,2,0.5,1.5,3,0,-1,2.25}; static double svals[8]; static int ns;
//some exponents are close neighbours of others: down to the next double
static void pick_exponents(void){ ns=1+w_choose(8); for (int i=0;i<8;i++) svals[i]=base[i];
    for (int i=1;i<ns;i++) if (w_chance(1,6)){ double s=svals[w_choose(i)]; int e=w_choose(15); svals[i]= e==14? nextafter(s,10) : s+(w_choose(2)?1:-1)*pow(10,-3-e); } }
typedef struct { int n; double s; } req; static req plan[8][14]; static int nops;
static long double direct(int n,double s){ long double o=0; for (int i=n;i>=1;i--) o+=powl(i,-(long double)s); return o; }
static void one(int who,req q){
    long double v=apop_generalized_harmonic(q.n,q.s);
    if (q.n<=0) { CK(isnan((double)v),"harmonic:wrong","H(%d,%g)=%Lg, not NaN",q.n,q.s,v); return; }
    long double d=direct(q.n,q.s);
    CK(fabsl(v-d)<=1e-12L*fabsl(d),"harmonic:wrong","thread %d: H(%d,%g)=%.17Lg, not %.17Lg",who,q.n,q.s,v,d);
    sim_event("t%d H(%d,%g)",who,q.n,q.s);
}
static void body(int me,void *v){ (void)v; for (int k=0;k<nops;k++) one(me,plan[me][k]); }
static req gen(void){ req q; q.s=svals[w_choose(ns)]; q.n= w_chance(1,20)? -(int)w_choose(3) : w_chance(1,3)? 1+(int)w_choose(300) : 1+(int)w_choose(12); return q; }
void scen_harmonic(void){
    quiet(); apop_opts.verbose=-1;
    pick_exponents(); int n=pick_threads(6), pre=w_choose(8); nops=1+w_choose(8);
    sim_describe("%d exponents, %d earlier requests, %d threads x %d requests",ns,pre,n,nops);
    for (int i=0;i<pre;i++) one(-1,gen());
    for (int t=0;t<n;t++) for (int k=0;k<nops;k++) plan[t][k]=gen();
    if (n>1) sim_nontrivial();
    if (w_chance(1,6)) { for (int t=0;t<n;t++) body(t,NULL); } else sim_callers(n,body,NULL);
    for (int i=0;i<4;i++) one(-1,gen());
    for (int t=0;t<n;t++) for (int k=0;k<nops;k++) one(-2,plan[t][k]);
}
/* the same cache under its user, the Zipf distribution */
static double zres[8][8]; static double zs[8]; static int zn[8];
static void zbody(int me,void *v){ (void)v;
    apop_data *d=apop_data_alloc(zn[me],1); for (int i=0;i<zn[me];i++) apop_data_set(d,i,0,.val=1+(i*7+me)%9);
    apop_model *m=apop_model_set_parameters(apop_zipf,zs[me]);
    for (int k=0;k<3;k++) zres[me][k]=apop_log_likelihood(d,m);
    apop_model_free(m); apop_data_free(d);
}
void scen_harmonic_zipf(void){
    quiet(); apop_opts.verbose=-1; int n=pick_threads(5);
    for (int t=0;t<n;t++){ zs[t]=1.1+0.3*w_choose(4); zn[t]=1+w_choose(12); }
    sim_describe("%d threads computing Zipf likelihoods",n); if (n>1) sim_nontrivial();
    sim_callers(n,zbody,NULL);
    for (int t=0;t<n;t++){ double z=(double)apop_generalized_harmonic(100,zs[t]); CK(close_d(z,(double)direct(100,zs[t]),1e-12),"harmonic:wrong","after the threads: H(100,%g)=%.17g",zs[t],z);
        for (int k=1;k<3;k++) CK(same_d(zres[t][k],zres[t][0]),"harmonic:wrong","the same Zipf likelihood came out as %.17g and %.17g",zres[t][0],zres[t][k]); }
}
