/* C21: divergences, entropies and likelihoods that are sums, by teams of any size, against serial sums made here. */
#include "common.h"
#include <gsl/gsl_cdf.h>
enum { MAXR=40, MAXD=1100 };
static int nthr; static const double NEGINF=-INFINITY;
static int sum_ok(double got,double want,double scale,int n){ if (isnan(want)) return isnan(got); if (isinf(want)) return got==want; return fabs(got-want)<=1e-13*(n+20)*(scale+1e-3); }
/* ---- PMFs: rows from a small pool so that cells match, tie and miss */
typedef struct { apop_data *d; int n,key[MAXR]; double w[MAXR],total; apop_model *m; int rows_in_fit; } pmf;
static int kind,cols;
static void row_of(int key,double *x){ for (int j=0;j<cols;j++) x[j]= (key>>j&1? key*1.25:-key)+j; if (key==7) x[cols-1]=NAN; }
static void fill_row(apop_data *d,int i,int key){ double x[4]; row_of(key,x); if (kind==0) gsl_vector_set(d->vector,i,x[0]); else if (kind==1) for (int j=0;j<cols;j++) gsl_matrix_set(d->matrix,i,j,x[j]); else if (kind==2) apop_text_set(d,i,0,"key %d",key); else { gsl_vector_set(d->vector,i,key/3); apop_text_set(d,i,0,"k%d",key%3); } }
static apop_data *blank(int n){ apop_data *d=apop_data_alloc(); if (kind==0||kind==3) d->vector=gsl_vector_alloc(n); if (kind==1) d->matrix=gsl_matrix_alloc(n,cols); if (kind>=2) apop_text_alloc(d,n,1); return d; }
static void mkpmf(pmf *p,int n,int pool,int weighted,int unique){ p->n=n; p->d=blank(n); if (weighted) p->d->weights=gsl_vector_alloc(n); p->total=0; int used=0;
    for (int i=0;i<n;i++){ int k=w_choose(pool); if (unique) while (used>>k&1) k=(k+1)%pool; used|=1<<k; p->key[i]=k; fill_row(p->d,i,k); p->w[i]= weighted? (w_choose(5)?1+w_choose(20)*0.37:0) : 1; if (weighted) gsl_vector_set(p->d->weights,i,p->w[i]); }
    if (weighted){ int any=0; for (int i=0;i<n;i++) any|=p->w[i]>0; if (!any){ p->w[0]=2; gsl_vector_set(p->d->weights,0,2); } } for (int i=0;i<n;i++) p->total+=p->w[i]; p->m=apop_estimate(p->d,apop_pmf); }
static double prob(pmf *p,int key){ for (int i=0;i<p->n;i++) if (p->key[i]==key) return p->w[i]/p->total; return 0; }
static void kl_pmfs(void){
    kind=w_choose(4); cols=1+w_choose(3); if (kind==0) cols=1; int pool=2+w_choose(12); pmf f,t; int n=1+w_choose(w_choose(3)?10:MAXR-1),m=1+w_choose(14); int uf=w_choose(2)&&n<=pool; mkpmf(&f,n,pool,w_choose(2),uf); if (w_choose(3)==0){ t.n=pool; t.d=blank(pool); int wt=w_choose(2); t.total=0; if (wt) t.d->weights=gsl_vector_alloc(pool); for (int i=0;i<pool;i++){ t.key[i]=pool-1-i; fill_row(t.d,i,t.key[i]); t.w[i]=wt?1+w_choose(9):1; if (wt) gsl_vector_set(t.d->weights,i,t.w[i]); t.total+=t.w[i]; } t.m=apop_estimate(t.d,apop_pmf); } else mkpmf(&t,m>pool?pool:m,pool,w_choose(2),w_choose(2));
    double e=0,sc=0; int missing=0; for (int i=0;i<f.n;i++){ double p=f.w[i]/f.total; if (!p) continue; double q=prob(&t,f.key[i]); if (!q){ missing++; continue; } e+=p*log(p/q); sc+=fabs(p*log(p/q)); } if (missing) e=NEGINF;
    sim_describe("divergence of a %d-row PMF from a %d-row PMF, %d rows missing, %d threads",f.n,t.n,missing,nthr); if (nthr>1&&f.n>1) sim_nontrivial(); if (missing) sim_probe("cells_missing");
    for (int k=0;k<2;k++){ sim_set_nthreads(nthr); double g=apop_kl_divergence(f.m,t.m); sim_set_nthreads(1); CK(sum_ok(g,e,sc,f.n),"sums:kl","the divergence of a PMF of %d rows from one of %d is %.15g instead of %.15g%s",f.n,t.n,g,e,missing?" (there are rows the other does not have)":""); }
    sim_set_nthreads(nthr); double z=apop_kl_divergence(t.m,t.m); sim_set_nthreads(1); int dup=0; for (int i=0;i<t.n;i++) for (int j=0;j<i;j++) dup|=t.key[i]==t.key[j]; if (!dup) CK(fabs(z)<1e-12,"sums:kl","the divergence of a PMF from itself is %g",z);
    CK(isnan(apop_kl_divergence(NULL,t.m))&&isnan(apop_kl_divergence(t.m,NULL)),"sums:kl","the divergence from NULL is a number");
    sim_state((uint64_t)(e*1e6)^f.n*31+t.n); apop_model_free(f.m); apop_model_free(t.m); apop_data_free(f.d); apop_data_free(t.d); }
static void kl_param(void){ // a PMF against a model with a density
    kind=w_choose(2); cols=1; pmf f; int n=1+w_choose(MAXR-1); mkpmf(&f,n,13,w_choose(2),0); for (int i=0;i<n;i++) if (f.key[i]==7){ f.key[i]=8; fill_row(f.d,i,8); } double mu=w_choose(9)-4.,sd=1+w_choose(5); int uni=w_choose(3)==0; apop_model *t= uni?apop_model_set_parameters(apop_uniform,-6,6): apop_model_set_parameters(apop_normal,mu,sd);
    double e=0,sc=0; int missing=0; for (int i=0;i<n;i++){ double x[4]; row_of(f.key[i],x); double p=f.w[i]/f.total; if (!p) continue; double lq= uni? (x[0]<-6||x[0]>6? NEGINF:-log(12)) : -0.5*log(2*M_PI)-log(sd)-(x[0]-mu)*(x[0]-mu)/(2*sd*sd); if (isinf(lq)){ missing=1; continue; } e+=p*(log(p)-lq); sc+=fabs(p*(log(p)-lq)); } if (missing) e=NEGINF;
    sim_describe("divergence of a %d-row PMF from a %s, %d threads",n,uni?"Uniform":"Normal",nthr); if (nthr>1&&n>1) sim_nontrivial(); sim_set_nthreads(nthr); double g=apop_kl_divergence(f.m,t); sim_set_nthreads(1); CK(sum_ok(g,e,sc,n)||(isfinite(e)&&fabs(g-e)<1e-9*(1+sc)),"sums:kl","the divergence of a PMF of %d rows from a %s is %.15g instead of %.15g",n,uni?"Uniform":"Normal",g,e); sim_state((uint64_t)(e*1e6)); apop_model_free(f.m); apop_model_free(t); apop_data_free(f.d); }
/* ---- models that are sampled: every draw is written down */
static double drawn[MAXD]; static int ndrawn,failed_draws,npq; static gsl_rng *by[MAXD]; static int tid_of[MAXD]; static double hole; static int ds;
static int noted_draw(double *out,gsl_rng *r,apop_model *m){ (void)m; uint32_t a; double u=gsl_rng_uniform_pos(r); sim_point(); out[0]=u; for (int j=1;j<ds;j++){ out[j]=gsl_rng_uniform(r); sim_point(); } int f=f_point(FK_CB_FAIL,1,&a); CK(ndrawn<MAXD,"sums:draws","there are more than %d draws",MAXD); by[ndrawn]=r; tid_of[ndrawn]=omp_get_thread_num(); drawn[ndrawn++]=u; if (f){ failed_draws++; return 1; } return 0; }
static long double dens1(apop_data *d,apop_model *m){ (void)m; npq++; double u=d->matrix?gsl_matrix_get(d->matrix,0,0):gsl_vector_get(d->vector,0); sim_point(); return 2*u; }
static long double dens2(apop_data *d,apop_model *m){ (void)m; double u=d->matrix?gsl_matrix_get(d->matrix,0,0):gsl_vector_get(d->vector,0); if (u<hole) return 0; return 0.25+1.5*u; }
static long double ldens(apop_data *d,apop_model *m){ (void)m; double u=d->matrix?gsl_matrix_get(d->matrix,0,0):gsl_vector_get(d->vector,0); sim_point(); return u<hole? NEGINF: logl(0.25+1.5*u); }
static void kl_draws(void){
    int n=1+w_choose(w_choose(3)?20:300); ds=1+w_choose(3); hole= w_choose(4)==0?0.05:0; ndrawn=failed_draws=0; apop_opts.rng_seed=w_choose(1000); for (int i=w_choose(3);i>0;i--) apop_rng_get_thread(w_choose(8)); apop_model *f=apop_model_copy(&(apop_model){.name="from",.dsize=ds,.draw=noted_draw,.p=dens1}),*t=apop_model_copy(&(apop_model){.name="to",.dsize=ds,.p=dens2}); gsl_rng *mine=w_choose(2)?rng_of(w_choose(100)):NULL; gsl_rng *ref=mine?gsl_rng_clone(mine):NULL;
    if (w_choose(5)==0) f_enable(FK_CB_FAIL,0.05,2); sim_describe("divergence by %d draws%s%s, %d threads",n,mine?" with my generator":"",hole?", with a hole":"",nthr); if (nthr>1&&n>1) sim_nontrivial();
    sim_set_nthreads(nthr); double g=apop_kl_divergence(f,t,n,mine); sim_set_nthreads(1); f_suspended=1; CK(ndrawn==n,"sums:draws","%d draws were asked for, and %d were made",n,ndrawn);
    double e=0,sc=0; int holes=0; for (int i=0;i<n;i++){ if (drawn[i]<hole){ holes++; continue; } double v=log(2*drawn[i]/(0.25+1.5*drawn[i])); e+=v; sc+=fabs(v); } e/=n; sc/=n;
    if (failed_draws) CK(isnan(g),"sums:unreported","%d draws failed, and the divergence is %g",failed_draws,g); else if (holes) CK(isinf(g),"sums:kl","%d of %d draws have density zero in the other model, and the divergence is %g",holes,n,g); else CK(sum_ok(g,e,sc,n),"sums:kl","the divergence by %d draws is %.15g instead of %.15g",n,g,e); if (holes) sim_probe("cells_missing");
    for (int i=0;i<n;i++){ if (mine&&nthr==1) CK(by[i]==mine,"sums:generator","draw %d is not from the generator I gave",i); for (int k=0;k<i;k++) if (by[i]==by[k]) CK(tid_of[i]==tid_of[k],"sums:generator","threads %d and %d draw from one generator",tid_of[i],tid_of[k]); }
    if (mine&&nthr==1) for (int i=0;i<n;i++){ double u=gsl_rng_uniform_pos(ref); for (int j=1;j<ds;j++) gsl_rng_uniform(ref); CK(u==drawn[i],"sums:generator","draw %d is not the next of the generator I gave",i); }
    apop_model z=*f; z.dsize=0; CK(isnan(apop_kl_divergence(&z,t,5)),"sums:kl","a divergence by draws of size zero is a number"); sim_state((uint64_t)(e*1e9)); apop_model_free(f); apop_model_free(t); }
static void entropy(void){
    int what=w_choose(4),n=1+w_choose(w_choose(3)?30:300),def=w_choose(40)==0; if (what==0&&def) n=1000; ndrawn=failed_draws=0; double g,e=0,sc=1; apop_opts.rng_seed=w_choose(1000); if (nthr>1&&n>1) sim_nontrivial();
    if (what==0){ ds=1+w_choose(2); hole=w_choose(6)==0?0.02:0; apop_model *m=apop_model_copy(&(apop_model){.name="noted",.dsize=ds,.draw=noted_draw,.log_likelihood=ldens}); if (w_choose(6)==0) f_enable(FK_CB_FAIL,0.05,2); sim_set_nthreads(nthr); g= def?apop_model_entropy(m):apop_model_entropy(m,n); sim_set_nthreads(1); f_suspended=1; CK(ndrawn==n,"sums:draws","%d draws were asked for, and %d were made",n,ndrawn); int holes=0; for (int i=0;i<n;i++){ if (drawn[i]<hole) holes++; else { e-=log(0.25+1.5*drawn[i]); sc+=fabs(log(0.25+1.5*drawn[i])); } } e/=n; sc/=n;
        if (failed_draws) CK(isnan(g),"sums:unreported","%d draws failed, and the entropy is %g",failed_draws,g); else if (holes) CK(!isfinite(g),"sums:entropy","%d draws have density zero, and the entropy is %g",holes,g); else CK(sum_ok(g,e,sc,n),"sums:entropy","the entropy from %d draws is %.15g instead of %.15g",n,g,e); apop_model_free(m); }
    else if (what==1){ double s=0.1+w_choose(50)*0.3; apop_model *m=apop_model_set_parameters(apop_normal,w_choose(9)-3.,s); e=0.5*(log(2*M_PI*s*s)+1); sim_set_nthreads(nthr); g=apop_model_entropy(m); sim_set_nthreads(1); CK(fabs(g-e)<1e-12*(1+fabs(e)),"sums:entropy","the entropy of a Normal with sigma %g is %.15g instead of %.15g",s,g,e); apop_model_free(m); }
    else if (what==2){ kind=1; cols=1+w_choose(3); pmf p; mkpmf(&p,1+w_choose(12),13,w_choose(2),1); for (int i=0;i<p.n;i++) if (p.key[i]==7){ fill_row(p.d,i,13); p.key[i]=13; } p.m->dsize=cols; double lo=INFINITY,hi=NEGINF,H=0,s2=0; for (int i=0;i<p.n;i++) if (p.w[i]){ double q=-log(p.w[i]/p.total); if (q<lo) lo=q; if (q>hi) hi=q; H+=q*p.w[i]/p.total; s2+=q*q*p.w[i]/p.total; } sim_set_nthreads(nthr); g=apop_model_entropy(p.m,n); sim_set_nthreads(1); CK(g>=lo-1e-9&&g<=hi+1e-9,"sums:entropy","the entropy of a PMF is %.15g; minus the log of every probability is between %g and %g",g,lo,hi); double sd=sqrt(fabs(s2-H*H)/n); CK(p.d->weights==NULL||fabs(g-H)<=9*sd+30*(hi-lo)/n+1e-9,"sums:entropy","the entropy of a PMF by %d draws is %.15g, and is %.15g",n,g,H); apop_model_free(p.m); apop_data_free(p.d); e=g; }
    else { int k=w_choose(40); gsl_vector *v=k?gsl_vector_alloc(k):NULL; double tot=0; for (int i=0;i<k;i++){ double x=w_choose(4)?w_choose(100)*0.37:0; gsl_vector_set(v,i,x); tot+=x; } for (int i=0;i<k;i++){ double p=gsl_vector_get(v,i)/tot; if (tot&&p) e-=p*log(p); } g=apop_vector_entropy(v); CK(sum_ok(g,e,10,k),"sums:entropy","the entropy of a vector of %d is %.15g instead of %.15g",k,g,e); if (k){ gsl_vector_set(v,0,-1); if (tot+k>0){ g=apop_vector_entropy(v); CK(isnan(g)||k==1||tot==0,"sums:entropy","the entropy of a vector with a negative element is %g",g); } gsl_vector_free(v); } }
    CK(isnan(apop_model_entropy(NULL)),"sums:entropy","the entropy of NULL is a number"); sim_describe("entropy of kind %d, %d draws, %d threads",what,n,nthr); sim_state((uint64_t)(e*1e9)); }
/* ---- kernel densities */
static void shift(apop_data *in,apop_model *m){ double x= in->vector?gsl_vector_get(in->vector,0):gsl_matrix_get(in->matrix,0,0); gsl_vector_set(m->parameters->vector,0,x); sim_point(); }
static void kernels(void){
    int n=1+w_choose(14),r=1+w_choose(12),vec=w_choose(2),wt=w_choose(2),own=w_choose(2); double s= own?0.25+w_choose(8)*0.5:1; apop_data *base=vec?apop_data_alloc(n):apop_data_alloc(n,1); double c[16],w[16],W=0; for (int i=0;i<n;i++){ c[i]=(int)w_choose(41)-20+w_choose(4)*0.25; apop_data_set(base,i,vec?-1:0,c[i]); w[i]=1; } if (wt){ base->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++){ w[i]=0.5+w_choose(9); gsl_vector_set(base->weights,i,w[i]); } } for (int i=0;i<n;i++) W+=w[i];
    apop_model *k; if (own){ apop_model *kern=apop_model_set_parameters(apop_normal,0,s); k=apop_model_copy(apop_kernel_density); Apop_settings_add_group(k,apop_kernel_density,.base_data=base,.kernel=kern,.set_fn=shift); } else k=apop_estimate(base,apop_kernel_density); int copied=w_choose(3)==0; apop_model *use=copied?apop_model_copy(k):k;
    apop_data *x=w_choose(2)?apop_data_alloc(r):apop_data_alloc(r,1); double X[16],e=0,sc=0; for (int i=0;i<r;i++){ X[i]=(int)w_choose(61)-30+w_choose(8)*0.125; if (w_choose(40)==0) X[i]=5000; apop_data_set(x,i,x->vector?-1:0,X[i]); }
    int inf=0; for (int i=0;i<r;i++){ double L[16],mx=NEGINF,t=0; for (int j=0;j<n;j++){ L[j]=-0.5*log(2*M_PI)-log(s)-(X[i]-c[j])*(X[i]-c[j])/(2*s*s)+log(w[j]/W); if (L[j]>mx) mx=L[j]; } if (mx<-1e5) inf=1; for (int j=0;j<n;j++) t+=exp(L[j]-mx); e+=mx+log(t); sc+=fabs(mx+log(t)); }
    sim_describe("kernel density over %d points%s at %d points, %d threads",n,wt?" with weights":"",r,nthr); if (nthr>1&&r>1) sim_nontrivial(); sim_set_nthreads(nthr); double g=apop_log_likelihood(x,use); double p=apop_p(x,use); 
    if (!inf){ CK(fabs(g-e)<=1e-10*(sc+1),"sums:kernel","the log likelihood of %d points under %d kernels is %.15g instead of %.15g",r,n,g,e); CK(fabs(p-exp(e))<=1e-9*(sc+1)*exp(e)+1e-300,"sums:kernel","the likelihood of %d points is %.15g instead of %.15g",r,p,exp(e)); } else CK(g<-1e5,"sums:kernel","the log likelihood is %g, and one point is 5000 away",g);
    double cdf=0; for (int j=0;j<n;j++) cdf+=gsl_cdf_gaussian_P(X[0]-c[j],s)*w[j]/W; g=apop_cdf(Apop_r(x,0),use); CK(fabs(g-cdf)<=1e-11,"sums:kernel","the CDF at one point under %d kernels is %.15g instead of %.15g",n,g,cdf); sim_set_nthreads(1); if (copied) apop_model_free(use); apop_model_free(k); sim_state((uint64_t)(e*1e6)); }
/* ---- log likelihoods that sum over rows */
static void rowsums(void){
    int r=1+w_choose(w_choose(3)?20:200),what=w_choose(13); apop_model *m; apop_data *d=apop_data_alloc(r,1+(what<3?w_choose(3):0)); if (what==10){ apop_data_free(d); d=apop_data_alloc(r,2); } int vec=what>2&&what!=10&&w_choose(2); if (vec){ apop_data_free(d); d=apop_data_alloc(r); }
    switch (what){ case 0: m=apop_model_set_parameters(apop_normal,1,2); break; case 1: m=apop_model_set_parameters(apop_exponential,2.5); break; case 2: m=apop_model_set_parameters(apop_uniform,0,12); break; case 3: m=apop_model_set_parameters(apop_poisson,3.5); break; case 4: m=apop_model_set_parameters(apop_gamma,2,1.5); break; case 5: m=apop_model_set_parameters(apop_beta,2,3); break; case 6: m=apop_model_set_parameters(apop_lognormal,0.5,1.2); break; case 7: m=apop_model_set_parameters(apop_t_distribution,1,2,6); break; case 8: m=apop_model_set_parameters(apop_zipf,2.2); break; case 9: m=apop_model_set_parameters(apop_yule,2.4); break; case 10: m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_falloc((2,2,2),1,2,.5,2,.5,3); m->dsize=2; break; case 11: m=apop_model_set_parameters(apop_bernoulli,0.3); break; default: m=apop_model_set_parameters(apop_normal,-3,0.7); break; }
    int ints=what==3||what==8||what==9; double *X=d->vector?d->vector->data:d->matrix->data; int tot=d->vector?r:r*(int)d->matrix->size2; for (int i=0;i<tot;i++) X[i]= ints?1+w_choose(9): what==5?(1+w_choose(98))/99.5: what==11?w_choose(2): (1+w_choose(90))/8.; if (w_choose(12)==0) X[w_choose(tot)]= what==2||what==1? -3: X[0];
    double one=0,sc=0; sim_set_nthreads(1); int split=1; for (int i=0;i<r;i++){ double l=apop_log_likelihood(Apop_r(d,i),m); one+=l; sc+=fabs(l); } double s1=apop_log_likelihood(d,m),p1=apop_p(d,m),c1=apop_cdf(Apop_r(d,0),m); sim_set_nthreads(nthr); double s2=apop_log_likelihood(d,m),p2=apop_p(d,m),c2=apop_cdf(Apop_r(d,0),m); sim_set_nthreads(1); (void)split;
    sim_describe("log likelihood of %d rows under model %d, %d threads",r,what,nthr); if (nthr>1&&r>1) sim_nontrivial(); static const char *nm[]={"normal","exponential","uniform","poisson","gamma","beta","lognormal","t","zipf","yule","multivariate normal","bernoulli","narrow normal"}; double tol=1e-11*(1+sc)*(1+r/20.);
    #define SAME(a,b) ((isnan(a)&&isnan(b))||a==b||fabs(a-b)<=tol)
    CK(SAME(s1,s2),"sums:likelihood","the log likelihood of %d rows under a %s is %.15g in one thread and %.15g in %d",r,nm[what],s1,s2,nthr); if (isfinite(sc)) CK(fabs(s2-one)<=tol*1e3,"sums:likelihood","the log likelihood of %d rows under a %s is %.15g, and the rows sum to %.15g",r,nm[what],s2,one); CK((isnan(p1)&&isnan(p2))||p1==p2||fabs(p1-p2)<=1e-9*fabs(p1),"sums:likelihood","the likelihood of %d rows under a %s is %.15g in one thread and %.15g in %d",r,nm[what],p1,p2,nthr); CK(same_d(c1,c2),"sums:likelihood","a CDF of a %s is %.15g in one thread and %.15g in %d",nm[what],c1,c2,nthr); sim_state((uint64_t)(s1*1e6)+what); apop_model_free(m); apop_data_free(d); }
void scen_sums(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("sums:hang"); nthr= w_choose(6)?pick_threads(8):1; ndrawn=failed_draws=0;
    switch (w_choose(10)){ case 0: case 1: case 2: kl_pmfs(); break; case 3: kl_param(); break; case 4: case 5: kl_draws(); break; case 6: entropy(); break; case 7: kernels(); break; default: rowsums(); } }
