/* C26: one distribution, evaluated in every way it can be: likelihood, probability, CDF, score, estimate, by several threads,
with the observations in the vector, in a matrix of any width, or in both.  The oracle is the formula of the distribution. */
#include "common.h"
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_sf_zeta.h>
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_sf_psi.h>
#include <gsl/gsl_randist.h>
enum { MAXO=160, MAXD=5 };
enum { K_NORMAL,K_LOGNORMAL,K_UNIFORM,K_GAMMA,K_BETA,K_EXP,K_T,K_POISSON,K_BERN,K_ZIPF,K_YULE,K_MIX,K_KDE,K_FIX,K_CROSS,K_SCALARS, K_BINOM=K_SCALARS,K_MULTI,K_MVN,K_DIRI,NK };
static const char *kn[]={"normal","lognormal","uniform","gamma","beta","exponential","t","Poisson","Bernoulli","Zipf","Yule","mixture","kernel density","normal with a fixed parameter","product","binomial","multinomial","multivariate normal","Dirichlet"};
static int kind,n,dim; static double par[12]; static double ob[MAXO][MAXD]; static apop_data *kbase; static int kw;
static double lnorm(double x,double m,double s){ return -gsl_pow_2((x-m)/s)/2-log(s)-log(2*M_PI)/2; }
static double mix_w(int i){ return i?par[5]/(1+par[5]):1/(1+par[5]); }
static double logpdf(const double *v,const double *p){ double x=v[0]; switch(kind){
    case K_NORMAL: case K_FIX: return lnorm(x,p[0],p[1]); case K_LOGNORMAL: return x<=0?-INFINITY:lnorm(log(x),p[0],p[1])-log(x);
    case K_UNIFORM: return x<p[0]||x>p[1]?-INFINITY:-log(p[1]-p[0]);
    case K_GAMMA: return x<0?-INFINITY:(p[0]-1)*log(x)-x/p[1]-gsl_sf_lngamma(p[0])-p[0]*log(p[1]);
    case K_BETA: return x<0||x>1?-INFINITY:(p[0]-1)*log(x)+(p[1]-1)*log1p(-x)-gsl_sf_lnbeta(p[0],p[1]);
    case K_EXP: return x<0?-INFINITY:-x/p[0]-log(p[0]);
    case K_T: { double z=(x-p[0])/p[1],d=p[2]; return gsl_sf_lngamma((d+1)/2)-gsl_sf_lngamma(d/2)-log(d*M_PI)/2-log(p[1])-(d+1)/2*log1p(z*z/d); }
    case K_POISSON: return x<0||x!=floor(x)?-INFINITY:x*log(p[0])-p[0]-gsl_sf_lngamma(x+1);
    case K_BERN: return x?log(p[0]):log(1-p[0]);
    case K_ZIPF: return x<1||x!=floor(x)?-INFINITY:-p[0]*log(x)-log(gsl_sf_zeta(p[0]));
    case K_YULE: return x<1||x!=floor(x)?-INFINITY:log(p[0]-1)+gsl_sf_lngamma(p[0])+gsl_sf_lngamma(x)-gsl_sf_lngamma(x+p[0]);
    case K_MIX: { double a=log(mix_w(0))+lnorm(x,p[0],p[1]),b=log(mix_w(1))+lnorm(x,p[2],p[3]),m=GSL_MAX(a,b); return m; } // as documented: the most likely component
    case K_KDE: { double t=0,w=0; for (size_t i=0;i<kbase->vector->size;i++){ double wi=kw?gsl_vector_get(kbase->weights,i):1; w+=wi; t+=wi*exp(lnorm(x,gsl_vector_get(kbase->vector,i),p[0])); } return log(t/w); }
    case K_CROSS: return lnorm(x,p[0],p[1])+lnorm(v[1],p[2],p[3]);
    case K_BINOM: case K_MULTI: { double t=gsl_sf_lngamma(p[0]+1),p0=1; for (int i=1;i<dim;i++) p0-=p[i]; for (int i=0;i<dim;i++){ double q=i?p[i]:p0; t-=gsl_sf_lngamma(v[i]+1); if (v[i]>0) t+=v[i]*log(q); } return t; }
    case K_MVN: { double a=p[2],b=p[3],c=p[4],x0=v[0]-p[0],x1=v[1]-p[1],det=a*c-b*b; return -(c*x0*x0-2*b*x0*x1+a*x1*x1)/det/2-log(2*M_PI)-log(det)/2; }
    case K_DIRI: { double t=0,s=0; for (int i=0;i<dim;i++){ s+=p[i]; t+=(p[i]-1)*log(v[i])-gsl_sf_lngamma(p[i]); } return t+gsl_sf_lngamma(s); }
    } return NAN; }
static double cdfat(double x){ switch(kind){
    case K_NORMAL: return gsl_cdf_gaussian_P(x-par[0],par[1]); case K_LOGNORMAL: return x<=0?0:gsl_cdf_lognormal_P(x,par[0],par[1]); case K_UNIFORM: return x<=par[0]?0:x>=par[1]?1:(x-par[0])/(par[1]-par[0]);
    case K_GAMMA: return x<=0?0:gsl_cdf_gamma_P(x,par[0],par[1]); case K_BETA: return x<=0?0:x>=1?1:gsl_cdf_beta_P(x,par[0],par[1]); case K_EXP: return x<=0?0:gsl_cdf_exponential_P(x,par[0]);
    case K_T: return gsl_cdf_tdist_P((x-par[0])/par[1],par[2]); case K_BERN: return x<0?0:x<1?1-par[0]:1;
    case K_MIX: return mix_w(0)*gsl_cdf_gaussian_P(x-par[0],par[1])+mix_w(1)*gsl_cdf_gaussian_P(x-par[2],par[3]); case K_BINOM: return x<0?0:gsl_cdf_binomial_P(x,par[1],par[0]);
    case K_KDE: { double t=0,w=0; for (size_t i=0;i<kbase->vector->size;i++){ double wi=kw?gsl_vector_get(kbase->weights,i):1; w+=wi; t+=wi*gsl_cdf_gaussian_P(x-gsl_vector_get(kbase->vector,i),par[0]); } return t/w; } } return NAN; }
static int has_cdf(void){ return kind==K_MIX||kind==K_BINOM||kind==K_KDE||kind==K_NORMAL||kind==K_LOGNORMAL||kind==K_UNIFORM||kind==K_GAMMA||kind==K_BETA||kind==K_EXP||kind==K_T||kind==K_BERN; }
static double inside(int u){ switch(kind){ /* u in 0..99 */
    case K_LOGNORMAL: return exp(par[0]+par[1]*(u-50)/20.); case K_UNIFORM: return par[0]+(par[1]-par[0])*u/99.; case K_GAMMA: return par[0]*par[1]*(u+1)/40.; case K_BETA: return (u+0.5)/100; case K_EXP: return par[0]*u/25.;
    case K_POISSON: return floor(par[0]*u/40.); case K_BERN: return u%2; case K_ZIPF: case K_YULE: return 1+u%(u<50?4:20); default: return par[0]+par[1]*(u-50)/20.; } }
static double outside(int u){ switch(kind){ case K_LOGNORMAL: case K_GAMMA: case K_EXP: return -0.5-u; case K_UNIFORM: return u%2?par[0]-0.25:par[1]+0.25; case K_BETA: return u%2?-0.25:1.5; case K_POISSON: return u%3==0?-1:u%3==1?1.5:2.0625; case K_ZIPF: case K_YULE: return -(u%3)/2.; } return NAN; }
static int has_outside(void){ return kind==K_LOGNORMAL||kind==K_GAMMA||kind==K_EXP||kind==K_UNIFORM||kind==K_BETA||kind==K_POISSON||kind==K_ZIPF||kind==K_YULE; }
static apop_model *make(apop_data *d,int prep){ apop_model *m; int np=0;
    switch(kind){ case K_NORMAL: m=apop_model_copy(apop_normal); np=2; break; case K_LOGNORMAL: m=apop_model_copy(apop_lognormal); np=2; break; case K_UNIFORM: m=apop_model_copy(apop_uniform); np=2; break; case K_GAMMA: m=apop_model_copy(apop_gamma); np=2; break; case K_BETA: m=apop_model_copy(apop_beta); np=2; break;
        case K_EXP: m=apop_model_copy(apop_exponential); np=1; break; case K_T: m=apop_model_copy(apop_t_distribution); np=3; break; case K_POISSON: m=apop_model_copy(apop_poisson); np=1; break; case K_BERN: m=apop_model_copy(apop_bernoulli); np=1; break; case K_ZIPF: m=apop_model_copy(apop_zipf); np=1; break; case K_YULE: m=apop_model_copy(apop_yule); np=1; break;
        case K_BINOM: m=apop_model_copy(apop_binomial); np=2; break; case K_MULTI: m=apop_model_copy(apop_multinomial); np=dim; break; case K_DIRI: m=apop_model_copy(apop_dirichlet); np=dim; break;
        case K_MVN: m=apop_model_copy(apop_multivariate_normal); if (prep) apop_prep(d,m); if (m->parameters) apop_data_free(m->parameters); m->parameters=apop_data_falloc((2,2,2),par[0],par[2],par[3],par[1],par[3],par[4]); return m;
        case K_MIX: { apop_model *a=apop_model_set_parameters(apop_normal,par[0],par[1]),*b=apop_model_set_parameters(apop_normal,par[2],par[3]); m=apop_model_mixture(a,b); gsl_vector *w=gsl_vector_alloc(2); gsl_vector_set(w,0,1); gsl_vector_set(w,1,par[5]); Apop_settings_set(m,apop_mixture,weights,w); if (prep) apop_prep(d,m); return m; }
        case K_KDE: m=apop_model_copy(apop_kernel_density); Apop_settings_add_group(m,apop_kernel_density,.base_data=kbase,.kernel=apop_model_set_parameters(apop_normal,0,par[0])); return m;
        case K_FIX: { apop_model *b=apop_model_set_parameters(apop_normal,par[0],NAN); m=apop_model_fix_params(b); apop_prep(d,m); gsl_vector_set(m->parameters->vector,0,par[1]); return m; }
        default: m=apop_model_cross(apop_model_set_parameters(apop_normal,par[0],par[1]),apop_model_set_parameters(apop_normal,par[2],par[3])); Apop_settings_set(m,apop_cross,splitpage,"second"); return m; }
    if (prep) apop_prep(d,m);
    if (m->parameters) apop_data_free(m->parameters); m->parameters=apop_data_alloc(np); for (int i=0;i<np;i++) gsl_vector_set(m->parameters->vector,i,par[i]); return m; }
/* the observations, with v of them in the vector and the rest in columns: layout 0 vector, 1 one column, 2 more columns, 3 vector and columns */
static apop_data *lay(int layout){ apop_data *d; if (kind>=K_SCALARS){ d=apop_data_alloc(n,dim); for (int i=0;i<n;i++) for (int j=0;j<dim;j++) gsl_matrix_set(d->matrix,i,j,ob[i][j]); return d; }
    if (kind==K_CROSS){ d=layout==0?apop_data_alloc(n):apop_data_alloc(n,1); apop_data *e=layout==2?apop_data_alloc(n):apop_data_alloc(n,1); for (int i=0;i<n;i++){ apop_data_set(d,i,layout?0:-1,ob[i][0]); apop_data_set(e,i,layout==2?-1:0,ob[i][1]); } apop_data_add_page(d,e,"second"); return d; }
    if (layout==0){ d=apop_data_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->vector,i,ob[i][0]); return d; }
    if (kind==K_MIX||kind==K_KDE) layout=1; // a row is an observation
    int cols= layout==1?1:n%3==0?3:n%2==0?2:1,v=layout==3; if (v) cols= n%4==0?3:n%3==0?2:1; if (v&&n%(cols+1)) return lay(1); int rows=n/(cols+v),k=0; d=v?apop_data_alloc(rows,rows,cols):apop_data_alloc(rows,cols);
    for (int i=0;i<rows;i++) for (int j=v?-1:0;j<cols;j++) apop_data_set(d,i,j,ob[k++][0]); return d; }
static double total(const double *p){ double t=0; for (int i=0;i<n;i++) t+=logpdf(ob[i],p); return t; }
static int np(void){ switch(kind){ case K_EXP: case K_POISSON: case K_BERN: case K_ZIPF: case K_YULE: return 1; case K_T: return 3; case K_DIRI: return dim; default: return 2; } }
void scen_dist(void){
    quiet(); apop_opts.verbose=-1; sim_sched_on=0; f_suspended=1; sim_on_hang("dist:hang"); apop_opts.rng_seed=1+w_choose(1000);
    kind=w_choose(NK); int layout=w_choose(4),prep=w_choose(2); double a=1+w_choose(8)/2.,b=1+w_choose(8)/3.; memset(par,0,sizeof par); par[0]=a; par[1]=b; dim=1; n=(int[]){12,4,24,1,7,36,60,120}[w_choose(8)]; kbase=NULL;
    switch(kind){ case K_NORMAL: case K_LOGNORMAL: case K_FIX: par[0]=a-2; break; case K_UNIFORM: par[0]=a-3; par[1]=par[0]+b; break; case K_T: par[2]=1+w_choose(9); break; case K_BERN: par[0]=(1+w_choose(9))/10.; break; case K_ZIPF: case K_YULE: par[0]=1.5+w_choose(8)/2.; break;
        case K_MIX: case K_CROSS: par[2]=-a; par[3]=0.5+b/2; par[5]=1+w_choose(3); dim=kind==K_CROSS?2:1; break; case K_KDE: { int z=1+w_choose(6); kw=w_choose(2); kbase=apop_data_alloc(z); for (int i=0;i<z;i++) gsl_vector_set(kbase->vector,i,i*i*0.5); if (kw){ kbase->weights=gsl_vector_alloc(z); for (int i=0;i<z;i++) gsl_vector_set(kbase->weights,i,1+w_choose(4)); } break; }
        case K_BINOM: dim=2; par[0]=1+w_choose(12); par[1]=(1+w_choose(9))/10.; break; case K_MULTI: dim=2+w_choose(4); par[0]=1+w_choose(12); for (int i=1;i<dim;i++) par[i]=(1+w_choose(4))/(5.*dim); break;
        case K_MVN: dim=2; par[2]=a; par[4]=b; par[3]=(1.*w_choose(7)-3)/4*sqrt(a*b); break; case K_DIRI: dim=2+w_choose(4); for (int i=0;i<dim;i++) par[i]=0.5+w_choose(8)/2.; break; }
    uint64_t s=w_choose(100000)+1; gsl_rng *r=rng_of(s); for (int i=0;i<n;i++){ ob[i][0]=inside(gsl_rng_uniform_int(r,100)); if (kind==K_CROSS) ob[i][1]=par[2]+par[3]*(gsl_rng_uniform_int(r,100)-50.)/20; if (kind==K_MVN) ob[i][1]=par[1]+par[4]*(gsl_rng_uniform_int(r,100)-50.)/20;
        if (kind==K_BINOM||kind==K_MULTI){ int left=par[0]; for (int j=0;j<dim-1;j++){ int z=gsl_rng_uniform_int(r,left+1); ob[i][j]=z; left-=z; } ob[i][dim-1]=left; }
        if (kind==K_DIRI){ double t=0; for (int j=0;j<dim;j++) t+=ob[i][j]=1+gsl_rng_uniform_int(r,9); for (int j=0;j<dim;j++) ob[i][j]/=t; } }
    gsl_rng_free(r); int out=has_outside()&&w_choose(4)==3; if (out) ob[w_choose(n)][0]=outside(w_choose(30));
    apop_data *d=lay(layout); apop_model *m=make(d,prep); apop_data *db=deep_copy(d),*pb=deep_copy(m->parameters); int threads=pick_threads(4); sim_set_nthreads(threads); sim_nontrivial(); sim_describe("%d observations of a %s, layout %d, %d threads%s%s",n,kn[kind],layout,threads,out?", one is impossible":"",prep?", prepared":"");
    double want=total(par),memory=w_choose(4)==3&&kind<K_MIX; uint64_t f0=f_fired(FK_OOM);
    sim_sched_on=1; double ll=apop_log_likelihood(d,m),p=apop_p(d,m); sim_sched_on=0;
    CK(isinf(want)?ll==want:fabs(ll-want)<=1e-8*(1+fabs(want)),"dist:likelihood","the log likelihood of %d observations of a %s is %.15g, where the formula gives %.15g",n,kn[kind],ll,want);
    CK(want<-650?p>=0&&p<1e-250:fabs(p-exp(want))<=1e-7*exp(want),"dist:p","the probability of %d observations of a %s is %.15g, where the formula gives %.15g",n,kn[kind],p,exp(want));
    if (out) sim_probe("impossible observation");
    if (has_cdf()) for (int i=0;i<3;i++){ double x= kind==K_BINOM?w_choose((int)par[0]+1):i<2||!has_outside()?inside(w_choose(100)):outside(w_choose(30)); apop_data *one=w_choose(2)?apop_data_alloc(1):apop_data_alloc(1,1); apop_data_set(one,0,one->vector?-1:0,x); double q=apop_cdf(one,m),w=cdfat(x); CK(fabs(q-w)<1e-9,"dist:cdf","up to %g, a %s has probability %.15g, where the formula gives %.15g",x,kn[kind],q,w); apop_data_free(one); }
    if (!out&&(kind<K_MIX||kind==K_DIRI)&&kind!=K_UNIFORM&&m->parameters&&(kind!=K_T)){ gsl_vector *g=gsl_vector_alloc(np()); sim_sched_on=1; apop_score(d,g,m); sim_sched_on=0;
        for (int i=0;i<np();i++){ double h=1e-5*GSL_MAX(1,fabs(par[i])),q[12]; memcpy(q,par,sizeof q); q[i]+=h; double up=total(q); q[i]-=2*h; double dn=total(q),w=(up-dn)/(2*h),gi=gsl_vector_get(g,i); CK(fabs(gi-w)<=2e-3*(1+fabs(w)+n),"dist:score","element %d of the score of a %s with %d observations is %.9g, where the log likelihood has slope %.9g",i,kn[kind],n,gi,w); }
        gsl_vector_free(g); sim_probe("score"); }
    if (memory){ f_enable(FK_OOM,0.2,4); f_suspended=0; mem_oom_scope=1; sim_sched_on=1; double l2=apop_log_likelihood(d,m); sim_sched_on=0; mem_oom_scope=0; f_suspended=1; if (f_fired(FK_OOM)>f0) sim_probe("out of memory"); CK(isnan(l2)||l2==ll||l2==-INFINITY||fabs(l2-ll)<=1e-9*(1+fabs(ll)),"dist:memory","with memory running out, the log likelihood of a %s is %.15g, not missing and not %.15g",kn[kind],l2,ll); m->error=0; }
    const char *q=data_diff_pages(d,db,1); CK(!q,"dist:changed","evaluating a %s changed its data: %s",kn[kind],q); q=data_diff_pages(m->parameters,pb,1); CK(!q,"dist:changed","evaluating a %s changed its parameters: %s",kn[kind],q); CK(!m->error,"dist:changed","evaluating a %s left an error mark",kn[kind]);
    /* constraints: legal parameters cost nothing and stay, others cost something and are made legal */
    if (m->constraint&&m->parameters&&kind<=K_DIRI&&w_choose(2)){ double pen=m->constraint(d,m); q=data_diff_pages(m->parameters,pb,1); CK(pen==0&&!q,"dist:constraint","legal parameters of a %s cost %g%s%s",kn[kind],pen,q?", ":"",q?q:"");
        apop_model *z=make(d,prep); double bad[12]; for (int i=0;i<12;i++) bad[i]=par[i]; int which=0; double by=(double[]){0.5,3,40}[w_choose(3)];
        switch(kind){ case K_NORMAL: case K_LOGNORMAL: which=1; bad[1]=-by; break; case K_FIX: bad[0]=-by; break; case K_T: which=1+w_choose(2); bad[which]= which==1?-by:0.8-by; break; case K_GAMMA: case K_BETA: which=w_choose(2); bad[which]=-by; break; case K_EXP: case K_POISSON: bad[0]=-by; break;
            case K_BERN: bad[0]=w_choose(2)?-by:1+by; break; case K_ZIPF: case K_YULE: bad[0]=0.9-by; break; case K_DIRI: which=w_choose(dim); bad[which]=-by; break; case K_BINOM: case K_MULTI: which=1+w_choose(dim-1); bad[which]=w_choose(2)?-by:1+by; break; default: which=-1; }
        if (which>=0){ gsl_vector_set(z->parameters->vector,which,bad[which]); pen=z->constraint(d,z); double now=gsl_vector_get(z->parameters->vector,which); int ok=1; for (size_t i=0;i<z->parameters->vector->size;i++) if (!isfinite(gsl_vector_get(z->parameters->vector,i))) ok=0;
            double lo= kind==K_ZIPF||kind==K_YULE?1:kind==K_T&&which==2?0.9:0, hi= kind==K_BERN||kind==K_BINOM||kind==K_MULTI?1:INFINITY; 
            CK(pen>0&&ok&&now>=lo-1e-9&&now<=hi+1e-9,"dist:constraint","parameter %d of a %s was %g, which costs %g, and is made %g",which,kn[kind],bad[which],pen,now); pen=z->constraint(d,z); CK(pen>=0&&pen<1e-9,"dist:constraint","parameter %d of a %s was %g and was made %.17g, which costs %g again",which,kn[kind],bad[which],now,pen); 
            for (int i=0;i<np();i++) if (kind!=K_FIX&&i!=which) CK(gsl_vector_get(z->parameters->vector,i)==par[i],"dist:constraint","making parameter %d of a %s legal changed parameter %d",which,kn[kind],i); sim_probe("constraint"); }
        if (kind!=K_FIX) apop_model_free(z); }
    /* the weights of a mixture: what each component is expected to have drawn, given the weights before */
    if (kind==K_MIX&&w_choose(2)){ apop_model *z=make(d,1); Apop_settings_set(z,apop_mixture,find_weights,'y'); double w0=mix_w(0),w1=mix_w(1); for (int k=0;k<2;k++){
            sim_sched_on=1; double l2=apop_log_likelihood(d,z); sim_sched_on=0; double l=0,r0=0; for (int i=0;i<n;i++){ double x=ob[i][0],la=log(w0)+lnorm(x,par[0],par[1]),lb=log(w1)+lnorm(x,par[2],par[3]); l+=GSL_MAX(la,lb); r0+=1/(1+exp(lb-la)); } r0/=n;
            CK(fabs(l2-l)<=1e-8*(1+fabs(l)),"dist:likelihood","in step %d of finding its weights, a mixture has log likelihood %.15g, where the formula gives %.15g",k,l2,l);
            z->constraint(d,z); double g0=gsl_vector_get(z->parameters->vector,0),g1=gsl_vector_get(z->parameters->vector,1); CK(fabs(g0-r0)<1e-9&&fabs(g1-(1-r0))<1e-9,"dist:weights","step %d of finding the weights of a mixture gives %.12g and %.12g, where the formula gives %.12g and %.12g",k,g0,g1,r0,1-r0);
            for (int i=0;i<4;i++) CK(gsl_vector_get(z->parameters->vector,2+i)==par[i],"dist:weights","finding the weights of a mixture changed parameter %d",i); w0=r0; w1=1-r0; if (w0<1e-12||w1<1e-12) break; } sim_probe("mixture weights"); }
    /* conjugate updates use each observation, wherever it is */
    if (!out&&(kind==K_BERN||kind==K_BINOM||kind==K_POISSON||kind==K_EXP||kind==K_NORMAL)&&w_choose(2)){ double p0=1+w_choose(6)/2.,p1=0.5+w_choose(6)/4.,w0,w1,sum=0,sq=0,nz=0,rest=0; for (int i=0;i<n;i++){ sum+=ob[i][0]; nz+=ob[i][0]!=0; rest+=ob[i][1]; }
        for (int i=0;i<n;i++) sq+=gsl_pow_2(ob[i][0]-sum/n); double v=sq/n,pv=p1*p1;
        apop_model *prior=apop_model_set_parameters(kind==K_BERN||kind==K_BINOM?apop_beta:kind==K_NORMAL?apop_normal:apop_gamma,p0,p1),*lk=apop_model_copy(kind==K_BERN?apop_bernoulli:kind==K_BINOM?apop_binomial:kind==K_POISSON?apop_poisson:kind==K_EXP?apop_exponential:apop_normal);
        if (kind==K_BERN){ w0=p0+nz; w1=p1+n-nz; } else if (kind==K_BINOM){ w0=p0+rest; w1=p1+sum; } else if (kind==K_POISSON){ w0=p0+sum; w1=p1/(p1*n+1); } else if (kind==K_EXP){ w0=p0+n; w1=1/(1/p1+sum); } else { w0=(p0/pv+sum/v)/(1/pv+n/v); w1=1/sqrt(1/pv+n/v); }
        sim_sched_on=1; apop_model *post=apop_update(d,prior,lk); sim_sched_on=0; CK(post&&post->parameters&&post->parameters->vector,"dist:update","updating with a %s fails",kn[kind]); double g0=gsl_vector_get(post->parameters->vector,0),g1=gsl_vector_get(post->parameters->vector,1);
        if (kind!=K_NORMAL||v>1e-9) CK(fabs(g0-w0)<=1e-8*(1+fabs(w0))&&fabs(g1-w1)<=1e-8*(1+fabs(w1)),"dist:update","updated by %d observations of a %s, the parameters are %.12g, %.12g, where the formula gives %.12g, %.12g",n,kn[kind],g0,g1,w0,w1);
        CK(gsl_vector_get(prior->parameters->vector,0)==p0&&gsl_vector_get(prior->parameters->vector,1)==p1,"dist:changed","updating changed the prior"); sim_probe("update"); }
    /* estimates: the same however the observations are arranged, and at least as likely as the parameters that we had */
    int est= kind<=K_BERN||kind==K_BINOM||kind==K_MULTI||kind==K_MVN; if (est&&!out&&n>3){
        apop_data *flat=lay(1); apop_model *e[2]; for (int k=0;k<2;k++){ apop_model *raw=make(NULL,0); apop_data_free(raw->parameters); raw->parameters=NULL; if (kind==K_POISSON) Apop_settings_add_group(raw,apop_parts_wanted,.covariance='n'); sim_sched_on=1; e[k]=apop_estimate(k?flat:d,raw); sim_sched_on=0; CK(e[k]&&!e[k]->error&&e[k]->parameters,"dist:estimate","estimating a %s fails",kn[kind]); }
        gsl_vector *v=e[0]->parameters->vector,*w=e[1]->parameters->vector; CK(v->size==w->size,"dist:layout","estimates of a %s differ in size with the layout",kn[kind]); int finite=1; for (size_t i=0;i<v->size;i++){ double x=gsl_vector_get(v,i),y=gsl_vector_get(w,i); CK(fabs(x-y)<=1e-9*(1+fabs(y))||(isnan(x)&&isnan(y)),"dist:layout","with %d observations in layout %d, parameter %zu of a %s is estimated as %.15g, and in one column, as %.15g",n,layout,i,kn[kind],x,y); if (!isfinite(x)) finite=0; }
        double pe[12]={0}; for (size_t i=0;i<v->size&&i<12;i++) pe[i]=gsl_vector_get(v,i); if (kind==K_MVN){ pe[2]=apop_data_get(e[0]->parameters,0,0); pe[3]=apop_data_get(e[0]->parameters,0,1); pe[4]=apop_data_get(e[0]->parameters,1,1); }
        double le=apop_log_likelihood(d,e[0]),lo=total(pe); if (finite&&isfinite(lo)) CK(fabs(le-lo)<=1e-8*(1+fabs(lo)),"dist:likelihood","the log likelihood of an estimated %s is %.15g, where the formula gives %.15g",kn[kind],le,lo);
        apop_data *info=e[0]->info; double rep=NAN; int there=0; if (info&&info->names) for (int i=0;i<info->names->rowct;i++) if (!strcasecmp(info->names->row[i],"log likelihood")){ there=1; rep=apop_data_get(info,i,-1); } if (there&&finite) CK(same_d(rep,le)||fabs(rep-le)<=1e-9*(1+fabs(le)),"dist:reported","an estimated %s reports log likelihood %.15g, and has %.15g",kn[kind],rep,le);
        int ml= kind==K_NORMAL||kind==K_LOGNORMAL||kind==K_UNIFORM||kind==K_EXP||kind==K_POISSON||kind==K_BERN||kind==K_BINOM||kind==K_MULTI||kind==K_MVN; if (ml&&finite) CK(!(le<want-0.25*dim),"dist:best","the estimate of a %s from %d observations has log likelihood %.9g, and other parameters have %.9g",kn[kind],n,le,want);
        double mean=0; for (int i=0;i<n;i++) mean+=ob[i][0]/n; if (finite&&kind==K_GAMMA) CK(fabs(pe[0]*pe[1]-mean)<1e-8*(1+mean),"dist:best","a gamma estimated from observations with mean %g has mean %g",mean,pe[0]*pe[1]); if (finite&&kind==K_BETA) CK(fabs(pe[0]/(pe[0]+pe[1])-mean)<1e-8,"dist:best","a beta estimated from observations with mean %g has mean %g",mean,pe[0]/(pe[0]+pe[1]));
        if (kind==K_NORMAL&&finite){ apop_data *c=apop_data_get_page(e[0]->parameters,"<Covariance>"); CK(c,"dist:covariance","a normal estimate has no covariance page"); double vm=apop_data_get(c,0,0),vs=apop_data_get(c,1,1); CK(fabs(vm-pe[1]*pe[1]/n)<=1e-9*(1+vm),"dist:covariance","the variance of the mean of %d observations with standard deviation %g is given as %g",n,pe[1],vm); (void)vs; }
        sim_probe("estimate"); if (layout==3&&d->vector&&d->matrix) sim_probe("vector and matrix"); }
    sim_state(dbl_hash(ll,dbl_hash(kind*64+layout*16+threads,FNV0))); sim_event("ll %.12g",ll);
}
