/* C25, second scenario: draws from models with a draw method.  Many draws by one to three threads from one model, or as a batch;
the components of composite models fail on command.  The oracle is the model's distribution, worked out here: categories with
their probabilities, or one-number readings of a draw with their cumulative distributions.  The limits hold for any sample size
(Dvoretzky-Kiefer-Wolfowitz for distributions, Chernoff for categories). */
#include "common.h"
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_sf_zeta.h>
#include <gsl/gsl_sf_gamma.h>
enum { MAXT=3, MAXN=2200, DIM=8, MAXC=40, MAXP=5, CANARY=-7777 };
enum { K_PMF, K_PMFW, K_NORMAL, K_LOGNORMAL, K_UNIFORM, K_GAMMA, K_BETA, K_EXP, K_T, K_MIX, K_KDE, K_DCON, K_FIX, K_CROSS, K_MVN, K_DIRI, K_BERN, K_BINOM, K_MULTI, K_POISSON, K_LOGIT, K_OLS, K_ZIPF, K_YULE, K_IMPROPER, NK };
static const char *kname[NK]={"PMF without weights","PMF","normal","lognormal","uniform","gamma","beta","exponential","t","mixture","kernel density","constrained normal","normal with a fixed parameter","product","multivariate normal","Dirichlet","Bernoulli","binomial","multinomial","Poisson","logit","OLS","Zipf","Yule","improper uniform"};
typedef struct { double v[DIM]; int rc,fails,asked; } drawn;
static drawn D[MAXT][MAXN]; static int nd[MAXT],nthr,how,kind,dim,ncomp; static apop_model *M; static unsigned long seed0;
static int failed_by[64],asked_by[64];
/* the oracle's copy of the model's numbers */
static int nc; static double pr[MAXC],rowv[MAXC][DIM]; static double par[12]; static double wts[MAXC]; static apop_data *dat; static int shape,index_draw; static double cut;
static uint64_t live0,live1; static int (*real_pmf)(double*,gsl_rng*,apop_model*); static int (*real_normal)(double*,gsl_rng*,apop_model*); static int (*real_exp)(double*,gsl_rng*,apop_model*);
static int maybe_fail(double *o){ uint32_t a; int t=sim_self()&63; asked_by[t]++; sim_point(); if (f_point(FK_CB_FAIL,1,&a)){ failed_by[t]++; *o=NAN; return 1; } return 0; }
static int w_normal(double *o,gsl_rng *r,apop_model *m){ int rc=real_normal(o,r,m); if (maybe_fail(o)) return 1; return rc; }
static int w_exp(double *o,gsl_rng *r,apop_model *m){ int rc=real_exp(o,r,m); if (maybe_fail(o)) return 2; return rc; }
static int w_pmf(double *o,gsl_rng *r,apop_model *m){ int rc=real_pmf(o,r,m); if (maybe_fail(o)) return 1; return rc; }
static apop_model *inputs(apop_data *x){ apop_model *m=apop_estimate(x,apop_pmf); real_pmf=m->draw; m->draw=w_pmf; return m; }
static apop_model *norm(double a,double b){ apop_model *m=apop_model_set_parameters(apop_normal,a,b); real_normal=m->draw; m->draw=w_normal; return m; }
static apop_model *expo(double a){ apop_model *m=apop_model_set_parameters(apop_exponential,a); real_exp=m->draw; m->draw=w_exp; return m; }
static double above(apop_data *d,apop_model *m){ (void)m; return apop_data_get(d,0,0)>cut; }
static double within(apop_data *d,apop_model *m){ (void)m; double x=apop_data_get(d,0,0); return x>cut&&x<cut+1.5; }
static double Pn(double x,double mu,double sd){ return gsl_cdf_gaussian_P(x-mu,sd); }
static double S(int i,int j){ return gsl_matrix_get(M->parameters->matrix,i,j); }
static double mu_(int i){ return gsl_vector_get(M->parameters->vector,i); }
/* readings */
static int readings(void){ switch(kind){ case K_CROSS: return ncomp; case K_MVN: case K_DIRI: return 3; case K_MULTI: return nc; case K_PMF: case K_PMFW: case K_LOGIT: return 0; case K_IMPROPER: return 0; default: return 1; } }
static double reading(int k,double *x){ switch(kind){
    case K_MVN: return k<2?x[k]:x[0]+0.7*x[1]+(dim>2?-0.4*x[2]:0);
    case K_OLS: { double y=x[0]; for (int i=0;i<3;i++) y-=x[1+i]*mu_(i); return y; }
    default: return x[k]; } }
static double cdf(int k,double x){ switch(kind){
    case K_NORMAL: case K_FIX: return Pn(x,par[0],par[1]); case K_LOGNORMAL: return gsl_cdf_lognormal_P(x,par[0],par[1]); case K_UNIFORM: return gsl_cdf_flat_P(x,par[0],par[1]); case K_GAMMA: return gsl_cdf_gamma_P(x,par[0],par[1]); case K_BETA: return gsl_cdf_beta_P(x,par[0],par[1]); case K_EXP: return gsl_cdf_exponential_P(x,par[0]); case K_T: return gsl_cdf_tdist_P((x-par[0])/par[1],par[2]);
    case K_MIX: { double t=0,w=0; for (int i=0;i<ncomp;i++){ w+=wts[i]; t+=wts[i]*(i==2?gsl_cdf_exponential_P(x,par[4]):Pn(x,par[2*i],par[2*i+1])); } return t/w; }
    case K_KDE: { double t=0; for (int i=0;i<nc;i++) t+=pr[i]*Pn(x,rowv[i][0],par[1]); return t; }
    case K_DCON: { double lo=Pn(cut,par[0],par[1]),hi=shape?Pn(cut+1.5,par[0],par[1]):1; return x<=cut?0:shape&&x>=cut+1.5?1:(Pn(x,par[0],par[1])-lo)/(hi-lo); }
    case K_CROSS: return k==1?gsl_cdf_exponential_P(x,par[2]):k==0?Pn(x,par[0],par[1]):Pn(x,par[3],par[4]);
    case K_MVN: if (k<2) return Pn(x,mu_(k),sqrt(S(k,k))); { double a[3]={1,.7,-.4},m=0,v=0; for (int i=0;i<dim;i++){ m+=a[i]*mu_(i); for (int j=0;j<dim;j++) v+=a[i]*a[j]*S(i,j); } return Pn(x,m,sqrt(v)); }
    case K_DIRI: { double t=0; for (int i=0;i<dim;i++) t+=par[i]; return gsl_cdf_beta_P(x,par[k],t-par[k]); }
    case K_BERN: return x<0?0:x<1?1-par[0]:1; case K_BINOM: return x<0?0:gsl_cdf_binomial_P(floor(x),par[1],par[0]); case K_MULTI: return x<0?0:gsl_cdf_binomial_P(floor(x),pr[k],par[0]); case K_POISSON: return x<0?0:gsl_cdf_poisson_P(floor(x),par[0]);
    case K_OLS: return Pn(x,0,par[0]);
    case K_ZIPF: { double t=0; for (int j=1;j<=x&&j<3000;j++) t+=pow(j,-par[0]); return x>=3000?NAN:t/gsl_sf_zeta(par[0]); }
    case K_YULE: { double t=0; for (int j=1;j<=x&&j<3000;j++) t+=(par[0]-1)*exp(gsl_sf_lngamma(par[0])+gsl_sf_lngamma(j)-gsl_sf_lngamma(j+par[0])); return x>=3000?NAN:t; }
    } return NAN; }
static int whole(int k){ (void)k; return kind==K_BERN||kind==K_BINOM||kind==K_MULTI||kind==K_POISSON||kind==K_ZIPF||kind==K_YULE; }
static int category(double *x){ if (index_draw) return x[0]>=0&&x[0]<nc&&x[0]==floor(x[0])?(int)x[0]:-1; for (int c=0;c<nc;c++){ int ok=1; for (int j=0;j<dim;j++) if (x[j]!=rowv[c][j]) ok=0; if (ok) return c; } return -1; }
static void pmf_rows(int n,int k){ nc=n; for (int i=0;i<n;i++) for (int j=0;j<k;j++) rowv[i][j]=10*i+j+0.5; }
static void mk(void){
    double a=0.5+w_choose(20)/5., b=0.4+w_choose(20)/8.; memset(par,0,sizeof par); par[0]=a; par[1]=b; index_draw=0; dat=NULL; M=NULL; nc=0; shape=w_choose(3);
    switch(kind){
        case K_PMF: case K_PMFW: { int n=2+w_choose(w_choose(3)?6:30),k=1+w_choose(3); if (kind==K_PMF&&w_choose(8)==7) n=1; if (shape==0) k=1; pmf_rows(n,shape==0?1:k); dat=shape==0?apop_data_alloc(n):shape==1?apop_data_alloc(n,k):apop_data_alloc(n,n,k); for (int i=0;i<n;i++){ if (shape==0) gsl_vector_set(dat->vector,i,rowv[i][0]); else { if (shape==2) gsl_vector_set(dat->vector,i,-i-1); for (int j=0;j<k;j++) gsl_matrix_set(dat->matrix,i,j,rowv[i][j]); } }
            double t=0; for (int i=0;i<n;i++){ wts[i]= kind==K_PMF?1:w_choose(4)?(1+w_choose(20))/3.:0; t+=wts[i]; } if (t==0) t=wts[n-1]=2; for (int i=0;i<n;i++) pr[i]=wts[i]/t; int dup=n<MAXC-8&&w_choose(4)==3?1+w_choose(7):0; if (dup){ /* some rows several times: compressed before use */ apop_data *o=dat; dat=apop_data_alloc(o->vector?n+dup:0,o->matrix?n+dup:0,o->matrix?k:0); dat->weights=kind==K_PMFW?gsl_vector_alloc(n+dup):NULL; for (int i=0;i<n+dup;i++){ int src= i<n?i:w_choose(n); if (o->vector) gsl_vector_set(dat->vector,i,gsl_vector_get(o->vector,src)); for (int j=0;o->matrix&&j<k;j++) gsl_matrix_set(dat->matrix,i,j,gsl_matrix_get(o->matrix,src,j)); double w= i<n?wts[i]:kind==K_PMF?1:1+w_choose(4); if (i>=n) wts[src]+=w; if (dat->weights) gsl_vector_set(dat->weights,i,w); } t=0; for (int i=0;i<n;i++) t+=wts[i]; for (int i=0;i<n;i++) pr[i]=wts[i]/t; apop_data_free(o); apop_data *z=apop_data_pmf_compress(dat); CK(z==dat&&dat->weights&&(int)dat->weights->size==n&&(int)(dat->matrix?dat->matrix->size1:dat->vector->size)==n,"rows:compress","compressing %d rows, %d of them distinct, leaves another number of rows or no weights",n+dup,n); sim_probe("compressed"); }
            else if (kind==K_PMFW){ dat->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(dat->weights,i,wts[i]); }
            if (w_choose(4)==3){ index_draw=1; M=apop_model_copy(apop_pmf); M->data=dat; M->dsize=1; Apop_settings_add_group(M,apop_pmf,.draw_index='y'); } else M=apop_estimate(dat,apop_pmf); break; }
        case K_NORMAL: M=apop_model_set_parameters(apop_normal,a,b); break; case K_LOGNORMAL: M=apop_model_set_parameters(apop_lognormal,a,b); break; case K_UNIFORM: par[1]=a+b; M=apop_model_set_parameters(apop_uniform,a,a+b); break; case K_GAMMA: M=apop_model_set_parameters(apop_gamma,a,b); break; case K_BETA: M=apop_model_set_parameters(apop_beta,a,b); break; case K_EXP: M=apop_model_set_parameters(apop_exponential,a); break;
        case K_T: par[2]=1+w_choose(6); M=apop_model_set_parameters(apop_t_distribution,a,b,par[2]); break;
        case K_MIX: { ncomp=2+w_choose(2); par[2]=-a-1; par[3]=0.5; par[4]=3; M= ncomp==2?apop_model_mixture(norm(par[0],par[1]),norm(par[2],par[3])):apop_model_mixture(norm(par[0],par[1]),norm(par[2],par[3]),expo(par[4])); int w=w_choose(2); for (int i=0;i<ncomp;i++) wts[i]=w?1+w_choose(5):1; if (w){ gsl_vector *v=gsl_vector_alloc(ncomp); for (int i=0;i<ncomp;i++) gsl_vector_set(v,i,wts[i]); Apop_settings_set(M,apop_mixture,weights,v); } if (shape) apop_prep(NULL,M); break; }
        case K_KDE: { int n=2+w_choose(6); pmf_rows(n,1); dat=shape?apop_data_alloc(n,1):apop_data_alloc(n); double t=0; int w=w_choose(2); for (int i=0;i<n;i++){ rowv[i][0]=i*i*0.7; if (shape) gsl_matrix_set(dat->matrix,i,0,rowv[i][0]); else gsl_vector_set(dat->vector,i,rowv[i][0]); wts[i]=w?w_choose(5)/2.:1; } for (int i=0;i<n;i++) t+=wts[i]; if (t==0) t=wts[0]=1; for (int i=0;i<n;i++) pr[i]=wts[i]/t; if (w){ dat->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(dat->weights,i,wts[i]); } M=apop_model_copy(apop_kernel_density); Apop_settings_add_group(M,apop_kernel_density,.base_data=dat,.kernel=norm(0,par[1])); break; }
        case K_DCON: cut=a-b*(1+w_choose(4)-2)/2.; M=apop_model_dconstrain(.base_model=norm(a,b),.constraint=shape?within:above); apop_prep(NULL,M); if (shape&&Pn(cut+1.5,a,b)-Pn(cut,a,b)<0.05) { shape=0; Apop_settings_set(M,apop_dconstrain,constraint,above); } break;
        case K_FIX: { apop_model *m=norm(0,0); int which=shape&1; gsl_vector_set(m->parameters->vector,0,which?a:NAN); gsl_vector_set(m->parameters->vector,1,which?NAN:b); M=apop_model_fix_params(m); apop_prep(NULL,M); CK(M->parameters&&M->parameters->vector&&M->parameters->vector->size==1,"rows:fixed","fixing one of two parameters leaves another number than one"); gsl_vector_set(M->parameters->vector,0,which?b:a); break; }
        case K_CROSS: ncomp=1+(w_choose(5)+1)%3; par[2]=0.8; par[3]=-4; par[4]=0.3; M= ncomp==1?apop_model_cross(norm(a,b)):ncomp==2?apop_model_cross(norm(a,b),expo(par[2])):apop_model_cross(norm(a,b),expo(par[2]),norm(par[3],par[4])); break;
        case K_MVN: { int p=2+w_choose(2); M=apop_model_copy(apop_multivariate_normal); M->parameters= p==2?apop_data_falloc((2,2,2),a,2,.4,-b, .1,2,5): apop_data_falloc((3,3,3),a,1,.5,.1, 2,.5,3,.2, b,.1,.2,1.5); if (p==2){ gsl_matrix *m=M->parameters->matrix; gsl_matrix_set(m,0,0,2); gsl_matrix_set(m,0,1,.4); gsl_matrix_set(m,1,0,.4); gsl_matrix_set(m,1,1,1+b); gsl_vector_set(M->parameters->vector,1,-b); } M->dsize=p; break; }
        case K_DIRI: { int p=3+w_choose(2); M=apop_model_copy(apop_dirichlet); M->parameters=apop_data_alloc(p); for (int i=0;i<p;i++){ par[i]=0.5+w_choose(8)/2.; gsl_vector_set(M->parameters->vector,i,par[i]); } M->dsize=p; break; }
        case K_BERN: par[0]=w_choose(21)/20.; M=apop_model_set_parameters(apop_bernoulli,par[0]); break;
        case K_BINOM: par[0]=1+w_choose(30); par[1]=w_choose(21)/20.; M=apop_model_set_parameters(apop_binomial,par[0],par[1]); break;
        case K_MULTI: { nc=3+w_choose(3); par[0]=1+w_choose(30); double t=0; for (int i=0;i<nc;i++) t+=wts[i]=w_choose(6); if (t==0) t=wts[0]=1; M=apop_model_copy(apop_multinomial); M->parameters=apop_data_alloc(nc); for (int i=0;i<nc;i++){ pr[i]=wts[i]/t; gsl_vector_set(M->parameters->vector,i,i?pr[i]:par[0]); } M->dsize=nc; break; }
        case K_POISSON: M=apop_model_set_parameters(apop_poisson,a); break;
        case K_LOGIT: { int n=6,cats=2+w_choose(2); dat=apop_data_alloc(n,n,2); for (int i=0;i<n;i++){ gsl_matrix_set(dat->matrix,i,0,1); gsl_matrix_set(dat->matrix,i,1,i*0.5-1); gsl_vector_set(dat->vector,i,i%cats); } apop_name_add(dat->names,"y",'v'); apop_name_add(dat->names,"one",'c'); apop_name_add(dat->names,"x",'c'); apop_data_to_factors(dat,.intype='d',.incol=-1,.outcol=-1); M=apop_model_copy(apop_logit); apop_prep(dat,M); M->data=dat; if (shape) Apop_settings_add_group(M,apop_lm,.input_distribution=inputs(dat)); gsl_matrix *m=M->parameters->matrix; for (size_t i=0;i<m->size1;i++) for (size_t j=0;j<m->size2;j++) gsl_matrix_set(m,i,j,(1.+w_choose(8)-4)/3.);
            nc=n*cats; for (int i=0;i<n;i++){ double e[3]={1},t=1; for (int c=1;c<cats;c++) t+=e[c]=exp(gsl_matrix_get(m,0,c-1)+gsl_matrix_get(dat->matrix,i,1)*gsl_matrix_get(m,1,c-1)); for (int c=0;c<cats;c++){ double *v=rowv[i*cats+c]; pr[i*cats+c]=e[c]/t/n; v[0]=c; v[1]=1; v[2]=gsl_matrix_get(dat->matrix,i,1); } } break; }
        case K_OLS: { int n=9,novec=w_choose(2); dat=apop_data_alloc(n,n,3); for (int i=0;i<n;i++){ gsl_matrix_set(dat->matrix,i,0,1); gsl_matrix_set(dat->matrix,i,1,i); gsl_matrix_set(dat->matrix,i,2,i*i%5); gsl_vector_set(dat->vector,i,a+b*i+(i*7%4)); } if (novec){ for (int i=0;i<n;i++) gsl_matrix_set(dat->matrix,i,0,gsl_vector_get(dat->vector,i)); gsl_vector_free(dat->vector); dat->vector=NULL; if (shape){ apop_name_add(dat->names,shape==1?"":"outcome",'c'); apop_name_add(dat->names,"x",'c'); apop_name_add(dat->names,"x2",'c'); } } M=apop_estimate(dat,apop_ols); par[0]=sqrt(apop_data_get(M->info,.rowname="SSE")/n); apop_data *x=apop_data_alloc(n,3); gsl_matrix_memcpy(x->matrix,dat->matrix); Apop_settings_set(M,apop_lm,input_distribution,inputs(x)); break; }
        case K_ZIPF: par[0]=1.8+w_choose(8)/2.; M=apop_model_set_parameters(apop_zipf,par[0]); break;
        case K_YULE: par[0]=1.8+w_choose(8)/2.; M=apop_model_set_parameters(apop_yule,par[0]); break;
        case K_IMPROPER: M=apop_model_copy(apop_improper_uniform); break;
    }
    dim= M->dsize;
}
static void body(int t,void *v){ (void)v; gsl_rng *r=rng_of(seed0+t); int s=sim_self()&63;
    for (int i=0;i<nd[t];i++){ drawn *d=&D[t][i]; for (int j=0;j<DIM;j++) d->v[j]=CANARY; int f=failed_by[s],a=asked_by[s]; d->rc=apop_draw(d->v,how==1&&nthr==1?NULL:r,M); d->fails=failed_by[s]-f; d->asked=asked_by[s]-a; sim_point(); if (!live0&&!d->rc) live0=mem_live_bytes(); }
    live1=mem_live_bytes();
    gsl_rng_free(r); }
static int cmp(const void *a,const void *b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static double kl(double q,double p){ if (p<=0) return q>0?INFINITY:0; if (p>=1) return q<1?INFINITY:0; return (q>0?q*log(q/p):0)+(q<1?(1-q)*log((1-q)/(1-p)):0); }
static double X[MAXT*MAXN][DIM];
static int phase(int per,int dsz,const char *when){
    f_suspended=0;
    int nx=0,nfail=0,expect=0; memset(failed_by,0,sizeof failed_by);
    if (how==3){ sim_set_nthreads(1+w_choose(3)); sim_sched_on=1; apop_data *d=apop_model_draws(M,.count=per); sim_sched_on=0; sim_set_nthreads(1); CK(d&&d->matrix&&(int)d->matrix->size1==per&&(int)d->matrix->size2==dsz,"rows:size","the batch is not of the size asked for");
        for (int i=0;i<per;i++){ int bad=0; for (int j=0;j<dsz;j++) if (isnan(gsl_matrix_get(d->matrix,i,j))) bad=1; if (bad){ nfail++; continue; } for (int j=0;j<DIM;j++) X[nx][j]=j<dsz?gsl_matrix_get(d->matrix,i,j):CANARY; nx++; }
        for (int t=0;t<64;t++) expect+=failed_by[t]; CK((d->error=='d')==(nfail>0),"rows:failure","%d rows are NaN and the batch's error mark is '%c'",nfail,d->error?d->error:'0'); if (kind!=K_IMPROPER) CK(nfail<=expect&&(!expect||nfail),"rows:failure","%d rows failed, where %d draws of components did",nfail,expect); else CK(nfail==per,"rows:failure","an improper uniform gives draws"); apop_data_free(d); }
    else { if (nthr>1){ sim_sched_on=1; sim_callers(nthr,body,NULL); sim_sched_on=0; } else { live0=0; body(0,NULL); CK(!live0||live0==live1,"rows:leak","%lld bytes of memory stay taken after draws from a %s",(long long)(live1-live0),kname[kind]); }
        for (int t=0;t<nthr;t++) for (int i=0;i<nd[t];i++){ drawn *d=&D[t][i]; for (int j=dim;j<DIM;j++) CK(d->v[j]==CANARY,"rows:size","a draw of size %d writes a number %d",dim,j); CK(kind==K_IMPROPER?d->rc&&isnan(d->v[0]):!d->rc==!d->fails,"rows:failure","draw %d returns %d, where %d draws of components failed",i,d->rc,d->fails); if (!d->rc) memcpy(X[nx++],d->v,sizeof X[0]); else nfail++; } }
    f_suspended=1; if (kind==K_IMPROPER) CK(!nx,"rows:failure","an improper uniform gives draws");
    for (int i=0;i<nx;i++) for (int j=0;j<dim;j++) CK(!isnan(X[i][j])&&X[i][j]!=CANARY,"rows:missing","number %d of draw %d from a %s is %g, with no failure",j,i,kname[kind],X[i][j]);
    double n=nx;
    if (kind==K_PMF||kind==K_PMFW||kind==K_LOGIT){ static int hit[MAXC]; memset(hit,0,sizeof hit); for (int i=0;i<nx;i++){ int c=category(X[i]); CK(c>=0,"rows:made-up","draw %d, first number %g, is no row of the data",i,X[i][0]); hit[c]++; } for (int c=0;c<nc;c++){ CK(pr[c]>0||!hit[c],"rows:made-up","row %d, with no weight, was drawn %d times",c,hit[c]); CK(n*kl(hit[c]/n,pr[c])<24,"rows:distribution","row %d of %d was drawn %d times in %d draws from a %s, where its probability is %g",c,nc,hit[c],nx,kname[kind],pr[c]); } sim_probe("rows counted"); }
    else if (nx>50) for (int k=0;k<readings();k++){ static double y[MAXT*MAXN]; for (int i=0;i<nx;i++) y[i]=reading(k,X[i]); qsort(y,nx,sizeof *y,cmp); double ks=0; for (int i=0;i<nx;i++){ if (i+1<nx&&y[i+1]==y[i]) continue; double f=cdf(k,y[i]); if (isnan(f)) continue; int first=i; while (first>0&&y[first-1]==y[i]) first--; double below= whole(k)?cdf(k,y[i]-1):f; ks=GSL_MAX(ks,fabs((i+1)/n-f)); if (!isnan(below)) ks=GSL_MAX(ks,fabs(first/n-below)); if (whole(k)) CK(y[i]==floor(y[i]),"rows:made-up","a draw from a %s is %g",kname[kind],y[i]); }
        CK(ks*sqrt(n)<3.4,"rows:distribution","%d draws from a %s%s are %g from its distribution (reading %d), where %g is very unlikely",nx,kname[kind],when,ks,k,3.4/sqrt(n)); }
    if (kind==K_MULTI) for (int i=0;i<nx;i++){ double t=0; for (int j=0;j<nc;j++) t+=X[i][j]; CK(t==par[0],"rows:made-up","a draw of %g over %d bins puts %g in them",par[0],nc,t); }
    if (kind==K_DIRI) for (int i=0;i<nx;i++){ double t=0; for (int j=0;j<dim;j++) t+=X[i][j]; CK(fabs(t-1)<1e-9,"rows:made-up","a draw from a Dirichlet sums to %.15g",t); }
    if (kind==K_OLS) for (int i=0;i<nx;i++){ int ok=0; for (size_t q=0;q<9;q++) if (X[i][1]==1&&X[i][2]==gsl_matrix_get(dat->matrix,q,1)&&X[i][3]==gsl_matrix_get(dat->matrix,q,2)) ok=1; CK(ok,"rows:made-up","the input part of draw %d is not from its distribution",i); }
    return nx; }
static double pv(int i){ return gsl_vector_get(M->parameters->vector,i); }
static void setp(int i,double v){ gsl_vector_set(M->parameters->vector,i,v); }
/* other parameters; 0 if this kind has none to change */
static int change(void){ double f=(int[]){2,3,1,5}[w_choose(4)]/2.; switch(kind){
    case K_NORMAL: case K_LOGNORMAL: case K_GAMMA: case K_BETA: par[0]*=f; par[1]*=0.6; setp(0,par[0]); setp(1,par[1]); return 1;
    case K_UNIFORM: par[1]=par[0]+f*(par[1]-par[0]); setp(1,par[1]); return 1;
    case K_EXP: case K_POISSON: par[0]*=f; setp(0,par[0]); return 1;
    case K_ZIPF: case K_YULE: par[0]+=f; setp(0,par[0]); return 1;
    case K_T: par[0]-=f; par[2]+=2; setp(0,par[0]); setp(2,par[2]); return 1;
    case K_BERN: par[0]=1-par[0]; setp(0,par[0]); return 1; case K_BINOM: par[1]=1-par[1]; par[0]+=3; setp(0,par[0]); setp(1,par[1]); return 1;
    case K_DIRI: for (int i=0;i<dim;i++){ par[i]*=f; setp(i,par[i]); } return 1;
    case K_MVN: setp(0,pv(0)-f); gsl_matrix_set(M->parameters->matrix,0,0,S(0,0)+f); return 1;
    case K_OLS: for (int i=0;i<3;i++) setp(i,pv(i)*f+i); return 1;
    case K_FIX: { int free0=!(shape&1); if (free0) par[0]+=f; else par[1]*=f; setp(0,free0?par[0]:par[1]); return 1; }
    case K_DCON: if (shape) return 0; par[0]+=0.4*f*par[1]; setp(0,par[0]); return 1;
    case K_CROSS: if (ncomp==1){ par[0]+=f; setp(0,par[0]); } else { par[0]+=f; gsl_vector_set(((apop_model*)Apop_settings_get(M,apop_cross,model1))->parameters->vector,0,par[0]); } return 1;
    case K_MIX: { apop_mixture_settings *ms=Apop_settings_get_group(M,apop_mixture); int what=w_choose(3);
        if (what!=1){ gsl_vector *v=gsl_vector_alloc(ncomp); for (int i=0;i<ncomp;i++) gsl_vector_set(v,i,wts[i]=1+(i*7+f)*(what?3:1)); if (w_choose(2)) gsl_vector_memcpy(ms->weights,v); else Apop_settings_set(M,apop_mixture,weights,v); }
        if (what){ par[2]-=f; par[3]*=f; if (M->parameters){ setp(ncomp+2,par[2]); setp(ncomp+3,par[3]); } else { gsl_vector *c=ms->model_list[1]->parameters->vector; gsl_vector_set(c,0,par[2]); gsl_vector_set(c,1,par[3]); } } return 1; }
    } return 0; }
void scen_draw_models(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("rows:hang"); sim_sched_on=0; f_suspended=1; memset(failed_by,0,sizeof failed_by); memset(asked_by,0,sizeof asked_by); seed0=w_choose(100000); apop_opts.rng_seed=seed0+3; kind=w_choose(NK); how=w_choose(4); nthr= how<3&&w_choose(3)==2?2+w_choose(2):1; int per=(int[]){60,200,400,800,1500,2100}[w_choose(6)]; if (nthr>1) per/=2; mk(); for (int t=0;t<nthr;t++) nd[t]=per/nthr+1;
    int fails_possible= kind==K_MIX||kind==K_KDE||kind==K_DCON||kind==K_CROSS||kind==K_FIX||(kind==K_LOGIT&&shape)||kind==K_OLS, anyf=0; if (fails_possible&&w_choose(2)){ anyf=1; f_enable(FK_CB_FAIL,(double[]){0.01,0.1,0.5}[w_choose(3)],3000); }
    apop_data *pb=deep_copy(M->parameters), *db=deep_copy(M->data); int dsz=M->dsize; sim_nontrivial(); sim_describe("%d draws by %d threads from a %s%s%s",per,nthr,kname[kind],how==3?", as a batch":"",anyf?", components fail":"");
    if (kind==K_LOGIT||kind==K_OLS) CK(dsz==(kind==K_OLS?4:3),"rows:size","an outcome with %d inputs has size %d",kind==K_OLS?3:2,dsz); CK(dsz>=1&&dsz<=DIM,"rows:size","a draw from a %s has size %d",kname[kind],dsz);
    if (kind==K_PMF||kind==K_PMFW){ if (!index_draw) CK(dsz==(shape?(int)dat->matrix->size2:1),"rows:size","a draw from rows of %zu has size %d",shape?dat->matrix->size2:(size_t)1,dsz);
        if (nc>1){ apop_data *no=deep_copy(Apop_r(dat,0)); if (no->matrix) gsl_matrix_set(no->matrix,0,0,-99); else gsl_vector_set(no->vector,0,-99); double p=apop_p(no,M); CK(p==0,"rows:p","a row that is not in the data has probability %g",p); apop_data_free(no); }
        double c=0; for (int i=0;i<nc;i++){ c+=pr[i]; double p=apop_p(Apop_r(dat,i),M),q=apop_cdf(Apop_r(dat,i),M); CK(fabs(p-pr[i])<1e-9,"rows:p","row %d of %d has probability %.15g, where its share of the weight is %.15g",i,nc,p,pr[i]); CK(fabs(q-c)<1e-9,"rows:cdf","up to row %d of %d, the cumulative probability is %.15g, where the share of the weight is %.15g",i,nc,q,c); } }
    int nx=phase(per,dsz,"");
    const char *q=data_diff_pages(M->parameters,pb,1); CK(!q,"rows:model","drawing from a %s changed its parameters: %s",kname[kind],q); q=data_diff_pages(M->data,db,1); CK(!q,"rows:model","drawing from a %s changed its data: %s",kname[kind],q); CK(M->dsize==dsz&&!M->error,"rows:model","drawing from a %s changed it",kname[kind]);
    if (kind!=K_IMPROPER) for (int again=w_choose(3);again;again=0){ const char *when=" after other draws"; int own=kind!=K_DCON&&kind!=K_FIX&&kind!=K_CROSS,what=w_choose(4);
        if (own&&what>1){ apop_model *old=M; M=apop_model_copy(M); when=", a copy"; if (what==3&&kind!=K_MIX){ apop_model_free(old); when=", a copy whose original is gone"; } }
        if (what!=2&&change()) when= own&&what==3?", a copy with other parameters":", with other parameters";
        how= how==3?0:how; nx=phase(GSL_MIN(per,800),dsz,when); sim_probe("second phase"); }
    uint64_t h=FNV0; for (int i=0;i<nx;i++) h=dbl_hash(X[i][0],h); sim_state(h); sim_event("%d draws %016llx",nx,(unsigned long long)h);
}
