/* C05: several threads draw from one model at once; each must get what it would get alone. */
#include "common.h"
#include "tasks.h"
enum { K_NORMAL,K_LOGNORMAL,K_GAMMA,K_EXP,K_POISSON,K_BETA,K_UNIF,K_T,K_BERN,K_YULE,K_ZIPF,K_BINOM,K_MULTI2,K_MULTI,K_PMF,K_PMFW,K_PMFIDX,K_PMFRAW,K_KERN,K_KERNW,K_KERNU,K_MIX,K_MIXW,K_MVN,K_DIRICHLET,K_CROSS,K_DCON,K_FIX,K_OLS,K_LOGIT,K_PROBIT,K_NEST,K_CROSS3,K_LOGITRAW,K_MIXKERN,K_CT, K_ARMS=K_CT,K_MCMC,K_ARMSC,K_ALL };
static const char *kn[]={"normal","lognormal","gamma","exponential","poisson","beta","uniform","t","bernoulli","yule","zipf","binomial","multinomial2","multinomial","pmf","weighted pmf","indexed pmf","bare pmf","kernel density","weighted kernel density","uniform kernel density","mixture","weighted mixture","multivariate normal","dirichlet","cross","dconstrain","fixed parameters","ols","logit","probit","cross of pmf and mixture","cross of three","logit off its data","mixture of kernel densities","ARMS default","MCMC default","ARMS on a constrained model"};
#define MAXT 6
#define MAXD 8
#define MAXW 8
typedef struct { int done; double v[MAXT][MAXD][MAXW]; int rc[MAXT][MAXD]; unsigned long after[MAXT]; int dsize; char err; } outcome;
static outcome *ref_o,*run_o;
static int kind,nthr,nd[MAXT],style; static unsigned long rseed[MAXT]; static uint64_t mseed;
static double u_(uint64_t *s){ return (sim_splitmix(s)>>11)*(1.0/9007199254740992.0); }
static apop_data *points(uint64_t *s,int rows,int cols,int weights){ apop_data *d=apop_data_alloc(rows,cols); for (int i=0;i<rows;i++) for (int j=0;j<cols;j++) gsl_matrix_set(d->matrix,i,j,10*i+j+u_(s)); if (weights){ d->weights=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(d->weights,i,0.2+3*u_(s)); } return d; }
static void center(apop_data *in,apop_model *m){ double x=apop_data_get(in); apop_data_set(m->parameters,0,-1,x-0.5); sim_point(); apop_data_set(m->parameters,1,-1,x+0.5); }
static double above(apop_data *d,apop_model *m){ (void)m; return apop_data_get(d,0,0)>0; }
static long double my_ll(apop_data *d,apop_model *m){ double x=apop_data_get(d,0,0); sim_point(); double mu=apop_data_get(m->parameters,0,-1); return -(x-mu)*(x-mu)/2; }
static long double my_ll2(apop_data *d,apop_model *m){ double t=0; for (int j=0;j<2;j++){ double x=apop_data_get(d,0,j), mu=apop_data_get(m->parameters,j,-1); t-=(x-mu)*(x-mu)/2; } sim_point(); return t; }
static apop_model *kde(uint64_t *s,int w,int unif){
    apop_data *d=points(s,1+sim_splitmix(s)%9,1,w);
    if (unif){ apop_model *k=apop_model_set_parameters(apop_uniform,0,1); apop_model *m=apop_model_copy(apop_kernel_density); Apop_settings_add_group(m,apop_kernel_density,.base_data=d,.set_fn=center,.kernel=k); return m; }
    return apop_estimate(d,apop_kernel_density); }
static apop_model *mixw(uint64_t *s,int w){ apop_model *m= sim_splitmix(s)%2? apop_model_mixture(apop_model_set_parameters(apop_normal,-50,1),apop_model_set_parameters(apop_normal,50,2)) : apop_model_mixture(apop_model_set_parameters(apop_normal,-50,1),apop_model_set_parameters(apop_uniform,0,1),apop_model_set_parameters(apop_gamma,2,3));
    if (w){ apop_mixture_settings *ms=Apop_settings_get_group(m,apop_mixture); for (size_t i=0;i<ms->weights->size;i++) gsl_vector_set(ms->weights,i,0.1+u_(s)); }
    return m; }
apop_model *shared_kind(uint64_t *s,int k);
const int n_shared_kinds=K_CT; const char *shared_kind_name(int k){ return kn[k]; }
static apop_model *mk1(uint64_t *s,int k){
    double a=0.6+2*u_(s), b=0.5+u_(s); apop_model *m=NULL; int n=1+sim_splitmix(s)%9;
    switch(k){
        case K_NORMAL: return apop_model_set_parameters(apop_normal,a,b);
        case K_LOGNORMAL: return apop_model_set_parameters(apop_lognormal,a,b);
        case K_GAMMA: return apop_model_set_parameters(apop_gamma,a,b);
        case K_EXP: return apop_model_set_parameters(apop_exponential,a);
        case K_POISSON: return apop_model_set_parameters(apop_poisson,a*3);
        case K_BETA: return apop_model_set_parameters(apop_beta,a,b);
        case K_UNIF: return apop_model_set_parameters(apop_uniform,-a,b);
        case K_T: return apop_model_set_parameters(apop_t_distribution,a,b,4);
        case K_BERN: return apop_model_set_parameters(apop_bernoulli,0.1+0.3*a);
        case K_YULE: return apop_model_set_parameters(apop_yule,1+a);
        case K_ZIPF: return apop_model_set_parameters(apop_zipf,1+a);
        case K_BINOM: return apop_model_set_parameters(apop_binomial,7,0.1+0.3*a);
        case K_MULTI2: m=apop_model_copy(apop_multinomial); m->parameters=apop_data_falloc((2),9,0.1+0.3*a); m->dsize=2; return m;
        case K_MULTI: { int z=3+n%4; m=apop_model_copy(apop_multinomial); m->parameters=apop_data_alloc(z); gsl_vector_set_all(m->parameters->vector,0.6/z+0.02*u_(s)); gsl_vector_set(m->parameters->vector,0,5+n); m->dsize=z; return m; }
        case K_PMF: { apop_data *d=points(s,n,1+n%3,0); return apop_estimate(d,apop_pmf); }
        case K_PMFW: { apop_data *d=points(s,n,1+n%3,1); return apop_estimate(d,apop_pmf); }
        case K_PMFIDX: m=apop_model_copy(apop_pmf); Apop_settings_add_group(m,apop_pmf,.draw_index='y'); m->data=points(s,n,1,1); m->dsize=1; return m;
        case K_PMFRAW: m=apop_model_copy(apop_pmf); m->data=points(s,n,2,n%2); m->dsize=2; return m;
        case K_KERN: return kde(s,0,0);
        case K_KERNW: return kde(s,1,0);
        case K_KERNU: return kde(s,n%2,1);
        case K_MIX: return mixw(s,0);
        case K_MIXW: return mixw(s,1);
        case K_MVN: m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_falloc((3,3,3),a,2,.5,.1, 2,.5,3,.2, 3,.1,.2,1.5); m->dsize=3; return m;
        case K_DIRICHLET: { int z=2+n%3; m=apop_model_copy(apop_dirichlet); m->parameters=apop_data_alloc(z); gsl_vector_set_all(m->parameters->vector,a); gsl_vector_set(m->parameters->vector,0,b); m->dsize=z; return m; }
        case K_CROSS: return apop_model_cross(apop_model_set_parameters(apop_normal,a,b),mk1(s,K_MVN));
        case K_CROSS3: return apop_model_cross(apop_model_set_parameters(apop_poisson,a),mk1(s,K_PMFW),apop_model_set_parameters(apop_beta,a,b));
        case K_DCON: m=apop_model_dconstrain(.base_model=apop_model_set_parameters(apop_normal,a-1,b),.constraint=above); m->dsize=1; return m;
        case K_FIX: { apop_model *q=apop_model_set_parameters(apop_normal,NAN,b); apop_model *f=apop_model_fix_params(q); f->parameters=apop_data_alloc(1); apop_data_set(f->parameters,0,-1,a); return f; }
        case K_OLS: { apop_data *d=apop_data_alloc(8+n,8+n,3); for (int i=0;i<8+n;i++){ gsl_vector_set(d->vector,i,u_(s)*4); gsl_matrix_set(d->matrix,i,0,1); for (int j=1;j<3;j++) gsl_matrix_set(d->matrix,i,j,u_(s)+i*j); } if (n%2){ d->weights=gsl_vector_alloc(8+n); for (int i=0;i<8+n;i++) gsl_vector_set(d->weights,i,1+u_(s)); } apop_data *x=points(s,n,3,n%2); m=apop_estimate(d,apop_ols); Apop_settings_set(m,apop_lm,input_distribution,apop_estimate(x,apop_pmf)); m->dsize=4; return m; }
        case K_LOGIT: case K_PROBIT: { m=apop_model_copy(k==K_LOGIT?apop_logit:apop_logit); int cats=2+n%3; m->parameters=apop_data_alloc(2,cats-1); for (int i=0;i<2*(cats-1);i++) m->parameters->matrix->data[i]=2*u_(s)-1; apop_data *x=points(s,n,2,n%2); gsl_matrix_scale(x->matrix,0.1); Apop_settings_add_group(m,apop_lm,.input_distribution=apop_estimate(x,apop_pmf)); m->dsize=3; return m; }
        case K_LOGITRAW: { m=apop_model_copy(apop_logit); m->parameters=apop_data_alloc(2,1); for (int i=0;i<2;i++) m->parameters->matrix->data[i]=2*u_(s)-1; m->data=points(s,n,2,1); gsl_matrix_scale(m->data->matrix,0.1); m->dsize=3; return m; }
        case K_NEST: return apop_model_cross(mk1(s,K_PMFW),mixw(s,1));
        case K_MIXKERN: return apop_model_mixture(kde(s,1,0),kde(s,0,1));
        case K_ARMS: m=apop_model_copy(apop_normal); m->draw=NULL; m->parameters=apop_data_alloc(2); gsl_vector_set(m->parameters->vector,0,a); gsl_vector_set(m->parameters->vector,1,b); m->log_likelihood=my_ll; m->p=NULL; m->dsize=1; return m;
        case K_ARMSC: m=apop_model_dconstrain(.base_model=mk1(s,K_ARMS),.constraint=above); m->dsize=1; return m;
        case K_MCMC: m=apop_model_copy(apop_multivariate_normal); m->draw=NULL; m->log_likelihood=my_ll2; m->estimate=NULL; m->prep=NULL; m->constraint=NULL; m->parameters=apop_data_alloc(2); gsl_vector_set(m->parameters->vector,0,a); gsl_vector_set(m->parameters->vector,1,b); m->vsize=2; m->dsize=2; return m;
    }
    return m;
}
apop_model *shared_kind(uint64_t *s,int k){ return mk1(s,k); }
static apop_model *mk(void){ uint64_t s=mseed; apop_opts.rng_seed=77; return mk1(&s,kind); }
static apop_model *shared; static outcome *O; static gsl_rng *gens[MAXT];
static void draws_of(int t,apop_model *m){
    for (int k=0;k<nd[t];k++){
        double b[MAXW+4]; for (int j=0;j<MAXW+4;j++) b[j]=-4321.5;
        O->rc[t][k]= apop_draw(b,gens[t],m);
        for (int j=0;j<MAXW;j++) O->v[t][k][j]=b[j];
        int w=m->dsize>0?m->dsize:1; for (int j=w;j<MAXW+4;j++) CK(b[j]==-4321.5,"shared:overrun","a draw of size %d from a %s wrote %g to element %d",w,kn[kind],b[j],j);
        sim_event("t%d draw %d rc %d %.17g",t,k,O->rc[t][k],b[0]);
    }
    O->after[t]=gsl_rng_get(gens[t]);
}
static void caller(int t,void *v){ (void)v; sim_point(); draws_of(t,shared); }
static void team_caller(void *v){ (void)v; int t=omp_get_thread_num(); if (t<nthr) draws_of(t,shared); }
static void alone(void *v){ O=v; sim_sched_on=0; for (int t=0;t<nthr;t++){ apop_model *m=mk(); gens[t]=rng_of(rseed[t]); draws_of(t,m); O->dsize=m->dsize; O->done++; } }
static apop_data *pb;
static void together(void *v){ O=v; shared=mk(); pb=shared->parameters?deep_copy(shared->parameters):NULL; for (int t=0;t<nthr;t++) gens[t]=rng_of(rseed[t]);
    sim_set_nthreads(1+mseed%3);
    if (style==0) sim_callers(nthr,caller,NULL); else sim_team(nthr,team_caller,NULL);
    O->dsize=shared->dsize; O->err=shared->error; O->done=nthr;
    if (pb){ const char *q=data_diff(shared->parameters,pb,0); CK(!q||kind>=K_CT,"shared:parameters-changed","drawing from a %s changed its parameters: %s",kn[kind],q); }
    apop_data *dd=NULL; (void)dd;
    // the model is still usable
    double b[MAXW+4]={0}; gsl_rng *r=rng_of(5); int rc=apop_draw(b,r,shared); CK(!rc||kind>=K_CT,"shared:unusable","a later draw from the %s fails with code %d",kn[kind],rc);
}
void scen_shared(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("shared:hang");
    ref_o=sim_shared(sizeof *ref_o); run_o=sim_shared(sizeof *run_o);
    int defaults=w_chance(1,24); kind= defaults? K_CT+w_choose(K_ALL-K_CT) : w_choose(K_CT); mseed=w_choose(1<<20); nthr=2+w_choose(MAXT-1); style=w_choose(2);
    for (int t=0;t<nthr;t++){ nd[t]=1+w_choose(MAXD); rseed[t]=1+w_choose(100000); }
    sim_describe("%d threads draw from one %s, %d..%d draws, %s",nthr,kn[kind],nd[0],nd[nthr-1],style?"a team":"separate threads");
    sim_nontrivial();
    if (kind<K_CT) sim_process(alone,ref_o);
    sim_process(together,run_o);
    CK(run_o->done==nthr,"shared:crash","the threads did not finish");
    if (kind>=K_CT){ for (int t=0;t<nthr;t++) for (int k=0;k<nd[t];k++) for (int j=0;j<run_o->dsize;j++) CK(isfinite(run_o->v[t][k][j])&&run_o->v[t][k][j]!=-4321.5,"shared:half-built","thread %d's draw %d from the %s is %g",t,k,kn[kind],run_o->v[t][k][j]); return; }
    CK(ref_o->done==nthr,"shared:crash","the draws made alone did not finish");
    uint64_t h=FNV0;
    for (int t=0;t<nthr;t++){ for (int k=0;k<nd[t];k++){
            CK(ref_o->rc[t][k]==run_o->rc[t][k],"shared:code-differs","%s: thread %d's draw %d returned %d; alone it returns %d",kn[kind],t,k,run_o->rc[t][k],ref_o->rc[t][k]);
            CK(ref_o->rc[t][k]==0,"shared:draw-failed","%s: draw %d of thread %d returned %d",kn[kind],k,t,ref_o->rc[t][k]);
            for (int j=0;j<MAXW;j++){ CK(same_d(ref_o->v[t][k][j],run_o->v[t][k][j]),"shared:draw-differs","%s: thread %d's draw %d, element %d, is %.17g; alone it is %.17g",kn[kind],t,k,j,run_o->v[t][k][j],ref_o->v[t][k][j]); h=dbl_hash(run_o->v[t][k][j],h); } 
            for (int j=0;j<run_o->dsize&&j<MAXW;j++) CK(run_o->v[t][k][j]!=-4321.5,"shared:not-written","%s: thread %d's draw %d left element %d unwritten",kn[kind],t,k,j); }
        CK(ref_o->after[t]==run_o->after[t],"shared:generator-differs","%s: thread %d's generator is not where it would be alone",kn[kind],t); }
    sim_state(h);
}
