/* C23: several threads evaluate one model at once (likelihood, probability, CDF, score, predictions, draws, copies); each must get
what it would get from a model of its own. */
#include "common.h"
apop_model *shared_kind(uint64_t *s,int k); extern const int n_shared_kinds; const char *shared_kind_name(int k);
enum { E_PROBIT,E_LOGIT,E_WLS,E_IV,E_LOESS,E_TRANS,E_CDF,E_MIX3,E_KDEPMF,E_IMPROPER,E_HESS,E_PMFT,E_DCON,E_CROSSP,E_CT };
static const char *en[]={"probit off its estimate","logit off its estimate","weighted least squares","instrumental variables","loess","coordinate transform","model with a drawn CDF","mixture of mixtures","kernel density over a PMF","improper uniform","user likelihood","pmf of text","constrained model with its scaling","product of models over two pages"};
enum { O_LL,O_P,O_CDF,O_SCORE,O_PREDICT,O_DRAW,O_COPY,O_CONSTRAINT,O_PRINT,O_ALL };
static const char *on[]={"log likelihood","p","cdf","score","predict","draw","copy and ll","constraint","print"};
#define MAXT 5
#define MAXO 6
#define NV 24
typedef struct { int n; double v[NV]; uint64_t text; } res;
typedef struct { int done; res r[MAXT][MAXO]; } outcome;
static outcome *ref_o,*run_o,*O;
static int kind,nthr,no[MAXT],what[MAXT][MAXO],style; static uint64_t mseed,dseed[MAXT][MAXO]; static apop_data *in[MAXT][MAXO]; static apop_model *shared;
static double u_(uint64_t *s){ return (sim_splitmix(s)>>11)*(1.0/9007199254740992.0); }
static void put(res *r,double x){ if (r->n<NV) r->v[r->n]=x; r->n++; }
static double inv_(double x){ return 1/x; }
static apop_data *rev(apop_data *in){ return apop_map(in,.fn_d=log,.part='a'); }
static double jac(apop_data *in){ return apop_map_sum(in,inv_,.part='a'); }
static long double my_ll(apop_data *d,apop_model *m){ double t=0; for (size_t i=0;i<d->matrix->size1;i++){ double x=apop_data_get(d,i,0), mu=apop_data_get(m->parameters,0,-1); t-=(x-mu)*(x-mu)/2; } sim_point(); return t; }
static int my_draw(double *out,gsl_rng *r,apop_model *m){ *out=apop_data_get(m->parameters,0,-1)+gsl_ran_gaussian(r,1); sim_point(); return 0; }
static apop_data *regdata(uint64_t *s,int n,int cats,int wt){ apop_data *d=apop_data_alloc(n,n,3); for (int i=0;i<n;i++){ double x=0; gsl_matrix_set(d->matrix,i,0,1); for (int j=1;j<3;j++){ double q=4*u_(s)-2+0.1*i*j; gsl_matrix_set(d->matrix,i,j,q); x+=q; } gsl_vector_set(d->vector,i,cats? (i<cats? i: (int)(sim_splitmix(s)%cats)) : x+u_(s)); }
    if (wt){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,0.5+u_(s)); }
    apop_name_add(d->names,"y",'v'); apop_name_add(d->names,"one",'c'); apop_name_add(d->names,"x1",'c'); apop_name_add(d->names,"x2",'c'); return d; }
static double over(apop_data *d,apop_model *m){ (void)m; return apop_data_get(d,0,0)>0; }
static double scale23(apop_model *m){ sim_point(); double x=apop_data_get(m->parameters,0,-1); sim_point(); return 1/(1+exp(-x)); }
static int cats; 
static apop_model *mk(void){
    uint64_t s=mseed; apop_opts.rng_seed=77; int k=kind-n_shared_kinds; if (k<0) return shared_kind(&s,kind);
    double a=0.6+2*u_(&s), b=0.5+u_(&s); int n=10+sim_splitmix(&s)%6; apop_model *m; cats=2+n%2;
    switch(k){
        case E_PROBIT: case E_LOGIT: { apop_data *d=regdata(&s,n,cats,0); apop_data_to_factors(d,.intype='d',.incol=-1,.outcol=-1); m=apop_model_copy(k==E_LOGIT?apop_logit:apop_probit); apop_prep(d,m); m->data=d; for (size_t i=0;i<m->parameters->matrix->size1;i++) for (size_t j=0;j<m->parameters->matrix->size2;j++) gsl_matrix_set(m->parameters->matrix,i,j,u_(&s)-0.5); return m; }
        case E_WLS: return apop_estimate(regdata(&s,n,0,1),apop_ols);
        case E_IV: { apop_data *d=regdata(&s,n,0,0); apop_data *z=apop_data_alloc(n,1); for (int i=0;i<n;i++) gsl_matrix_set(z->matrix,i,0,gsl_matrix_get(d->matrix,i,1)+0.1*u_(&s)); apop_name_add(z->names,"x1",'c'); m=apop_model_copy(apop_iv); Apop_settings_add_group(m,apop_lm,.instruments=z); return apop_estimate(d,m); }
        case E_LOESS: { n+=6; apop_data *d=apop_data_alloc(n,n,1); for (int i=0;i<n;i++){ double x=i+u_(&s)*0.5; gsl_matrix_set(d->matrix,i,0,x); gsl_vector_set(d->vector,i,sin(x/3)+0.1*u_(&s)); } m=apop_model_copy(apop_loess); Apop_settings_add_group(m,apop_loess,.data=d); return apop_estimate(d,m); }
        case E_TRANS: m=apop_model_coordinate_transform(.transformed_to_base=rev,.jacobian_to_base=jac,.base_model=apop_model_set_parameters(apop_normal,0.2,b)); apop_prep(NULL,m); return m;
        case E_CDF: m=apop_model_copy(apop_normal); m->parameters=apop_data_falloc((2),a,b); m->cdf=NULL; m->draw=my_draw; m->log_likelihood=my_ll; Apop_settings_add_group(m,apop_cdf,.draws=15+n); return m;
        case E_MIX3: return apop_model_mixture(apop_model_set_parameters(apop_normal,a,b),apop_model_mixture(apop_model_set_parameters(apop_gamma,a,b),apop_model_set_parameters(apop_normal,a+4,b)));
        case E_KDEPMF: { apop_data *d=apop_data_alloc(n,1); d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++){ gsl_matrix_set(d->matrix,i,0,i+u_(&s)); gsl_vector_set(d->weights,i,0.2+u_(&s)); } m=apop_model_copy(apop_kernel_density); Apop_settings_add_group(m,apop_kernel_density,.base_pmf=apop_estimate(d,apop_pmf)); return m; }
        case E_IMPROPER: m=apop_model_copy(apop_improper_uniform); m->parameters=apop_data_falloc((2),0,1); return m;
        case E_HESS: m=apop_model_copy(apop_normal); m->parameters=apop_data_falloc((2),a,b); m->log_likelihood=my_ll; m->p=NULL; m->cdf=NULL; return m;
        case E_PMFT: { apop_data *d=apop_data_alloc(n,1); apop_text_alloc(d,n,1); for (int i=0;i<n;i++){ gsl_matrix_set(d->matrix,i,0,i%4); apop_text_set(d,i,0,"t%i",i%3); } apop_data_pmf_compress(d); return apop_estimate(d,apop_pmf); }
        case E_DCON: { apop_model *base=apop_model_set_parameters(apop_normal,a,b); m=apop_model_dconstrain(.base_model=base,.constraint=over,.scaling=scale23); m->dsize=1; m->vsize=2; m->parameters=base->parameters;
            if (n%2){ gsl_vector_set(m->parameters->vector,0,a+1); apop_data *d=apop_data_falloc((1,1),4.); apop_log_likelihood(d,m); apop_data_free(d); gsl_vector_set(m->parameters->vector,0,a); } return m; }   // has been used with other parameters
        case E_CROSSP: m=apop_model_cross(apop_model_set_parameters(apop_normal,a,b),apop_model_set_parameters(apop_gamma,a,b)); Apop_settings_set(m,apop_cross,splitpage,"second"); m->dsize=2; return m;
    } return NULL; }
static const char *kname(int k){ return k<n_shared_kinds? shared_kind_name(k) : en[k-n_shared_kinds]; }
/* an input for an evaluation, made from a model of its own before the threads start */
static apop_data *input(uint64_t seed){
    uint64_t s=seed; int k=kind-n_shared_kinds, rows=1+sim_splitmix(&s)%3; apop_data *d;
    if (k==E_PROBIT||k==E_LOGIT){ rows+=cats; d=regdata(&s,rows,cats,0); apop_data_to_factors(d,.intype='d',.incol=-1,.outcol=-1); return d; }
    if (k==E_WLS||k==E_IV||!strcmp(kname(kind),"ols")) return regdata(&s,rows,0,0);
    if (k==E_LOESS){ d=apop_data_alloc(rows,2); for (int i=0;i<rows;i++){ gsl_matrix_set(d->matrix,i,0,0); gsl_matrix_set(d->matrix,i,1,1+8*u_(&s)); } return d; }
    if (k==E_CROSSP){ d=apop_data_alloc(rows); d->more=apop_data_alloc(1+sim_splitmix(&s)%3); apop_name_add(d->more->names,"second",'h'); for (int i=0;i<rows;i++) gsl_vector_set(d->vector,i,4*u_(&s)); for (size_t i=0;i<d->more->vector->size;i++) gsl_vector_set(d->more->vector,i,0.1+4*u_(&s)); return d; }
    apop_model *m=mk(); if (k==E_PMFT){ d=apop_data_copy(Apop_r(m->data,0)); if (sim_splitmix(&s)%2) apop_text_set(d,0,0,"t%i",(int)(sim_splitmix(&s)%4)); return d; }
    int w=m->dsize>0?m->dsize:1; d=apop_data_alloc(rows,w); gsl_rng *r=rng_of(1+seed%100000);
    for (int i=0;i<rows;i++){ if (k==E_TRANS||k==E_HESS||k==E_IMPROPER) gsl_matrix_set(d->matrix,i,0,0.1+3*u_(&s)); else apop_draw(gsl_matrix_ptr(d->matrix,i,0),r,m); }
    if (sim_splitmix(&s)%5==0) gsl_matrix_set(d->matrix,0,0,gsl_matrix_get(d->matrix,0,0)+0.25);
    gsl_rng_free(r); return d; }
static void evaluate(int t,int i,apop_model *m){
    res *r=&O->r[t][i]; apop_data *d=in[t][i]; uint64_t s=dseed[t][i]; r->n=0; r->text=FNV0;
    switch(what[t][i]){
        case O_LL: put(r,apop_log_likelihood(d,m)); break;
        case O_P: put(r,apop_p(d,m)); break;
        case O_CDF: if (m->cdf) put(r,apop_cdf(d,m)); else { /* from random draws, kept for later calls */ double x=apop_cdf(d,m), y=apop_cdf(d,m); CK(x>=0&&x<=1,"eval:cdf-range","a CDF of a %s is %g",kname(kind),x); CK(x==y,"eval:cdf-unstable","the CDF of a %s is %g, then %g",kname(kind),x,y); put(r,1); } break;
        case O_SCORE: { if (!m->parameters||!apop_score_vtable_get(m)||(strstr(kname(kind),"probit")&&m->parameters->matrix&&m->parameters->matrix->size2>1)) break; /* a numerical score moves the parameters */ gsl_vector *g=gsl_vector_calloc(m->parameters?(m->parameters->vector?m->parameters->vector->size:0)+(m->parameters->matrix?m->parameters->matrix->size1*m->parameters->matrix->size2:0):1); apop_score(d,g,m); for (size_t j=0;j<g->size;j++) put(r,gsl_vector_get(g,j)); gsl_vector_free(g); break; }
        case O_PREDICT: { apop_data *q=apop_data_copy(d); apop_data *p=apop_predict(q,m); for (apop_data *z=p;z;z=z->more){ if (z->vector) for (size_t j=0;j<z->vector->size;j++) put(r,gsl_vector_get(z->vector,j)); if (z->matrix) for (size_t j=0;j<z->matrix->size1;j++) put(r,gsl_matrix_get(z->matrix,j,0)); } if (p!=q) apop_data_free(q); break; }
        case O_DRAW: { gsl_rng *g=rng_of(1+s%9999); double b[12]={0}; put(r,apop_draw(b,g,m)); for (int j=0;j<6;j++) put(r,b[j]); gsl_rng_free(g); break; }
        case O_COPY: { apop_model *c=apop_model_copy(m); put(r,apop_log_likelihood(d,c)); if (c->parameters&&c->parameters->vector){ gsl_vector_add_constant(c->parameters->vector,0.01); put(r,apop_log_likelihood(d,c)); } apop_model_free(c); break; }
        case O_CONSTRAINT: if (m->constraint&&m->parameters) put(r,m->constraint(d,m)); break;
        case O_PRINT: { char *b=NULL; size_t n; FILE *f=open_memstream(&b,&n); apop_model_print(m,f); fclose(f); r->text=sim_hash(b,n,FNV0); free(b); break; }
    }
    sim_event("t%d op %d %s: %d values %.15g",t,i,on[what[t][i]],r->n,r->n?r->v[0]:0);
}
static void thread_ops(int t){ for (int i=0;i<no[t];i++){ apop_data *before=deep_copy(in[t][i]); evaluate(t,i,shared); const char *q=data_diff_pages(in[t][i],before,1); CK(!q,"eval:input-changed","the %s of a %s changed its data: %s",on[what[t][i]],kname(kind),q); } }
static void caller(int t,void *v){ (void)v; sim_point(); thread_ops(t); }
static void team_caller(void *v){ (void)v; int t=omp_get_thread_num(); if (t<nthr) thread_ops(t); }
static void inputs(void){ mk(); for (int t=0;t<nthr;t++) for (int i=0;i<no[t];i++) in[t][i]=input(dseed[t][i]); }
static void alone(void *v){ O=v; sim_sched_on=0; inputs(); for (int t=0;t<nthr;t++) for (int i=0;i<no[t];i++){ apop_model *m=mk(); evaluate(t,i,m); O->done++; } }
static void together(void *v){ O=v; sim_sched_on=0; inputs(); sim_sched_on=1; shared=mk(); apop_data *pb=shared->parameters?deep_copy(shared->parameters):NULL; 
    sim_set_nthreads(1+mseed%3);
    if (style==0) sim_callers(nthr,caller,NULL); else sim_team(nthr,team_caller,NULL);
    O->done=1;
    if (pb){ const char *q=data_diff(shared->parameters,pb,1); CK(!q,"eval:parameters-changed","evaluating a %s changed its parameters: %s",kname(kind),q); }
    CK(!shared->error,"eval:model-marked","evaluating a %s marked it with error %c",kname(kind),shared->error);
}
static int applies(int op){ int k=kind-n_shared_kinds; int reg= k==E_PROBIT||k==E_LOGIT||k==E_WLS||k==E_IV||!strcmp(kname(kind),"ols");
    if (op==O_PREDICT) return reg||k==E_LOESS;
    if (k==E_LOESS) return 0;
    if (k<0&&strstr(kname(kind),"cross")&&op!=O_DRAW&&op!=O_PRINT) return 0;   // without a second page, both models get the whole draw
    if ((k==E_CROSSP&&op==O_CDF)||(k==E_TRANS&&op==O_DRAW)) return 0;   // the latter draws from a chain, which the model keeps
    if ((!strcmp(kname(kind),"dconstrain")||(k<0&&strstr("logit probit logit off its data",kname(kind))))&&op!=O_DRAW&&op!=O_CDF) return 0;   // its likelihood is scaled by random draws
    if (op==O_COPY&&(k==E_DCON||strstr(kname(kind),"fixed param"))) return 0;   // copies share the base model, as documented
    if (reg&&(op==O_CDF||op==O_DRAW)) return 0;
    return 1; }
void scen_eval(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("eval:hang");
    ref_o=sim_shared(sizeof *ref_o); run_o=sim_shared(sizeof *run_o);
    kind=w_choose(n_shared_kinds+E_CT); mseed=w_choose(1<<20); nthr=2+w_choose(MAXT-1); style=w_choose(2); int only=w_choose(O_ALL+3);
    int tot=0; for (int t=0;t<nthr;t++){ no[t]=1+w_choose(t<2?3:MAXO); for (int i=0;i<no[t];i++){ what[t][i]= only<O_ALL? only : (int)w_choose(O_ALL); if (!applies(what[t][i])) what[t][i]= applies(O_LL)?O_LL:applies(O_DRAW)?O_DRAW:O_PREDICT; dseed[t][i]=w_choose(1<<20); tot++; } }
    sim_describe("%d threads evaluate one %s, first a %s and a %s, %s",nthr,kname(kind),on[what[0][0]],on[what[1][0]],style?"a team":"separate threads");
    sim_nontrivial();
    sim_process(alone,ref_o); CK(ref_o->done==tot,"eval:crash","the evaluations made alone did not finish");
    sim_process(together,run_o); CK(run_o->done==1,"eval:crash","the threads did not finish");
    uint64_t h=FNV0;
    for (int t=0;t<nthr;t++) for (int i=0;i<no[t];i++){ res *a=&ref_o->r[t][i],*b=&run_o->r[t][i]; const char *w=on[what[t][i]];
        CK(a->n==b->n,"eval:size-differs","%s: the %s of thread %d has %d values; alone, %d",kname(kind),w,t,b->n,a->n);
        CK(a->text==b->text,"eval:text-differs","%s: what thread %d printed is not what is printed alone",kname(kind),t);
        for (int j=0;j<a->n&&j<NV;j++){ CK(close_d(a->v[j],b->v[j],1e-9),"eval:value-differs","%s: value %d of the %s (op %d of thread %d) is %.17g; alone it is %.17g",kname(kind),j,w,i,t,b->v[j],a->v[j]); h=dbl_hash(b->v[j],h); } }
    sim_state(h);
}
