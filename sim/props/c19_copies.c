/* C19: copies of one model, used, changed, copied again and freed by several threads in any order.  Each must give what it
would give if it were the only one: a fresh model, alone in its process, to which only this copy's own history is applied. */
#include "common.h"
typedef struct { int refs,arrays; } c19box;
typedef struct { double *arr; int n; c19box *box; int made; } c19u_settings;   // a settings group of the user's own
Apop_settings_declarations(c19u)
static int u_live;
Apop_settings_init(c19u, Apop_varad_set(n,3) out->arr=calloc(out->n,sizeof(double)); if (!in.box) out->box=calloc(1,sizeof(c19box)); 
    { out->box->refs++; u_live++; } )
Apop_settings_copy(c19u, out->arr=malloc(out->n*sizeof(double)); memcpy(out->arr,in->arr,out->n*sizeof(double)); out->made=in->made+1;
    { out->box->refs++; u_live++; } )
Apop_settings_free(c19u, free(in->arr); int last;
    { u_live--; last=!--in->box->refs; }
    if (last) free(in->box); )
enum { K_NORMAL,K_PMFW,K_PMFI,K_PMFU,K_CDF,K_MIX,K_MIXPMF,K_KDE,K_KDEW,K_KDEU,K_USER,K_GROUPS,K_EST,K_MLE,K_IV,K_LOESS,K_LOESSW,K_DCON,K_CROSS,K_ARMS,K_MCMC,K_ALL };
static const char *kn[]={"normal","weighted pmf","indexed pmf","pmf","model with a drawn CDF","mixture","mixture with a pmf","kernel density","weighted kernel density","uniform kernel density","model with settings of the user's","model with many settings groups","estimated OLS","model with MLE settings","IV","loess","weighted loess","dconstrain","cross","model drawn from by ARMS","Metropolis-Hastings chain"};
enum { O_DRAW,O_LL,O_CDF,O_P,O_READ,O_EST,O_PRED,O_PRINT, C_PARAM,C_SET,C_OTHER,C_RM,C_CLEAR,C_INFO, X_COPY,X_COPYGRP,X_FREE };
#define BIT(x) (1u<<(x))
static const unsigned uses[K_ALL]={
 [K_NORMAL]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_CDF)|BIT(O_P)|BIT(O_READ)|BIT(O_EST)|BIT(C_PARAM)|BIT(C_OTHER)|BIT(C_RM)|BIT(C_CLEAR)|BIT(C_INFO)|BIT(O_PRINT),
 [K_PMFW]=BIT(O_DRAW)|BIT(O_P)|BIT(O_READ)|BIT(C_SET)|BIT(C_OTHER)|BIT(C_RM)|BIT(C_CLEAR)|BIT(O_CDF),
 [K_PMFI]=BIT(O_DRAW)|BIT(O_P)|BIT(O_READ)|BIT(C_SET)|BIT(C_OTHER)|BIT(C_CLEAR)|BIT(O_CDF),
 [K_PMFU]=BIT(O_DRAW)|BIT(O_P)|BIT(O_READ)|BIT(C_SET)|BIT(C_OTHER)|BIT(C_RM)|BIT(C_CLEAR)|BIT(O_CDF),
 [K_CDF]=BIT(O_DRAW)|BIT(O_CDF)|BIT(O_LL)|BIT(C_PARAM)|BIT(C_SET)|BIT(C_OTHER)|BIT(C_CLEAR)|BIT(O_READ),
 [K_MIX]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_CDF)|BIT(O_EST)|BIT(C_PARAM)|BIT(C_SET)|BIT(C_CLEAR)|BIT(O_READ)|BIT(C_OTHER)|BIT(O_PRINT),
 [K_MIXPMF]=BIT(O_DRAW)|BIT(O_LL)|BIT(C_CLEAR)|BIT(O_READ)|BIT(C_SET),
 [K_KDE]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_CDF)|BIT(C_CLEAR)|BIT(C_OTHER)|BIT(C_RM)|BIT(O_READ),
 [K_KDEW]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_CDF)|BIT(C_CLEAR)|BIT(C_OTHER)|BIT(O_READ),
 [K_KDEU]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_CDF)|BIT(C_CLEAR)|BIT(C_OTHER)|BIT(O_READ),
 [K_USER]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_READ)|BIT(C_PARAM)|BIT(C_SET)|BIT(C_OTHER)|BIT(C_RM)|BIT(C_INFO)|BIT(C_CLEAR),
 [K_GROUPS]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_READ)|BIT(C_PARAM)|BIT(C_SET)|BIT(C_OTHER)|BIT(C_RM)|BIT(C_INFO)|BIT(C_CLEAR),
 [K_EST]=BIT(O_DRAW)|BIT(O_LL)|BIT(O_READ)|BIT(O_PRED)|BIT(C_PARAM)|BIT(C_INFO)|BIT(C_OTHER)|BIT(O_PRINT),
 [K_MLE]=BIT(O_EST)|BIT(O_LL)|BIT(C_PARAM)|BIT(C_SET)|BIT(O_READ),
 [K_IV]=BIT(O_EST)|BIT(C_OTHER)|BIT(C_RM)|BIT(O_READ),
 [K_LOESS]=BIT(O_PRED)|BIT(O_LL)|BIT(O_EST)|BIT(O_READ)|BIT(C_SET)|BIT(C_INFO),
 [K_LOESSW]=BIT(O_PRED)|BIT(O_LL)|BIT(O_EST)|BIT(O_READ)|BIT(C_SET)|BIT(C_INFO),
 [K_DCON]=BIT(O_DRAW)|BIT(O_LL)|BIT(C_OTHER)|BIT(O_READ),
 [K_CROSS]=BIT(O_DRAW)|BIT(O_LL)|BIT(C_OTHER),
 [K_ARMS]=BIT(O_DRAW)|BIT(O_LL)|BIT(C_OTHER)|BIT(C_CLEAR),
 [K_MCMC]=BIT(O_DRAW)|BIT(C_OTHER),
};
enum { MAXT=5, MAXS=40, PRE=4, PER=7, MAXOP=PRE+6+2*MAXT*PER+4, NV=12 };
typedef struct { int what,slot,dst; uint32_t seed; } op;
typedef struct { int done; double v[MAXOP][NV]; } notes19;
static notes19 *ref_n,*run_n,*O;
static int kind,nthr,nops,style,copymode; static uint64_t mseed; static op prog[MAXOP]; static int src[MAXS],born[MAXS],nslots; 
static int list0[MAXT][PER+2],len0[MAXT],list1[MAXT][PER+2],len1[MAXT],pre[PRE+8],npre;
static apop_model *slot[MAXS]; static apop_data *sdata[MAXS];
static double u_(uint64_t *s){ return (sim_splitmix(s)>>11)*(1.0/9007199254740992.0); }
/* what the harness owns: parts of the original go when the original does, data when everything is done */
typedef struct { apop_model *part[8]; int np; apop_data *data[6]; int nd; int linked; } own_t; static own_t keep,*K;
static apop_model *part(apop_model *m){ return K->part[K->np++]=m; }
static apop_data *dat(apop_data *d){ return K->data[K->nd++]=d; }
static void parts_go(own_t *k,int end){ if (!end&&(kind==K_DCON||kind==K_CROSS)) return; // these two are documented to refer to their base models
    for (int i=0;i<k->np;i++){ if (k->linked) k->part[i]->parameters=NULL; apop_model_free(k->part[i]); } k->np=0; }
static void data_goes(own_t *k){ for (int i=0;i<k->nd;i++) apop_data_free(k->data[i]); k->nd=0; }
static apop_data *points(uint64_t *s,int rows,int cols,int weights){ apop_data *d=dat(apop_data_alloc(rows,cols)); for (int i=0;i<rows;i++) for (int j=0;j<cols;j++) gsl_matrix_set(d->matrix,i,j,i+j+u_(s)); if (weights){ d->weights=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(d->weights,i,0.2+3*u_(s)); } return d; }
static void center19(apop_data *in,apop_model *m){ double x=apop_data_get(in); apop_data_set(m->parameters,0,-1,x-0.9); sim_point(); apop_data_set(m->parameters,1,-1,x+0.9); }
static double above19(apop_data *d,apop_model *m){ (void)m; return apop_data_get(d,0,0)>-1; }
static long double my_ll(apop_data *d,apop_model *m){ double t=0; for (size_t i=0;i<d->matrix->size1;i++){ double x=apop_data_get(d,i,0), mu=apop_data_get(m->parameters,0,-1); t-=(x-mu)*(x-mu)/2; } sim_point(); return t; }
static long double my_ll2(apop_data *d,apop_model *m){ double t=0; for (size_t i=0;i<d->matrix->size1;i++) for (int j=0;j<2;j++){ double x=apop_data_get(d,i,j), mu=apop_data_get(m->parameters,j,-1); t-=(x-mu)*(x-mu)/(2+j); } sim_point(); return t; }
static int my_draw(double *out,gsl_rng *r,apop_model *m){ *out=apop_data_get(m->parameters,0,-1)+gsl_ran_gaussian(r,1); sim_point(); return 0; }
typedef struct { double a; int b[4]; } extra;
static apop_model *mk(void){
    uint64_t s=mseed; double a=0.6+2*u_(&s), b=0.5+u_(&s); int n=3+sim_splitmix(&s)%6; apop_model *m; apop_opts.rng_seed=77;
    switch(kind){
        case K_NORMAL: return apop_model_set_parameters(apop_normal,a,b);
        case K_PMFW: return apop_estimate(points(&s,n,1+n%3,1),apop_pmf);
        case K_PMFI: m=apop_estimate(points(&s,n,1,1),apop_pmf); Apop_settings_add_group(m,apop_pmf,.draw_index='y'); return m;
        case K_PMFU: return apop_estimate(points(&s,n,2,0),apop_pmf);
        case K_CDF: m=apop_model_copy(apop_normal); m->parameters=apop_data_falloc((2),a,b); m->cdf=NULL; m->draw=my_draw; m->log_likelihood=my_ll; Apop_settings_add_group(m,apop_cdf,.draws=15+n); return m;
        case K_MIX: { m=apop_model_mixture(part(apop_model_set_parameters(apop_normal,-2,1)),part(apop_model_set_parameters(apop_normal,4,2)),part(apop_model_set_parameters(apop_normal,a,b))); if (n%2){ apop_mixture_settings *ms=Apop_settings_get_group(m,apop_mixture); for (size_t i=0;i<ms->weights->size;i++) gsl_vector_set(ms->weights,i,0.1+u_(&s)); } if (n%3) Apop_settings_set(m,apop_mixture,find_weights,'y'); Apop_settings_add_group(m,apop_mle,.max_iterations=8,.method="NM simplex"); apop_prep(NULL,m); return m; }
        case K_MIXPMF: { apop_model *q=part(apop_estimate(points(&s,n,1,1),apop_pmf)); m=apop_model_mixture(q,part(apop_model_set_parameters(apop_normal,4,2))); return m; }
        case K_KDE: return apop_estimate(points(&s,n,1,0),apop_kernel_density);
        case K_KDEW: return apop_estimate(points(&s,n,1,1),apop_kernel_density);
        case K_KDEU: { apop_model *p=part(apop_estimate(points(&s,n,1,n%2),apop_pmf)), *k=part(apop_model_set_parameters(apop_uniform,0,1)); m=apop_model_copy(apop_kernel_density); Apop_settings_add_group(m,apop_kernel_density,.base_pmf=p,.set_fn=center19,.kernel=k); m->dsize=1; return m; }
        case K_USER: { m=apop_model_set_parameters(apop_normal,a,b); Apop_settings_add_group(m,c19u,.n=2+n); for (int i=0;i<2+n;i++) Apop_settings_get(m,c19u,arr)[i]=u_(&s); extra *e=m->more=malloc(sizeof(extra)); *e=(extra){.a=a,.b={1,2,3,n}}; m->more_size=sizeof(extra); return m; }
        case K_GROUPS: m=apop_model_set_parameters(apop_normal,a,b); Apop_settings_add_group(m,apop_mle,.tolerance=a); Apop_settings_add_group(m,c19u,.n=n); Apop_settings_add_group(m,apop_pm,.draws=n); Apop_settings_add_group(m,apop_parts_wanted); Apop_settings_add_group(m,apop_mcmc,.periods=n); Apop_settings_add_group(m,apop_pmf,.draw_index='y'); Apop_settings_add_group(m,apop_cdf,.draws=n); Apop_settings_add_group(m,apop_arms,.model=m,.xl=-9,.xr=9); return m;
        case K_EST: { apop_data *d=dat(apop_data_alloc(8+n,8+n,3)); for (int i=0;i<8+n;i++){ gsl_vector_set(d->vector,i,u_(&s)*4); gsl_matrix_set(d->matrix,i,0,1); for (int j=1;j<3;j++) gsl_matrix_set(d->matrix,i,j,u_(&s)+i*j); } if (n%2){ d->weights=gsl_vector_alloc(8+n); for (int i=0;i<8+n;i++) gsl_vector_set(d->weights,i,1+u_(&s)); } m=apop_estimate(d,apop_ols); apop_data *x=points(&s,n,3,n%2); apop_model_free(Apop_settings_get(m,apop_lm,input_distribution)); Apop_settings_set(m,apop_lm,input_distribution,apop_estimate(x,apop_pmf)); m->dsize=4; return m; }
        case K_MLE: m=apop_model_copy(apop_normal); m->estimate=NULL; m->constraint=NULL; m->log_likelihood=my_ll2; m->p=NULL; m->parameters=apop_data_falloc((2),a,b); Apop_settings_add_group(m,apop_mle,.method="NM simplex",.tolerance=1e-2,.max_iterations=15+n); Apop_settings_add_group(m,apop_parts_wanted); return m;
        case K_IV: { apop_data *z=dat(apop_data_alloc(20,1)); for (int i=0;i<20;i++) gsl_matrix_set(z->matrix,i,0,u_(&s)+i); apop_name_add(z->names,"x1",'c'); m=apop_model_copy(apop_iv); Apop_settings_add_group(m,apop_lm,.instruments=z); return m; }
        case K_LOESS: case K_LOESSW: { apop_data *d=dat(apop_data_alloc(16+n,2)); for (int i=0;i<16+n;i++){ double x=i+u_(&s)/2; gsl_matrix_set(d->matrix,i,1,x); gsl_matrix_set(d->matrix,i,0,sin(x/3)*4+u_(&s)); } if (kind==K_LOESSW){ d->weights=gsl_vector_alloc(16+n); for (int i=0;i<16+n;i++) gsl_vector_set(d->weights,i,1+u_(&s)); } return apop_estimate(d,apop_loess); }
        case K_DCON: m=apop_model_dconstrain(.base_model=part(apop_model_set_parameters(apop_normal,a,b)),.constraint=above19,.draw_ct=30+n); if (n%2){ apop_prep(NULL,m); K->linked=1; } m->dsize=1; return m;
        case K_CROSS: return apop_model_cross(part(apop_model_set_parameters(apop_normal,a,b)),part(apop_model_set_parameters(apop_poisson,a+1)));
        case K_ARMS: m=apop_model_copy(apop_normal); m->draw=NULL; m->cdf=NULL; m->parameters=apop_data_falloc((2),a,b); m->log_likelihood=my_ll; m->p=NULL; m->dsize=1; return m;
        case K_MCMC: { apop_data *d=points(&s,n,2,0); apop_model *t=part(apop_model_copy(apop_multivariate_normal)); t->draw=NULL; t->estimate=NULL; t->prep=NULL; t->constraint=NULL; t->log_likelihood=my_ll2; t->vsize=2; t->msize1=t->msize2=0; t->dsize=2; Apop_settings_add_group(t,apop_mcmc,.periods=14+n,.burnin=.2); gsl_rng *r=rng_of(mseed+9); m=apop_model_metropolis(d,r,t); gsl_rng_free(r); return m; }
    }
    return NULL;
}
static int twodim(void){ return kind==K_MLE||kind==K_MCMC; }
static apop_data *eval_data(apop_model *m,uint64_t *s){ int w= kind==K_EST?3:(kind==K_LOESS||kind==K_LOESSW)?2:twodim()||kind==K_CROSS?2:(kind==K_PMFW||kind==K_PMFU)?(int)m->data->matrix->size2:1; int rows=kind==K_IV?20:(kind==K_LOESS||kind==K_LOESSW)?14:kind==K_CDF?1:3;
    apop_data *d= kind==K_EST||kind==K_IV? apop_data_alloc(rows,rows,kind==K_IV?2:w):apop_data_alloc(rows,w); if (d->vector) for (int i=0;i<rows;i++) gsl_vector_set(d->vector,i,3*u_(s)+i);
    for (int i=0;i<rows;i++) for (size_t j=0;j<d->matrix->size2;j++) gsl_matrix_set(d->matrix,i,j,kind==K_CROSS&&j==1?(double)(int)(4*u_(s)):(i+1.)*j/2.+3*u_(s));
    if (kind==K_EST||kind==K_IV) for (int i=0;i<rows;i++) gsl_matrix_set(d->matrix,i,0,1);
    if (kind==K_IV){ apop_name_add(d->names,"one",'c'); apop_name_add(d->names,"x1",'c'); }
    if (kind==K_LOESS||kind==K_LOESSW) for (int i=0;i<rows;i++) gsl_matrix_set(d->matrix,i,1,1+i+u_(s)/2);
    if ((kind==K_PMFW||kind==K_PMFU||kind==K_PMFI)&&m->data) for (int i=0;i<rows;i++){ int r=sim_splitmix(s)%m->data->matrix->size1; for (int j=0;j<w;j++) gsl_matrix_set(d->matrix,i,j,gsl_matrix_get(m->data->matrix,r,j)); }
    return d; }
static void put(double *v,int *k,double x){ if (*k<NV) v[(*k)++]=x; }
/* data of chains that a model has extended as its own */
static apop_data *chains[MAXS*2]; static int nchains;
static void note_chain(apop_model *m){ if (kind!=K_MCMC||!m) return; for (int i=0;i<nchains;i++) if (chains[i]==m->data) return; chains[nchains++]=m->data; }
static void apply(int i,apop_model **mp,apop_data **own,double *v){
    op *o=prog+i; apop_model *m=*mp; uint64_t s=o->seed; int k=0; for (int j=0;j<NV;j++) v[j]=-77; apop_data *d; gsl_rng *r;
    switch(o->what){
        case O_DRAW: r=rng_of(o->seed); for (int j=0;j<2;j++){ double b[8]; for (int q=0;q<8;q++) b[q]=-33; int rc=apop_draw(b,r,m); put(v,&k,rc); for (int q=0;q<4;q++) put(v,&k,b[q]); } gsl_rng_free(r); break;
        case O_LL: if (kind==K_LOESS||kind==K_LOESSW){ put(v,&k,apop_log_likelihood(m->info,m)); break; } d=eval_data(m,&s); r=rng_of(o->seed+2); if (kind==K_DCON) Apop_settings_set(m,apop_dconstrain,rng,r); put(v,&k,apop_log_likelihood(d,m)); if (kind==K_DCON) Apop_settings_set(m,apop_dconstrain,rng,NULL); gsl_rng_free(r); apop_data_free(d); break;
        case O_P: d=eval_data(m,&s); put(v,&k,apop_p(d,m)); apop_data_free(d); break;
        case O_CDF: d=eval_data(m,&s); r=rng_of(o->seed+1); if (kind==K_CDF) Apop_settings_set(m,apop_cdf,rng,r); put(v,&k,apop_cdf(d,m)); if (kind==K_CDF) Apop_settings_set(m,apop_cdf,rng,NULL); gsl_rng_free(r); apop_data_free(d); break;
        case O_READ: if (m->parameters){ if (m->parameters->vector) for (size_t j=0;j<m->parameters->vector->size&&j<3;j++) put(v,&k,gsl_vector_get(m->parameters->vector,j)); if (m->parameters->matrix) put(v,&k,gsl_matrix_get(m->parameters->matrix,0,0)); }
            put(v,&k,m->error); put(v,&k,Apop_settings_get_group(m,apop_pm)?Apop_settings_get(m,apop_pm,draws):-1); put(v,&k,Apop_settings_get_group(m,apop_mle)?Apop_settings_get(m,apop_mle,tolerance):-1); put(v,&k,Apop_settings_get_group(m,apop_pmf)?Apop_settings_get(m,apop_pmf,draw_index):-1);
            if (Apop_settings_get_group(m,c19u)) put(v,&k,Apop_settings_get(m,c19u,arr)[Apop_settings_get(m,c19u,n)-1]); if (m->more_size) put(v,&k,((extra*)m->more)->b[3]+((extra*)m->more)->a); 
            if (m->info&&m->info->vector) put(v,&k,gsl_vector_get(m->info->vector,0)); if (m->info&&m->info->matrix) put(v,&k,gsl_matrix_get(m->info->matrix,0,0)); if (m->info&&m->info->more&&m->info->more->matrix) put(v,&k,gsl_matrix_get(m->info->more->matrix,0,0));
            if (kind==K_MIX||kind==K_MIXPMF) put(v,&k,gsl_vector_get(Apop_settings_get(m,apop_mixture,weights),0)); break;
        case O_EST: { d=eval_data(m,&s); apop_model *e=apop_estimate(d,m); put(v,&k,e->error); if (e->parameters&&e->parameters->vector) for (size_t j=0;j<e->parameters->vector->size&&j<7;j++) put(v,&k,gsl_vector_get(e->parameters->vector,j)); if (kind==K_LOESS||kind==K_LOESSW){ apop_data *p=apop_data_get_page(e->info,"<Predicted>"); if (p) put(v,&k,gsl_matrix_get(p->matrix,2,1)); } apop_model_free(e); apop_data_free(d); break; }
        case O_PRED: { d=eval_data(m,&s); if (d->vector) gsl_vector_set_all(d->vector,NAN); apop_data *p=apop_predict(d,m); if (p->vector) for (int j=0;j<2;j++) put(v,&k,gsl_vector_get(p->vector,j)); if (p->matrix) for (int j=0;j<3;j++) put(v,&k,gsl_matrix_get(p->matrix,j,0)); if (p->more&&p->more->matrix) put(v,&k,gsl_matrix_get(p->more->matrix,1,0)); if (p!=d) apop_data_free(p); apop_data_free(d); break; }
        case O_PRINT: { char nm[30]; snprintf(nm,30,"print%d",i); FILE *f=sim_pipe(nm,"w"); apop_model_print(m,f); fclose(f); simfile *g=io_file(nm,0); put(v,&k,g?g->len:-1); put(v,&k,g?(double)(sim_hash(g->data,g->len,FNV0)>>12):-1); io_remove(nm); break; }
        case C_PARAM: if (m->parameters&&m->parameters->vector){ gsl_vector *q=m->parameters->vector; if (kind==K_MIX) gsl_vector_set(q,3+(sim_splitmix(&s)%3)*2,5*u_(&s)); else for (size_t j=0;j<q->size;j++) gsl_vector_set(q,j,0.5+u_(&s)); } break;
        case C_SET: switch(kind){
            case K_PMFW: case K_PMFU: case K_PMFI: if (s%3) Apop_settings_add_group(m,apop_pmf,.draw_index= s%2?'y':'n'); else Apop_settings_set(m,apop_pmf,draw_index,s%2?'y':'n'); break;
            case K_CDF: Apop_settings_add_group(m,apop_cdf,.draws=10+s%20); break;
            case K_MIX: case K_MIXPMF: { gsl_vector *w=Apop_settings_get(m,apop_mixture,weights); for (size_t j=0;j<w->size;j++) gsl_vector_set(w,j,0.1+u_(&s)); break; }
            case K_USER: case K_GROUPS: if (Apop_settings_get_group(m,c19u)&&s%3){ Apop_settings_get(m,c19u,arr)[Apop_settings_get(m,c19u,n)-1]=u_(&s); } else Apop_settings_add_group(m,c19u,.n=1+s%5); if (m->more_size) ((extra*)m->more)->b[3]=s%1000; break;
            case K_MLE: Apop_settings_set(m,apop_mle,tolerance,0.001+u_(&s)/10); break;
            case K_LOESS: case K_LOESSW: Apop_settings_set(m,apop_loess,ci_level,0.5+u_(&s)/3); break; } break;
        case C_OTHER: if (s%2) Apop_settings_add_group(m,apop_pm,.draws=3); else if (kind!=K_MLE&&kind!=K_GROUPS&&kind!=K_MIX) Apop_settings_add_group(m,apop_mle,.tolerance=u_(&s)); else Apop_settings_add_group(m,apop_parts_wanted); break;
        case C_RM: if (s%3==0) Apop_settings_rm_group(m,apop_mle); else if (s%3==1) Apop_settings_rm_group(m,apop_pm); else { Apop_settings_rm_group(m,c19u); Apop_settings_rm_group(m,apop_parts_wanted); if (kind==K_GROUPS) Apop_settings_rm_group(m,apop_arms); } break;
        case C_CLEAR: if (s%2&&m->prep) apop_prep(m->data,m); else apop_model_clear(m->data,m); break;
        case C_INFO: if (!m->info) m->info=apop_data_alloc(); if (m->info->vector){ gsl_vector_set(m->info->vector,0,u_(&s)); break; } if (!m->info->matrix) m->info->matrix=gsl_matrix_alloc(1,1); gsl_matrix_set(m->info->matrix,0,0,u_(&s)); break;
        case X_COPY: slot[o->dst]= s%4==0? apop_model_copy_set(m,apop_pm,.draws=7):apop_model_copy(m); sdata[o->dst]=NULL; break;
        case X_COPYGRP: { apop_model *t=apop_model_copy(apop_normal); apop_settings_copy_group(t,m,(char*)(kind==K_USER||kind==K_GROUPS?(s%2&&Apop_settings_get_group(m,apop_pm)?"apop_pm":Apop_settings_get_group(m,c19u)?"c19u":""):kind==K_PMFW||kind==K_PMFU||kind==K_PMFI?"apop_pmf":kind==K_KDE||kind==K_KDEW||kind==K_KDEU?"apop_kernel_density":kind==K_MIX||kind==K_MIXPMF?"apop_mixture":kind==K_CDF?"apop_cdf":"")); apop_model_free(t); break; }
        case X_FREE: note_chain(m); apop_model_free(m); *mp=NULL; if (o->slot==0&&K) parts_go(K,0); break;
    }
    if (o->what<=O_PRINT) sim_event("op %d on copy %d: %.10g %.10g",i,o->slot,v[0],v[1]);
}
static void do_op(int i){ op *o=prog+i; CK(slot[o->slot]!=NULL,"copies:harness","op %d on a dead copy",i); apply(i,&slot[o->slot],&sdata[o->slot],O->v[i]); sim_point(); }
static void run_list(int *l,int n){ for (int i=0;i<n;i++) do_op(l[i]); }
static int phase;
static void caller(int t,void *v){ (void)v; sim_point(); if (phase==1) run_list(list0[t],len0[t]); else if (phase==2) run_list(list1[t],len1[t]); }
static void team_caller(void *v){ int t=omp_get_thread_num(); if (t<nthr) caller(t,v); }
static void go(int seq){ if (seq){ for (int t=0;t<nthr;t++) caller(t,NULL); } else if (style&1) sim_team(nthr,team_caller,NULL); else sim_callers(nthr,caller,NULL); }
static void whole(int seq){
    keep=(own_t){0}; K=&keep; memset(slot,0,sizeof slot); nchains=0; slot[0]=mk(); run_list(pre,npre); phase=1; go(seq); phase=2; go(seq);
    if (kind==K_MCMC) for (int i=0;i<nslots;i++) note_chain(slot[i]);
    int order=mseed%3; for (int q=0;q<nslots;q++){ int i= order==0?q:order==1?nslots-1-q:(q*7+3)%nslots; if (order==2&&nslots%7==0) i=q; if (slot[i]){ apop_model_free(slot[i]); slot[i]=NULL; if (!i) parts_go(K,0); } }
    for (int i=0;i<nslots;i++) if (slot[i]){ apop_model_free(slot[i]); slot[i]=NULL; } parts_go(K,1); for (int i=0;i<nchains;i++) apop_data_free(chains[i]); data_goes(K);
    CK(u_live==0,"copies:user-group","%d settings groups of the user's are left after every model was freed",u_live);
}
static int leakcheck;
static void together(void *v){ O=v; sim_set_nthreads(1+mseed%2); uint64_t l0=0; long long lone=0;
    if (leakcheck){ int on=sim_sched_on; sim_sched_on=0; whole(1); l0=mem_live_bytes(); mem_leak_mark(); whole(1); uint64_t l1=mem_live_bytes(); if (l1>l0) mem_leak_dump(); lone=l1-l0; CK(lone<=0||kind>=K_EST,"copies:leak","%s: %lld bytes are left after every copy was freed (one thread)",kn[kind],(long long)(l1-l0)); sim_sched_on=on; phase=0; go(0); l0=mem_live_bytes(); }
    whole(0);
    if (leakcheck){ long long l1=mem_live_bytes(); if (lone<0) lone=0; CK(l1<=(long long)l0+lone,"copies:leak","%s: %lld bytes are left after every copy was freed",kn[kind],(long long)(l1-l0)); }
    O->done=1; }
/* the reference: a fresh model with one copy's history and nothing else */
static apop_model *line(int sl,int upto,int record){
    apop_model *m; static double scrap[NV]; apop_data *own=NULL;
    if (sl==0) m=mk(); else { m=line(src[sl],born[sl],0); int with=prog[born[sl]].seed%4==0; if (copymode) m= with? apop_model_copy_set(m,apop_pm,.draws=7):apop_model_copy(m); else if (with) Apop_settings_add_group(m,apop_pm,.draws=7); }
    for (int i=sl?born[sl]+1:0;i<upto;i++) if (prog[i].slot==sl&&prog[i].what<X_COPY) apply(i,&m,&own,record?O->v[i]:scrap);
    return m; }
static void alone(void *v){ O=v; sim_sched_on=0; sim_set_nthreads(1+mseed%2); for (int sl=0;sl<nslots;sl++){ own_t *k=calloc(1,sizeof *k); K=k; line(sl,nops,1); } O->done=1; }
static int alive[MAXS],owner[MAXS];
static int pick_slot(int t){ int c[MAXS],n=0; for (int i=0;i<nslots;i++) if (alive[i]&&owner[i]==t) c[n++]=i; return n? c[w_choose(n)]:-1; }
static int pick_use(unsigned m){ int c[32],n=0; for (int i=0;i<=C_INFO;i++) if (m&BIT(i)) c[n++]=i; return c[w_choose(n)]; }
static int add(int what,int sl,int dst){ prog[nops]=(op){what,sl,dst,1+w_choose(1<<16)}; return nops++; }
static int mkcopy(int from,int t){ int d=nslots++; src[d]=from; alive[d]=1; owner[d]=t; born[d]=add(X_COPY,from,d); return born[d]; }
static int newop(int t,unsigned allowed,int canfree){ // one more operation of thread t
    int sl=pick_slot(t); if (sl<0) return -1; int c=w_choose(12);
    if (c==11&&canfree&&!(kind==K_DCON&&!sl)){ alive[sl]=0; return add(X_FREE,sl,0); }
    if (c>=9&&nslots<MAXS-1) return mkcopy(sl,t);
    if (c==8&&kind!=K_MCMC) return add(X_COPYGRP,sl,0);
    return add(pick_use(allowed),sl,0); }
void scen_copies(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("copies:hang");
    ref_n=sim_shared(sizeof *ref_n); run_n=sim_shared(sizeof *run_n);
    nops=nslots=npre=0; u_live=0; kind= w_choose(K_ALL); mseed=w_choose(1<<20); nthr=2+w_choose(MAXT-1); style=w_choose(4); unsigned a=uses[kind];
    nslots=1; memset(alive,0,sizeof alive); alive[0]=1; owner[0]=0;
    int np=w_choose(PRE); for (int i=0;i<np;i++) pre[npre++]=add(pick_use(a),0,0);
    if (!(style&2)) for (int t=0;t<nthr;t++) pre[npre++]=mkcopy(0,t);
    else owner[0]=-1; // every thread makes its own copy of the original, which rests meanwhile
    for (int t=0;t<nthr;t++){ len0[t]=0; if (style&2) list0[t][len0[t]++]=mkcopy(0,t); int n=1+w_choose(PER); for (int i=0;i<n;i++){ int o=newop(t,a,1); if (o>=0) list0[t][len0[t]++]=o; } }
    if (style&2) owner[0]=0;
    for (int i=0;i<nslots;i++) if (alive[i]) owner[i]=(owner[i]+1)%nthr; // the copies change hands
    for (int t=0;t<nthr;t++){ len1[t]=0; int n=w_choose(PER); for (int i=0;i<n;i++){ int o=newop(t,a,1); if (o>=0) list1[t][len1[t]++]=o; } }
    int changed=0; for (int i=0;i<nops;i++) changed|= prog[i].what==C_SET||prog[i].what==C_PARAM;
    copymode= kind==K_ARMS||kind==K_MCMC||kind==K_DCON||kind==K_GROUPS||((kind==K_MIX||kind==K_MIXPMF)&&changed);
    leakcheck=w_chance(1,3); for (int i=0;i<nops;i++) if (prog[i].what==O_EST) leakcheck=0; // searches keep workspaces per thread
    sim_describe("%d threads use %d copies of a %s, %d operations",nthr,nslots,kn[kind],nops);
    sim_nontrivial();
    sim_process(alone,ref_n); CK(ref_n->done,"copies:crash","the copies' histories did not finish when run alone (%s)",kn[kind]);
    sim_process(together,run_n); CK(run_n->done,"copies:crash","the threads did not finish (%s)",kn[kind]);
    uint64_t h=FNV0;
    for (int i=0;i<nops;i++) if (prog[i].what<=O_PRINT) for (int j=0;j<NV;j++){ double x=ref_n->v[i][j],y=run_n->v[i][j]; CK(same_d(x,y)||close_d(x,y,1e-9),"copies:differs","%s, copy %d, operation %d (type %d): value %d is %.17g, but %.17g when the copy is the only one",kn[kind],prog[i].slot,i,prog[i].what,j,y,x); h=dbl_hash(y,h); }
    sim_state(h);
}
