/* The task library: one function per area of the API. Inputs come from the task's own generator, so a task
does the same work wherever and whenever it runs; what differs between runs is the history, the memory and
the schedule around it. */
#define _GNU_SOURCE
#include "tasks.h"
typedef uint64_t S;
static uint64_t sm(S *s){ return sim_splitmix(s); }
static double U(S *s){ return (sm(s)>>11)*(1.0/9007199254740992.0); }
static int I(S *s,int n){ return sm(s)%n; }
static double N01(S *s){ double t=0; for (int i=0;i<12;i++) t+=U(s); return t-6; }
static void put(tres *o,double x){ if (o->n<200) o->v[o->n]=x; o->n++; o->h=dbl_hash(x,o->h); }
static void puts_(tres *o,const char *s){ o->h=sim_hash(s?s:"(nil)",s?strlen(s)+1:6,o->h); size_t l=strlen(o->s); snprintf(o->s+l,sizeof o->s-l,"%s|",s?s:"(nil)"); }
static void putv(tres *o,const gsl_vector *v){ put(o,v?v->size:-1); if (v) for (size_t i=0;i<v->size;i++) put(o,gsl_vector_get(v,i)); }
static void putm(tres *o,const gsl_matrix *m){ put(o,m?m->size1*1000+m->size2:-1); if (m) for (size_t i=0;i<m->size1;i++) for (size_t j=0;j<m->size2;j++) put(o,gsl_matrix_get(m,i,j)); }
static void putd(tres *o,const apop_data *d){
    if (!d){ put(o,-77); return; }
    for (;d;d=d->more){ put(o,d->error); putv(o,d->vector); putm(o,d->matrix); putv(o,d->weights);
        for (size_t i=0;i<d->textsize[0];i++) for (size_t j=0;j<d->textsize[1];j++) puts_(o,d->text[i][j]);
        if (d->names){ for (int i=0;i<d->names->colct;i++) puts_(o,d->names->col[i]); for (int i=0;i<d->names->rowct;i++) puts_(o,d->names->row[i]); for (int i=0;i<d->names->textct;i++) puts_(o,d->names->text[i]); puts_(o,d->names->title); puts_(o,d->names->vector); } }
}
static void putmod(tres *o,const apop_model *m){ if (!m){ put(o,-78); return; } put(o,m->error); putd(o,m->parameters); putd(o,m->info); }
static apop_data *rdata(S *s,int vec,int rows,int cols){ apop_data *d=apop_data_alloc(vec?rows:0,rows,cols); if (vec) for (int i=0;i<rows;i++) gsl_vector_set(d->vector,i,N01(s)); for (int i=0;i<rows;i++) for (int j=0;j<cols;j++) gsl_matrix_set(d->matrix,i,j,N01(s)); return d; }
static apop_data *rpos(S *s,int rows){ apop_data *d=apop_data_alloc(rows,1); for (int i=0;i<rows;i++) gsl_matrix_set(d->matrix,i,0,0.05+3*U(s)); return d; }
static apop_data *rint_(S *s,int rows,int lo,int n){ apop_data *d=apop_data_alloc(rows,1); for (int i=0;i<rows;i++) gsl_matrix_set(d->matrix,i,0,lo+I(s,n)); return d; }
static apop_data *r01(S *s,int rows){ apop_data *d=apop_data_alloc(rows,1); for (int i=0;i<rows;i++) gsl_matrix_set(d->matrix,i,0,0.02+0.96*U(s)); return d; }
static void rnames(S *s,apop_data *d){ char b[40]; for (size_t j=0;d->matrix&&j<d->matrix->size2;j++){ sprintf(b,"c%d_%zu",I(s,9),j); apop_name_add(d->names,b,'c'); } if (d->vector) apop_name_add(d->names,"dep",'v'); apop_name_add(d->names,"the title",'h'); for (size_t i=0;d->matrix&&i<d->matrix->size1;i++){ sprintf(b,"row%zu",i); apop_name_add(d->names,b,'r'); } }

/* ---- regressions ---- */
static apop_data *regdata(S *s,int n,int k){ apop_data *d=rdata(s,1,n,k); for (int i=0;i<n;i++){ gsl_matrix_set(d->matrix,i,0,1); double y=0.3*gsl_vector_get(d->vector,i)+1.5; for (int j=1;j<k;j++) y+=(j+0.5)*gsl_matrix_get(d->matrix,i,j); gsl_vector_set(d->vector,i,y);} rnames(s,d); return d; }
static void t_ols(uint64_t s,tres *o){ int n=8+I(&s,12),k=2+I(&s,3); apop_data *d=regdata(&s,n,k); int w=I(&s,3);
    if (w){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,0.5+U(&s)); }
    apop_model *m=apop_estimate(d,apop_ols); putmod(o,m);
    apop_data *p=apop_predict(rdata(&s,0,3,k),m); putd(o,p);
    put(o,apop_log_likelihood(d,m)); put(o,apop_p(d,m));
    apop_data *r2=apop_estimate_coefficient_of_determination(m); putd(o,r2);
    if (I(&s,2)) { apop_data *f=apop_f_test(m); putd(o,f); apop_data_free(f); }
    else { apop_data *c=apop_data_alloc(1,1,k); gsl_vector_set(c->vector,0,0); gsl_matrix_set_zero(c->matrix); gsl_matrix_set(c->matrix,0,k-1,1); apop_data *f=apop_f_test(m,c); putd(o,f); apop_data_free(f); apop_data_free(c); }
    apop_data_free(r2); apop_model_free(m); apop_data_free(d); }
static void t_iv(uint64_t s,tres *o){ int n=10+I(&s,8); apop_data *d=regdata(&s,n,3); apop_data *z=apop_data_alloc(n,1); for (int i=0;i<n;i++) gsl_matrix_set(z->matrix,i,0,gsl_matrix_get(d->matrix,i,1)+0.1*N01(&s)); apop_name_add(z->names,d->names->col[1],'c');
    apop_model *m=apop_model_copy(apop_iv); Apop_settings_add_group(m,apop_lm,.instruments=z); apop_model *e=apop_estimate(d,m); putmod(o,e); apop_model_free(e); apop_data_free(d); }
static void t_logit(uint64_t s,tres *o){ int n=14+I(&s,8),k=2, cats=2+I(&s,2); apop_data *d=rdata(&s,0,n,k+1); apop_data *dd=apop_data_alloc(n,n,k); for (int i=0;i<n;i++){ double x=gsl_matrix_get(d->matrix,i,0); gsl_vector_set(dd->vector,i,(i<cats)?i:((int)(fabs(x+N01(&s))*1.3))%cats); gsl_matrix_set(dd->matrix,i,0,1); gsl_matrix_set(dd->matrix,i,1,x);} 
    apop_name_add(dd->names,"y",'v'); apop_name_add(dd->names,"1",'c'); apop_name_add(dd->names,"x",'c');
    apop_data_to_factors(dd,.intype='d',.incol=-1,.outcol=-1);
    apop_model *m=apop_model_copy(I(&s,2)?apop_logit:apop_probit); Apop_settings_add_group(m,apop_parts_wanted); Apop_settings_add_group(m,apop_mle,.tolerance=1e-2,.max_iterations=4);
    apop_model *e=apop_estimate(dd,m); put(o,e->error); putd(o,e->parameters); put(o,apop_log_likelihood(dd,e));
    apop_data *p=apop_predict(dd,e); putd(o,p);
    apop_model_free(e); apop_model_free(m); apop_data_free(dd); apop_data_free(d); }
static void t_probit_ll(uint64_t s,tres *o){ int n=6+I(&s,8); apop_data *dd=apop_data_alloc(n,n,2); for (int i=0;i<n;i++){ gsl_vector_set(dd->vector,i,i<2?i:I(&s,2)); gsl_matrix_set(dd->matrix,i,0,1); gsl_matrix_set(dd->matrix,i,1,N01(&s)); }
    apop_data_to_factors(dd,.intype='d',.incol=-1,.outcol=-1);
    int lg=I(&s,2); apop_model *m=apop_model_copy(lg?apop_logit:apop_probit); apop_prep(dd,m); for (size_t i=0;i<m->parameters->matrix->size1;i++) for (size_t j=0;j<m->parameters->matrix->size2;j++) gsl_matrix_set(m->parameters->matrix,i,j,0.5*N01(&s));
    put(o,apop_log_likelihood(dd,m)); gsl_vector *g=gsl_vector_alloc(m->parameters->matrix->size1*m->parameters->matrix->size2); gsl_vector_set_zero(g); apop_score(dd,g,m); putv(o,g); gsl_vector_free(g);
    put(o,apop_log_likelihood(dd,m)); apop_model_free(m); apop_data_free(dd); }

/* ---- distributions ---- */
enum { D_N,D_LN,D_G,D_E,D_P,D_B,D_U,D_T,D_BERN,D_YULE,D_ZIPF,D_BINOM,D_CT };
static apop_model *dist(S *s,int w,apop_data **d,int n){
    double a=0.5+2*U(s), b=0.5+U(s);
    switch(w){
        case D_N: *d=rdata(s,0,n,1); return apop_model_set_parameters(apop_normal,a-1,b);
        case D_LN: *d=rpos(s,n); return apop_model_set_parameters(apop_lognormal,a-1,b);
        case D_G: *d=rpos(s,n); return apop_model_set_parameters(apop_gamma,a,b);
        case D_E: *d=rpos(s,n); return apop_model_set_parameters(apop_exponential,a);
        case D_P: *d=rint_(s,n,0,6); return apop_model_set_parameters(apop_poisson,a);
        case D_B: *d=r01(s,n); return apop_model_set_parameters(apop_beta,a,b);
        case D_U: *d=r01(s,n); return apop_model_set_parameters(apop_uniform,-0.5*U(s),1+U(s));
        case D_T: *d=rdata(s,0,n,1); return apop_model_set_parameters(apop_t_distribution,0.1,b,3+I(s,5));
        case D_BERN: *d=rint_(s,n,0,2); return apop_model_set_parameters(apop_bernoulli,0.1+0.8*U(s));
        case D_YULE: *d=rint_(s,n,1,6); return apop_model_set_parameters(apop_yule,1.2+U(s));
        case D_ZIPF: *d=rint_(s,n,1,6); return apop_model_set_parameters(apop_zipf,1.2+U(s));
        case D_BINOM: { *d=apop_data_alloc(n,2); for (int i=0;i<n;i++){ int k=I(s,5); gsl_matrix_set((*d)->matrix,i,0,k); gsl_matrix_set((*d)->matrix,i,1,4-k);} return apop_model_set_parameters(apop_binomial,4,0.2+0.6*U(s)); }
    } return NULL; }
static void t_dist_ll(uint64_t s,tres *o){ for (int k=0;k<2;k++){ apop_data *d; int w=I(&s,D_CT); apop_model *m=dist(&s,w,&d,1+I(&s,9)); put(o,w); put(o,apop_log_likelihood(d,m)); put(o,apop_p(d,m));
        gsl_vector *g=gsl_vector_calloc(m->parameters->vector->size); if (w!=D_BINOM&&w!=D_U){ apop_score(d,g,m); putv(o,g);} gsl_vector_free(g);
        if (m->constraint){ put(o,m->constraint(d,m)); gsl_vector_set(m->parameters->vector,0,-1-U(&s)); put(o,m->constraint(d,m)); putd(o,m->parameters); put(o,m->constraint(d,m)); }
        apop_model_free(m); apop_data_free(d); } }
static void t_dist_cdf(uint64_t s,tres *o){ static const int w[]={D_N,D_LN,D_G,D_E,D_P,D_B,D_U,D_BERN}; for (int k=0;k<3;k++){ apop_data *d; int q=w[I(&s,8)]; apop_model *m=dist(&s,q,&d,1); put(o,q); if (m->cdf) put(o,apop_cdf(d,m)); apop_model_free(m); apop_data_free(d); } }
static void t_dist_est(uint64_t s,tres *o){ static const int w[]={D_N,D_LN,D_E,D_P,D_U,D_BERN}; apop_data *d; int q=w[I(&s,6)]; apop_model *m=dist(&s,q,&d,3+I(&s,9)); apop_model *base[]={apop_normal,apop_lognormal,apop_exponential,apop_poisson,apop_uniform,apop_bernoulli}; int ix=0; while (w[ix]!=q) ix++;
    apop_model *bc=apop_model_copy(base[ix]); if (q==D_P) Apop_settings_add_group(bc,apop_parts_wanted); /* otherwise a bootstrap off the thread's generator */ apop_model *e=apop_estimate(d,bc); apop_model_free(bc); put(o,q); putmod(o,e); put(o,apop_log_likelihood(d,e)); apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static void t_multi(uint64_t s,tres *o){ int k=2+I(&s,2);
    apop_model *m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_alloc(k,k,k); for (int i=0;i<k;i++){ gsl_vector_set(m->parameters->vector,i,N01(&s)); for (int j=0;j<k;j++) gsl_matrix_set(m->parameters->matrix,i,j,i==j?1.5+U(&s):0.2); } m->dsize=k;
    apop_data *d=rdata(&s,0,2+I(&s,5),k); put(o,apop_log_likelihood(d,m)); apop_model *e=apop_estimate(d,apop_multivariate_normal); putd(o,e->parameters);
    gsl_rng *r=rng_of(1+I(&s,1000)); double b[8]={0}; apop_draw(b,r,m); for (int i=0;i<k;i++) put(o,b[i]);
    apop_model *di=apop_model_copy(apop_dirichlet); di->parameters=apop_data_alloc(k); for (int i=0;i<k;i++) gsl_vector_set(di->parameters->vector,i,0.5+2*U(&s)); di->dsize=k; apop_data *dd=apop_data_alloc(2,k); for (int i=0;i<2;i++){ double t=0; for (int j=0;j<k;j++){ double x=0.1+U(&s); gsl_matrix_set(dd->matrix,i,j,x); t+=x; } for (int j=0;j<k;j++) gsl_matrix_set(dd->matrix,i,j,gsl_matrix_get(dd->matrix,i,j)/t); }
    put(o,apop_log_likelihood(dd,di)); apop_draw(b,r,di); for (int i=0;i<k;i++) put(o,b[i]);
    put(o,apop_multivariate_gamma(3.5,k)); put(o,apop_multivariate_lngamma(4.5,k));
    gsl_rng_free(r); apop_model_free(m); apop_model_free(e); apop_model_free(di); apop_data_free(d); apop_data_free(dd); }
static void t_multinom(uint64_t s,tres *o){ int k=3; apop_model *m=apop_model_copy(apop_multinomial); m->parameters=apop_data_alloc(k); gsl_vector_set(m->parameters->vector,0,5); double p=0.2+0.2*U(&s); gsl_vector_set(m->parameters->vector,1,p); gsl_vector_set(m->parameters->vector,2,0.3); m->dsize=k;
    apop_data *d=apop_data_alloc(2,k); for (int i=0;i<2;i++){ int a=I(&s,4); gsl_matrix_set(d->matrix,i,0,a); gsl_matrix_set(d->matrix,i,1,1); gsl_matrix_set(d->matrix,i,2,4-a); }
    put(o,apop_log_likelihood(d,m)); putd(o,m->parameters); gsl_rng *r=rng_of(1+I(&s,99)); double b[8]={0}; for (int q=0;q<3;q++){ put(o,apop_draw(b,r,m)); for (int i=0;i<k;i++) put(o,b[i]); } putd(o,m->parameters);
    apop_model *e=apop_estimate(d,apop_multinomial); putd(o,e->parameters); apop_model_free(e);
    put(o,m->constraint?m->constraint(d,m):0); gsl_vector_set(m->parameters->vector,1,-0.3); put(o,m->constraint?m->constraint(d,m):0); putd(o,m->parameters);
    gsl_rng_free(r); apop_model_free(m); apop_data_free(d); }
static void t_draws(uint64_t s,tres *o){ gsl_rng *r=rng_of(1+I(&s,5000)); for (int k=0;k<3;k++){ apop_data *d; int w=I(&s,D_CT); apop_model *m=dist(&s,w,&d,1); double b[4]={0}; put(o,w); for (int q=0;q<3;q++){ put(o,apop_draw(b,r,m)); put(o,b[0]); } apop_model_free(m); apop_data_free(d);} double a[3]={1.5,2,1.3}; put(o,apop_rng_GHgB3(r,a)); gsl_rng_free(r); }

/* ---- derivatives and searches ---- */
static void t_gradient(uint64_t s,tres *o){ apop_data *d; static const int w[]={D_N,D_G,D_E,D_P,D_B}; apop_model *m=dist(&s,w[I(&s,5)],&d,4+I(&s,4)); gsl_vector *g=apop_numerical_gradient(d,m); putv(o,g); gsl_vector_free(g);
    apop_data *h=apop_model_hessian(d,m,1e-2); putd(o,h); apop_data_free(h); apop_data *c=apop_model_numerical_covariance(d,m,1e-2); putd(o,c); /* c is now a page of the parameters */ apop_model_free(m); apop_data_free(d); }
static void t_mle(uint64_t s,tres *o){ static const char *me[]={"NM simplex","FR cg","BFGS cg","PR cg","Newton","Newton hybrid","Newton hybrid no scale"}; static const int w[]={D_N,D_G,D_E,D_B}; apop_model *base[]={apop_normal,apop_gamma,apop_exponential,apop_beta}; int q=I(&s,4), mi=I(&s,7); if (q==3&&mi>3) q=0; /* root searches know no constraints, and GSL's lnbeta halts on negatives */ apop_data *d; apop_model *m=dist(&s,w[q],&d,6+I(&s,6)); apop_model *b=apop_model_copy(base[q]); b->estimate=NULL; double st[2]={1.2,0.8};
    Apop_settings_add_group(b,apop_parts_wanted); Apop_settings_add_group(b,apop_mle,.method=(char*)me[mi],.starting_pt=st,.tolerance=1e-3,.max_iterations=12,.step_size=0.1);
    apop_model *e=apop_estimate(d,b); put(o,e->error); putd(o,e->parameters); putd(o,e->info); if (I(&s,3)==0 && apop_data_get(e->info,.rowname="status")==0){ e=apop_estimate_restart(e); putd(o,e->parameters); }
    apop_model_free(e); apop_model_free(b); apop_model_free(m); apop_data_free(d); }
static void t_anneal(uint64_t s,tres *o){ apop_data *d; apop_model *m=dist(&s,D_N,&d,5); apop_model *b=apop_model_copy(apop_normal); b->estimate=NULL; gsl_rng *r=rng_of(5+I(&s,99)); double st[2]={0.3,1.1}; Apop_settings_add_group(b,apop_parts_wanted); Apop_settings_add_group(b,apop_mle,.method="annealing",.starting_pt=st,.rng=r,.n_tries=3,.iters_fixed_T=3,.t_initial=2,.mu_t=2,.t_min=0.5,.k=1,.step_size=0.3); apop_model *e=apop_estimate(d,b); putd(o,e->parameters); gsl_rng_free(r); apop_model_free(e); apop_model_free(b); apop_model_free(m); apop_data_free(d); }
static void t_path(uint64_t s,tres *o){ apop_data *d; apop_model *m=dist(&s,D_N,&d,6); apop_model *b=apop_model_copy(apop_normal); b->estimate=NULL; double st[2]={0.1,1.5}; apop_data *path=NULL; Apop_settings_add_group(b,apop_parts_wanted,.covariance='y'); Apop_settings_add_group(b,apop_mle,.method="NM simplex",.starting_pt=st,.tolerance=1e-2,.max_iterations=8,.step_size=0.1,.path=&path); apop_model *e=apop_estimate(d,b); putmod(o,e); putd(o,path); apop_data_free(path); apop_model_free(e); apop_model_free(b); apop_model_free(m); apop_data_free(d); }
static void t_constraint(uint64_t s,tres *o){ for (int q=0;q<3;q++){ int k=2+I(&s,2), nc=1+I(&s,3); gsl_vector *b=gsl_vector_alloc(k); for (int i=0;i<k;i++) gsl_vector_set(b,i,4*N01(&s)); 
        if (I(&s,4)==0){ put(o,apop_linear_constraint(b,.margin=1e-3)); }
        else { apop_data *c=apop_data_alloc(nc,nc,k); for (int i=0;i<nc;i++){ gsl_vector_set(c->vector,i,2*N01(&s)); for (int j=0;j<k;j++) gsl_matrix_set(c->matrix,i,j,N01(&s)); } put(o,apop_linear_constraint(b,c,I(&s,2)?0:1e-2)); apop_data_free(c); }
        putv(o,b); gsl_vector_free(b); } }

/* ---- data handling ---- */
static void t_sort(uint64_t s,tres *o){ int n=2+I(&s,10),k=1+I(&s,3); apop_data *d=rdata(&s,I(&s,2),n,k); for (int i=0;i<n;i++) for (int j=0;j<k;j++) gsl_matrix_set(d->matrix,i,j,I(&s,4)); rnames(&s,d); if (I(&s,2)){ apop_text_alloc(d,n,1); for (int i=0;i<n;i++) apop_text_set(d,i,0,"%c%d",'a'+I(&s,3),I(&s,3)); }
    if (I(&s,2)){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,i); }
    if (I(&s,2)){ // by text columns and row names first
        int tc=1+I(&s,2); apop_text_alloc(d,n,tc); for (int i=0;i<n;i++) for (int j=0;j<tc;j++) apop_text_set(d,i,j,"%c%d",(I(&s,2)?'a':'A')+I(&s,3),I(&s,2));
        apop_data *so=apop_data_alloc(d->vector?1:0,1,k); int r=0; if (d->vector) gsl_vector_set(so->vector,0,I(&s,2)?GSL_NAN:5); for (int j=0;j<k;j++) gsl_matrix_set(so->matrix,0,j,I(&s,2)?GSL_NAN:6+j);
        apop_text_alloc(so,1,tc); for (int j=0;j<tc;j++) if (I(&s,4)) apop_text_set(so,0,j,"%d",I(&s,2)?3-j:1+j); else apop_text_set(so,0,j,"NaN"); if (I(&s,2)) apop_name_add(so->names,I(&s,2)?"1.5":"9",'r'); (void)r;
        apop_data *q=apop_data_sort(d,so,.inplace=I(&s,2)?'n':'y',.asc=I(&s,3)?'a':'d'); putd(o,q); if (q!=d) apop_data_free(q); putd(o,d); apop_data_free(so); }
    switch(I(&s,3)){ case 0: apop_data_sort(d,.asc=I(&s,2)?'a':'d'); putd(o,d); break;
        case 1: { apop_data *so=apop_data_alloc(1,1,k); so->matrix->data[0]=1; apop_data_free(so); so=apop_data_alloc(0,1,k); for (int j=0;j<k;j++) gsl_matrix_set(so->matrix,0,j,k-j); apop_data *q=apop_data_sort(d,so,.inplace='n'); putd(o,q); putd(o,d); apop_data_free(q); apop_data_free(so); break; }
        case 2: { double c[]={0}; apop_data *q=apop_data_sort(d,.col_order=NULL,.inplace='n',.asc='d'); putd(o,q); apop_data_free(q); (void)c; } }
    double *p=apop_vector_percentiles(Apop_cv(d,0)); for (int i=0;i<=100;i+=10) put(o,p[i]); free(p); apop_data_free(d); }
static void t_fisher(uint64_t s,tres *o){ int r=2+I(&s,2),c=2+I(&s,2); apop_data *d=apop_data_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,I(&s,5)+(i==j)); apop_data *t=apop_test_fisher_exact(d); putd(o,t); apop_data_free(t); apop_data_free(d); }
static void t_tests(uint64_t s,tres *o){ int n=4+I(&s,6); apop_data *d=rdata(&s,0,n,2); apop_data *t=apop_t_test(Apop_cv(d,0),Apop_cv(d,1)); putd(o,t); apop_data_free(t); t=apop_paired_t_test(Apop_cv(d,0),Apop_cv(d,1)); putd(o,t); apop_data_free(t);
    apop_data *e=apop_data_alloc(3,3); for (int i=0;i<9;i++) e->matrix->data[i]=1+I(&s,8); t=apop_test_anova_independence(e); putd(o,t); apop_data_free(t); apop_data_free(e); put(o,apop_test(1.3,"normal",0,1)); put(o,apop_test(1.3,"chi squared",3)); put(o,apop_test(1.3,"t",5)); put(o,apop_test(2.3,"f",5,2)); apop_data_free(d); }
static apop_data *rtab(S *s,int n){ apop_data *d=apop_data_alloc(n,1); for (int i=0;i<n;i++) gsl_matrix_set(d->matrix,i,0,I(s,5)); return d; }
static void t_kolmogorov(uint64_t s,tres *o){ apop_data *a=rtab(&s,8+I(&s,8)),*b=rtab(&s,8+I(&s,8)); apop_data_pmf_compress(a); apop_data_pmf_compress(b); apop_vector_normalize(a->weights); apop_vector_normalize(b->weights); apop_model *m1=apop_estimate(a,apop_pmf),*m2=apop_estimate(b,apop_pmf);
    apop_data *g=apop_histograms_test_goodness_of_fit(m1,m2); putd(o,g); apop_data_free(g);
    apop_data *c=apop_data_alloc(6,1); c->weights=gsl_vector_alloc(6); apop_data *c2=apop_data_alloc(6,1); c2->weights=gsl_vector_alloc(6); for (int i=0;i<6;i++){ apop_data_set(c,i,0,i); apop_data_set(c2,i,0,i); gsl_vector_set(c->weights,i,1+I(&s,5)); gsl_vector_set(c2->weights,i,1+I(&s,5)); } apop_vector_normalize(c->weights); apop_vector_normalize(c2->weights);
    apop_model *p1=apop_estimate(c,apop_pmf),*p2=apop_estimate(c2,apop_pmf); g=apop_test_kolmogorov(p1,p2); putd(o,g); apop_data_free(g); g=apop_test_kolmogorov(p1,apop_model_set_parameters(apop_normal,3,2)); putd(o,g);
    apop_model_free(m1); apop_model_free(m2); apop_model_free(p1); apop_model_free(p2); }
static void t_summary(uint64_t s,tres *o){ int n=3+I(&s,9),k=1+I(&s,3); apop_data *d=rdata(&s,0,n,k); if (I(&s,2)) rnames(&s,d); if (I(&s,2)){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,1+I(&s,3)); }
    apop_data *q=apop_data_summarize(d); putd(o,q); apop_data_free(q); q=apop_data_covariance(d); putd(o,q); apop_data_free(q); q=apop_data_correlation(d); putd(o,q); apop_data_free(q); gsl_vector *v=Apop_cv(d,0);
    put(o,apop_vector_mean(v,d->weights)); put(o,apop_vector_var(v,d->weights)); put(o,apop_vector_skew(v)); put(o,apop_vector_kurtosis(v)); put(o,apop_vector_skew_pop(v,d->weights)); put(o,apop_vector_kurtosis_pop(v,d->weights)); put(o,apop_matrix_sum(d->matrix)); put(o,apop_matrix_mean(d->matrix)); double a,b; apop_matrix_mean_and_var(d->matrix,&a,&b); put(o,a); put(o,b); put(o,apop_vector_distance(v,Apop_cv(d,k-1),'m')); put(o,apop_vector_distance(v,Apop_cv(d,k-1),.metric='l',.norm=3)); put(o,apop_vector_distance(v,Apop_cv(d,k-1),.metric='s'));
    gsl_vector *ma=apop_vector_moving_average(v,3); putv(o,ma); if(ma) gsl_vector_free(ma); gsl_vector *nv=NULL; apop_vector_normalize(v,&nv,'s'); putv(o,nv); gsl_vector_free(nv); apop_vector_normalize(v,&nv,'r'); putv(o,nv); gsl_vector_free(nv); apop_data_free(d); }
static void t_factors(uint64_t s,tres *o){ int n=4+I(&s,8); apop_data *d=rdata(&s,1,n,2); apop_text_alloc(d,n,2); for (int i=0;i<n;i++) for (int j=0;j<2;j++) apop_text_set(d,i,j,"%c",'a'+I(&s,4)); for (int i=0;i<n;i++) gsl_matrix_set(d->matrix,i,0,I(&s,3)); rnames(&s,d); apop_name_add(d->names,"ta",'t'); apop_name_add(d->names,"tb",'t');
    apop_data *u=apop_text_unique_elements(d,1); putd(o,u); apop_data_free(u); gsl_vector *uv=apop_vector_unique_elements(Apop_cv(d,0)); putv(o,uv); gsl_vector_free(uv);
    apop_data *du=apop_data_to_dummies(d,.col=0,.type='t',.keep_first=I(&s,2)?'y':'n'); putd(o,du); apop_data_free(du); du=apop_data_to_dummies(d,.col=0,.type='d'); putd(o,du); apop_data_free(du);
    apop_data_to_factors(d,.intype='t',.incol=1,.outcol=1); putd(o,d); apop_data *f=apop_data_get_factor_names(d,1,'t'); putd(o,f); apop_data_free(d); }
static void t_pmf(uint64_t s,tres *o){ apop_data *d=rtab(&s,4+I(&s,9)); apop_data_pmf_compress(d); putd(o,d); apop_model *m=apop_estimate(d,apop_pmf); apop_data *x=apop_data_alloc(1,1); for (int i=0;i<5;i++){ apop_data_set(x,0,0,i); put(o,apop_p(x,m)); put(o,apop_cdf(x,m)); } gsl_rng *r=rng_of(3+I(&s,500)); double b[3]={0}; for (int i=0;i<6;i++){ put(o,apop_draw(b,r,m)); put(o,b[0]); }
    apop_data *c=rdata(&s,0,10,1+I(&s,2)); apop_data *bin=apop_data_to_bins(c,.bin_count=3); putd(o,bin); apop_data_free(bin); apop_data_free(c); gsl_rng_free(r); apop_model_free(m); apop_data_free(d); apop_data_free(x); }
static void t_kl(uint64_t s,tres *o){ int n=3+I(&s,5); apop_data *a=apop_data_alloc(n,1),*b=apop_data_alloc(n,1); a->weights=gsl_vector_alloc(n); b->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++){ apop_data_set(a,i,0,i); apop_data_set(b,i,0,i); gsl_vector_set(a->weights,i,1+I(&s,5)); gsl_vector_set(b->weights,i,1+I(&s,5)); } apop_model *p=apop_estimate(a,apop_pmf),*q=apop_estimate(b,apop_pmf); put(o,apop_kl_divergence(p,q)); put(o,apop_vector_entropy(a->weights)); put(o,apop_model_entropy(apop_model_set_parameters(apop_normal,1,2))); 
    gsl_rng *r=rng_of(3+I(&s,500)); apop_model *n1=apop_model_set_parameters(apop_normal,0,1),*n2=apop_model_set_parameters(apop_normal,0.5,1.5); put(o,apop_kl_divergence(n1,n2,.draw_ct=20,.rng=r)); gsl_rng_free(r); apop_model_free(p); apop_model_free(q); apop_model_free(n1); apop_model_free(n2); apop_data_free(a); apop_data_free(b); }
static void t_linalg(uint64_t s,tres *o){ int k=2+I(&s,3); apop_data *d=rdata(&s,1,k,k); for (int i=0;i<k;i++) *gsl_matrix_ptr(d->matrix,i,i)+=4; gsl_matrix *inv=NULL; put(o,apop_det_and_inv(d->matrix,&inv,1,1)); putm(o,inv); gsl_matrix_free(inv); put(o,apop_matrix_determinant(d->matrix)); inv=apop_matrix_inverse(d->matrix); putm(o,inv); gsl_matrix_free(inv); apop_data *e=rdata(&s,1,k,k); apop_data *p=apop_dot(d,e); putd(o,p); apop_data_free(p); p=apop_dot(d,e,'t'); putd(o,p); apop_data_free(p); p=apop_dot(d,e,.form2='v'); putd(o,p); apop_data_free(p); apop_data *x=rdata(&s,0,6,k); p=apop_matrix_pca(x->matrix,2); putd(o,p); apop_data_free(p); apop_data_free(x); put(o,apop_matrix_is_positive_semidefinite(d->matrix)); gsl_matrix *sg=apop_matrix_copy(d->matrix); put(o,apop_matrix_to_positive_semidefinite(sg)); putm(o,sg); gsl_matrix_free(sg);
    apop_vector_exp(d->vector); putv(o,d->vector); apop_vector_log(d->vector); putv(o,d->vector); put(o,apop_vector_bounded(d->vector,3)); apop_data_free(d); apop_data_free(e); }
static void t_surgery(uint64_t s,tres *o){ int n=2+I(&s,5),k=1+I(&s,4); apop_data *d=rdata(&s,1,n,k); rnames(&s,d); apop_text_alloc(d,n,2); for (int i=0;i<n;i++) for (int j=0;j<2;j++) apop_text_set(d,i,j,"t%d",I(&s,50)); apop_name_add(d->names,"tx",'t'); apop_data *pg=rdata(&s,0,1,2); apop_data_add_page(d,pg,"page two"); putd(o,apop_data_get_page(d,"page two"));
    apop_data *t=apop_data_transpose(d,.inplace='n'); putd(o,t); apop_data_free(t); apop_data *c=apop_data_copy(d); putd(o,c); apop_data *st=apop_data_stack(d,c,'r'); putd(o,st); apop_data **sp=apop_data_split(st,n,'r'); putd(o,sp[0]); putd(o,sp[1]); apop_data_free(sp[0]); apop_data_free(sp[1]); free(sp); apop_data_free(st); st=apop_data_stack(d,c,'c'); putd(o,st); apop_data_free(st);
    gsl_vector *pk=apop_data_pack(d); putv(o,pk); gsl_vector_scale(pk,2); apop_data_unpack(pk,c); putd(o,c); gsl_vector_free(pk); int drop[20]={0}; drop[I(&s,n)]=1; if (n>1) apop_data_rm_rows(c,drop); putd(o,c); int dc[8]={0}; if (k>1){ dc[k-1]=1; apop_data_rm_columns(c,dc); } putd(o,c); put(o,apop_data_get(d,.row=0,.colname=d->names->col[0])); put(o,apop_name_find(d->names,"row1",'r')); apop_data_add_named_elmt(pg,"foo",2); apop_data_rm_page(d,"page two"); putd(o,d); apop_data_free(c); apop_data_free(d); }
static void t_rank(uint64_t s,tres *o){ int n=3+I(&s,5); apop_data *d=apop_data_alloc(n,1); for (int i=0;i<n;i++) apop_data_set(d,i,0,I(&s,3)+1); apop_data *c=apop_data_rank_compress(d,.min_bins=6); putd(o,c); apop_data *e=apop_data_alloc(3,1+0); for (int i=0;i<3;i++) apop_data_set(e,i,0,1+I(&s,4)); apop_data *x=apop_data_rank_expand(e); putd(o,x); if (x) apop_data_free(x); apop_data_free(e); if (c) apop_data_free(c); apop_data_free(d);
    gsl_matrix *m=gsl_matrix_alloc(3,2); for (int i=0;i<6;i++) m->data[i]=i; m=apop_matrix_realloc(m,5,4); for (int i=3;i<5;i++) for (int j=0;j<4;j++) gsl_matrix_set(m,i,j,1); for (int i=0;i<3;i++) for (int j=2;j<4;j++) gsl_matrix_set(m,i,j,2); putm(o,m); m=apop_matrix_realloc(m,2,2); putm(o,m); gsl_matrix_free(m); gsl_vector *v=gsl_vector_calloc(3); v=apop_vector_realloc(v,6); for (int i=3;i<6;i++) gsl_vector_set(v,i,i); putv(o,v); gsl_vector_free(v); }
static void t_missing(uint64_t s,tres *o){ int n=5+I(&s,5); apop_data *d=rdata(&s,0,n,2); for (int i=0;i<n;i++) if (I(&s,4)==0) gsl_matrix_set(d->matrix,i,I(&s,2),GSL_NAN); apop_data *l=apop_data_listwise_delete(d); putd(o,l); if (l) apop_data_free(l); apop_data_free(d); }
static void t_impute(uint64_t s,tres *o){ apop_data *d=rdata(&s,0,4,2); gsl_matrix_set(d->matrix,1+I(&s,2),I(&s,2),GSL_NAN); apop_model *mvn=apop_model_copy(apop_multivariate_normal); mvn->parameters=apop_data_falloc((2,2,2),0,1,.2,0,.2,1); mvn->dsize=2; Apop_settings_add_group(mvn,apop_mle,.method="NM simplex",.max_iterations=15,.tolerance=1e-2); apop_model *m=apop_ml_impute(d,mvn); put(o,m?m->error:-1); putd(o,d); }

/* ---- model transformations ---- */
static void t_fix(uint64_t s,tres *o){ apop_data *d; apop_model *x=dist(&s,D_N,&d,7); apop_model *m=apop_model_set_parameters(apop_normal,NAN,1+U(&s)); m->estimate=NULL; Apop_settings_add_group(m,apop_mle,.method="NM simplex",.tolerance=1e-2,.max_iterations=10); Apop_settings_add_group(m,apop_parts_wanted);
    apop_model *f=apop_model_fix_params(m); if (!f->parameters) apop_prep(d,f); gsl_vector_set(f->parameters->vector,0,0.4); put(o,apop_log_likelihood(d,f)); apop_model *e=apop_estimate(d,f); putd(o,e->parameters); apop_model *b=apop_model_fix_params_get_base(e); putd(o,b->parameters); apop_model_free(x); apop_data_free(d); }
static double over_zero(apop_data *in, apop_model *m){ return apop_data_get(in)>-0.5; }
static double half(apop_model *m){ return 0.7; }
static void t_dcon(uint64_t s,tres *o){ apop_data *d=rpos(&s,4); apop_model *base=apop_model_set_parameters(apop_normal,0.5*U(&s),1+U(&s)); apop_model *m=apop_model_dconstrain(.base_model=base,.constraint=over_zero,.scaling=half); apop_prep(d,m); put(o,apop_log_likelihood(d,m)); gsl_rng *r=rng_of(1+I(&s,99)); double b; for (int i=0;i<4;i++){ apop_draw(&b,r,m); put(o,b);} gsl_vector_set(m->parameters->vector,0,0.9); put(o,apop_log_likelihood(d,m));
    apop_model *b2=apop_model_set_parameters(apop_normal,0.2,1); apop_model *m2=apop_model_dconstrain(.base_model=b2,.constraint=over_zero,.rng=r,.draw_ct=20); apop_prep(d,m2); put(o,apop_log_likelihood(d,m2)); put(o,apop_log_likelihood(d,m2)); gsl_rng_free(r); apop_data_free(d); }
static apop_data *rev(apop_data *in){ return apop_map(in,.fn_d=log,.part='a'); }
static double inv_(double x){ return 1/x; }
static double jac(apop_data *in){ return apop_map_sum(in,inv_,.part='a'); }
static void t_ct(uint64_t s,tres *o){ apop_data *d=rpos(&s,1); apop_model *base=apop_model_set_parameters(apop_normal,0.2,1+U(&s)); apop_model *m=apop_model_coordinate_transform(.transformed_to_base=rev,.jacobian_to_base=jac,.base_model=base); apop_prep(d,m); put(o,apop_log_likelihood(d,m)); apop_data_free(d); }
static void t_cross(uint64_t s,tres *o){ apop_model *a=apop_model_set_parameters(apop_normal,0,1+U(&s)),*b=apop_model_set_parameters(apop_gamma,2,1+U(&s)); apop_model *c=apop_model_cross(a,b); apop_data *d=rpos(&s,3); put(o,apop_log_likelihood(d,c)); put(o,apop_p(d,c)); gsl_rng *r=rng_of(1+I(&s,999)); double dr[4]; for (int i=0;i<3;i++){ put(o,apop_draw(dr,r,c)); put(o,dr[0]); put(o,dr[1]); } gsl_rng_free(r);
    apop_data_free(d); d=apop_data_alloc(3); apop_data *d2=apop_data_alloc(4); for (int i=0;i<3;i++) gsl_vector_set(d->vector,i,N01(&s)); for (int i=0;i<4;i++) gsl_vector_set(d2->vector,i,0.1+U(&s)); apop_name_add(d2->names,"second",'h'); Apop_settings_set(c,apop_cross,splitpage,"second"); d->more=d2; put(o,apop_log_likelihood(d,c)); put(o,d->more==d2); apop_model *e=apop_estimate(d,c); putd(o,Apop_settings_get(e,apop_cross,model1)->parameters); apop_data_free(d); }
static void t_mix(uint64_t s,tres *o){ apop_model *m=apop_model_mixture(apop_model_set_parameters(apop_normal,-1,1),apop_model_set_parameters(apop_normal,2,0.5+U(&s)),apop_model_set_parameters(apop_normal,5,1)); apop_data *d=rdata(&s,0,6,1); apop_prep(d,m); put(o,apop_log_likelihood(d,m)); gsl_rng *r=rng_of(1+I(&s,999)); double dr; for (int i=0;i<5;i++){ put(o,apop_draw(&dr,r,m)); put(o,dr); } if (m->cdf){ apop_data *x=apop_data_alloc(1,1); apop_data_set(x,0,0,0.3); put(o,apop_cdf(x,m)); apop_data_free(x);} gsl_rng_free(r); 
    char *b=NULL; size_t n; FILE *f=open_memstream(&b,&n); apop_model_print(m,f); fclose(f); puts_(o,b); free(b); apop_data_free(d); }
static void t_mix_est(uint64_t s,tres *o){ apop_data *d=rdata(&s,0,10,1); for (int i=0;i<5;i++) *gsl_matrix_ptr(d->matrix,i,0)+=4; apop_model *m=apop_model_mixture(apop_model_set_parameters(apop_normal,0.2,1),apop_model_set_parameters(apop_normal,3,1)); Apop_settings_set(m,apop_mixture,find_weights,'y'); Apop_settings_add_group(m,apop_mle,.max_iterations=4,.tolerance=1e-2); apop_model *e=apop_estimate(d,m); putd(o,e->parameters); putv(o,Apop_settings_get(e,apop_mixture,weights)); apop_data_free(d); }
static void t_update(uint64_t s,tres *o){ apop_model *p; apop_data *d; apop_model *l; switch(I(&s,4)){ case 0: p=apop_model_set_parameters(apop_beta,1+U(&s),2); d=rint_(&s,6,0,2); l=apop_bernoulli; break; case 1: p=apop_model_set_parameters(apop_gamma,1+U(&s),2); d=rint_(&s,6,0,5); l=apop_poisson; break; case 2: p=apop_model_set_parameters(apop_normal,1+U(&s),2); d=rdata(&s,0,6,1); l=apop_model_set_parameters(apop_normal,0,1); break; default: p=apop_model_set_parameters(apop_gamma,1+U(&s),2); d=rpos(&s,6); l=apop_exponential; }
    apop_model *u=apop_update(d,p,l); put(o,u->error); putd(o,u->parameters); apop_model_free(u); apop_model_free(p); apop_data_free(d); }
static void t_update_draws(uint64_t s,tres *o){ apop_model *p=apop_model_copy(apop_uniform); p->parameters=apop_data_falloc((2),0.5,4); p->log_likelihood=NULL; p->p=NULL; p->dsize=1; gsl_rng *r=rng_of(7+I(&s,99)); Apop_settings_add_group(p,apop_mcmc,.periods=20); apop_data *d=rpos(&s,4); apop_model *l=apop_model_copy(apop_exponential); l->parameters=apop_data_alloc(1); apop_model *u=apop_update(d,p,l,r); put(o,u?u->error:-3); if (u) putd(o,u->data); gsl_rng_free(r); apop_data_free(d); }
static void t_mcmc(uint64_t s,tres *o){ apop_data *d=rpos(&s,5); gsl_rng *r=rng_of(9+I(&s,999)); apop_model *m=apop_model_copy(apop_normal); Apop_settings_add_group(m,apop_mcmc,.periods=30,.burnin=.2); apop_prep(d,m); m->parameters->vector->data[0]=1; m->parameters->vector->data[1]=1; apop_model *c=apop_model_metropolis(d,r,m); put(o,c?c->error:-3); if (c) putd(o,c->data); gsl_rng_free(r); apop_data_free(d); }
static void t_arms(uint64_t s,tres *o){ apop_model *m=apop_model_set_parameters(apop_normal,U(&s),1+U(&s)); apop_model *c=apop_model_copy(m); c->draw=NULL; Apop_settings_add_group(c,apop_arms,.model=c,.xl=-8,.xr=8); gsl_rng *r=rng_of(9+I(&s,999)); double b; for (int i=0;i<3;i++){ apop_arms_draw(&b,r,c); put(o,b);} gsl_rng_free(r); }
static void t_kernel(uint64_t s,tres *o){ apop_data *d=rdata(&s,0,4+I(&s,5),1); apop_model *k=apop_model_copy_set(apop_kernel_density,apop_kernel_density,.base_data=d); apop_data *x=apop_data_alloc(2,1); apop_data_set(x,0,0,0.2); apop_data_set(x,1,0,N01(&s)); put(o,apop_log_likelihood(x,k)); put(o,apop_p(x,k)); apop_data *y=apop_data_alloc(1,1); apop_data_set(y,0,0,0.3); put(o,apop_cdf(y,k)); gsl_rng *r=rng_of(9+I(&s,999)); double b; for (int i=0;i<3;i++){ put(o,apop_draw(&b,r,k)); put(o,b);} gsl_rng_free(r); apop_data_free(x); apop_data_free(y); apop_model *c=apop_model_copy(k); apop_model_free(k); apop_model_free(c); }
static void t_loess(uint64_t s,tres *o){ int n=9+I(&s,5); apop_data *d=apop_data_alloc(n,n,1); for (int i=0;i<n;i++){ double x=i+U(&s)*0.5; gsl_matrix_set(d->matrix,i,0,x); gsl_vector_set(d->vector,i,sin(x/3)+0.1*N01(&s)); } apop_model *m=apop_model_copy(apop_loess); Apop_settings_add_group(m,apop_loess,.data=d); if (I(&s,2)) Apop_settings_set(m,apop_loess,lo_s.model.degree,1); apop_model *e=apop_estimate(d,m); put(o,e->error); putd(o,e->info); double *fv=Apop_settings_get(e,apop_loess,lo_s.out.fitted_values); for (int i=0;i<n;i++) put(o,fv[i]); if (I(&s,3)){ if (I(&s,2)) Apop_settings_set(e,apop_loess,want_predict_ci,'y'); apop_data *pd=apop_data_alloc(4,2); for (int i=0;i<4;i++){ gsl_matrix_set(pd->matrix,i,0,0); gsl_matrix_set(pd->matrix,i,1,1+i*1.5+U(&s)); } apop_data *p=apop_predict(pd,e); putd(o,p); } }
static void t_parmod(uint64_t s,tres *o){ apop_data *d=regdata(&s,12,2); apop_model *m=apop_estimate(d,apop_ols); apop_model *copy=apop_model_copy(m); Apop_settings_add_group(copy,apop_pm,.index=I(&s,2)); apop_model *p=apop_parameter_model(d,copy); put(o,p?p->error:-1); if (p) putd(o,p->parameters); apop_data *nd=rdata(&s,0,8,1); apop_model *ne=apop_estimate(nd,apop_normal); gsl_rng *r=rng_of(3+I(&s,99)); Apop_settings_add_group(ne,apop_pm,.index=0,.rng=r,.draws=12); apop_model *np=apop_parameter_model(nd,ne); if (np) putd(o,np->parameters); gsl_rng_free(r); apop_model_free(m); }
static void t_boot(uint64_t s,tres *o){ apop_data *d=rdata(&s,0,6,1); gsl_rng *r=rng_of(11+I(&s,99)); apop_data *st=NULL; apop_data *c=apop_bootstrap_cov(d,apop_normal,r,.iterations=5,.boot_store=&st); putd(o,c); putd(o,st); apop_data *j=apop_jackknife_cov(d,apop_normal); putd(o,j); gsl_rng_free(r); apop_data_free(c); apop_data_free(j); apop_data_free(d); }
static void t_settings(uint64_t s,tres *o){ apop_model *m=apop_model_copy(apop_normal); for (int i=0;i<6;i++) switch(I(&s,6)){ case 0: Apop_settings_add_group(m,apop_mle,.tolerance=U(&s)); break; case 1: Apop_settings_add_group(m,apop_lm,.want_cov='n'); break; case 2: Apop_settings_add_group(m,apop_mcmc,.periods=I(&s,100)); break; case 3: apop_settings_remove_group(m,"apop_mle"); break; case 4: { apop_model *c=apop_model_copy(m); apop_model_free(m); m=c; break; } case 5: Apop_settings_add_group(m,apop_parts_wanted,.covariance='y'); }
    apop_mle_settings *q=Apop_settings_get_group(m,apop_mle); put(o,q?q->tolerance:-1); put(o,Apop_settings_get_group(m,apop_lm)!=NULL); put(o,Apop_settings_get_group(m,apop_mcmc)?Apop_settings_get(m,apop_mcmc,periods):-1); apop_model_free(m); }

static void t_distance(uint64_t s,tres *o){ for (int q=0;q<5;q++){ int n=1+I(&s,5); gsl_vector *a=gsl_vector_alloc(n),*b=gsl_vector_alloc(n); for (int i=0;i<n;i++){ gsl_vector_set(a,i,N01(&s)); gsl_vector_set(b,i,N01(&s)); } static const char m[]="emdsl"; char mt=m[I(&s,5)];
        if (I(&s,2)) put(o,apop_vector_distance(a)); else put(o,apop_vector_distance(a,.metric=mt)); put(o,apop_vector_distance(a,b,.metric=mt)); put(o,apop_vector_distance(a,b,'l',3)); put(o,apop_vector_distance(a,b)); gsl_vector_free(a); gsl_vector_free(b); } }
static void t_vstats(uint64_t s,tres *o){ int n=4+I(&s,6); apop_data *d=rdata(&s,0,n,2); gsl_vector *a=Apop_cv(d,0),*b=Apop_cv(d,1),*w=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(w,i,1+I(&s,3)); gsl_vector *uw=I(&s,2)?w:NULL;
    put(o,apop_vector_sum(a)); put(o,apop_vector_var_m(a,0.3)); put(o,apop_vector_cov(a,b,uw)); put(o,apop_vector_correlation(a,b,uw)); gsl_vector *c=apop_vector_copy(a); gsl_vector_mul(c,c); apop_vector_log10(c); putv(o,c);
    gsl_vector_free(c); gsl_vector_free(w); apop_data_free(d); }
static double vsum(gsl_vector *v){ double t=0; for (size_t i=0;i<v->size;i++) t+=gsl_vector_get(v,i)*(i+1); return t; }
static void vneg(gsl_vector *v){ gsl_vector_scale(v,-1.5); }
static void dsq(double *x){ *x=*x * *x; }
static double expneg(double x){ return exp(-x*x); }
static void t_map(uint64_t s,tres *o){ int n=1+I(&s,7),k=1+I(&s,3); apop_data *d=rdata(&s,1,n,k); rnames(&s,d); gsl_vector *v=apop_matrix_map(d->matrix,vsum); putv(o,v); gsl_vector_free(v); put(o,apop_matrix_map_sum(d->matrix,vsum)); put(o,apop_matrix_map_all_sum(d->matrix,expneg)); gsl_matrix *m=apop_matrix_map_all(d->matrix,expneg); putm(o,m); gsl_matrix_free(m);
    apop_matrix_apply(d->matrix,vneg); apop_matrix_apply_all(d->matrix,dsq); apop_vector_apply(d->vector,dsq); putd(o,d); apop_data *q=apop_map(d,.fn_d=expneg,.part='a'); putd(o,q); apop_data_free(q); q=apop_map(d,.fn_v=vsum,.part=I(&s,2)?'r':'c'); putd(o,q); apop_data_free(q); put(o,apop_map_sum(d,.fn_d=expneg,.part='m')); put(o,apop_map_sum(d,.fn_v=vsum,.part='r')); apop_data_free(d); }
static void t_copying(uint64_t s,tres *o){ int n=2+I(&s,4),k=2+I(&s,3); apop_data *d=rdata(&s,1,n,k); rnames(&s,d); apop_text_alloc(d,n,1); for (int i=0;i<n;i++) apop_text_set(d,i,0,"z%d",I(&s,30)); d->weights=gsl_vector_alloc(n); gsl_vector_set_all(d->weights,U(&s));
    apop_data *c=apop_data_alloc(n,n,k); c->weights=gsl_vector_alloc(n); apop_text_alloc(c,n,1); apop_data_memcpy(c,d); putd(o,c); apop_data_free(c);
    apop_data *z=apop_data_calloc(n,n,k); putd(o,z); apop_data_fill(apop_data_alloc(1,1),2.); apop_data_free(z);
    apop_name *nm=apop_name_copy(d->names); apop_name *n2=apop_name_alloc(); apop_name_add(n2,"extra",'c'); apop_name_add(n2,"vv",'v'); apop_name_stack(nm,n2,'c'); apop_name_stack(nm,n2,'r','c'); put(o,nm->colct); put(o,nm->rowct); for (int i=0;i<nm->colct;i++) puts_(o,nm->col[i]); for (int i=0;i<nm->rowct;i++) puts_(o,nm->row[i]); put(o,apop_name_find(nm,"extra",'c')); put(o,apop_name_find(nm,"nosuch",'r')); apop_name_free(nm); apop_name_free(n2);
    apop_data *pr=apop_data_copy(d); apop_data_prune_columns(pr,d->names->col[k-1],d->names->col[0]); putd(o,pr); apop_data_free(pr);
    apop_data *r=apop_data_copy(Apop_rs(d,1,n-1)); putd(o,r); apop_data_free(r); int pick=I(&s,n); r=apop_data_copy(Apop_r(d,pick)); putd(o,r); apop_data_free(r);
    char *b=NULL; size_t l; FILE *f=open_memstream(&b,&l); apop_data_show(d); fclose(f); free(b); apop_data_set(d,.row=0,.colname=d->names->col[1],.val=4.25); put(o,apop_data_get(d,.rowname="row1",.col=0)); put(o,*apop_data_ptr(d,n-1,-1)); double arr[]={1,2,3}; gsl_vector *av=apop_array_to_vector(arr,3); putv(o,av); gsl_vector_free(av); apop_data_free(d); }
static void t_modelpmf(uint64_t s,tres *o){ apop_model *m=apop_model_set_parameters(apop_normal,0,1+U(&s)); apop_data *d=rtab(&s,12); apop_data_pmf_compress(d); apop_data_free(d);
    apop_model *c=apop_model_copy(apop_normal); apop_data *nd=rdata(&s,0,5,1); apop_model_clear(nd,c); put(o,c->parameters!=NULL); put(o,c->vsize); apop_model *e=apop_estimate(nd,c); putmod(o,e); char *b=NULL; size_t l; FILE *f=open_memstream(&b,&l); apop_model_print(e,f); fclose(f); puts_(o,b); free(b);
    apop_model_free(e); apop_model_free(c); apop_model_free(m); }
static void t_imp(uint64_t s,tres *o){ apop_data *d=rdata(&s,0,3,1); apop_model *m=apop_model_copy(apop_improper_uniform); put(o,apop_log_likelihood(d,m)); put(o,apop_p(d,m)); apop_model_free(m); apop_data_free(d); }

/* ---- text and files ---- */
static void t_text(uint64_t s,tres *o){ char buf[200]; snprintf(buf,200,"Hello<a%d> there <%c%c> x%d",I(&s,99),'b'+I(&s,4),'q',I(&s,9)); apop_data *sub=NULL; put(o,apop_regex(buf,"<([a-z]*)([0-9]*)>",&sub)); putd(o,sub); if (sub) apop_data_free(sub); put(o,apop_regex("ABC","b")); apop_data *t=apop_text_alloc(NULL,2+I(&s,2),2); for (size_t i=0;i<t->textsize[0];i++) for (int j=0;j<2;j++) apop_text_set(t,i,j,"w%d",I(&s,50)); char *p=apop_text_paste(t,.between="; ",.before="[",.after="]",.between_cols=","); puts_(o,p); free(p); t=apop_text_alloc(t,5,3); apop_text_set(t,4,2,"end"); putd(o,t); apop_data_transpose(t); putd(o,t); apop_data_free(t); }
static void t_print(uint64_t s,tres *o){ apop_data *d=rdata(&s,I(&s,2),1+I(&s,4),1+I(&s,3)); if (I(&s,2)) rnames(&s,d); if (I(&s,2)){ apop_text_alloc(d,d->matrix->size1,1); for (size_t i=0;i<d->textsize[0];i++) apop_text_set(d,i,0,"q%d",I(&s,9)); } char *b=NULL; size_t n; FILE *f=open_memstream(&b,&n); apop_data_print(d,.output_pipe=f); apop_matrix_print(d->matrix,.output_pipe=f); gsl_vector *v=Apop_cv(d,0); apop_vector_print(v,.output_pipe=f); fclose(f); puts_(o,b); free(b);
    apop_model *m=apop_model_set_parameters(apop_normal,1,2); f=open_memstream(&b,&n); apop_model_print(m,f); fclose(f); puts_(o,b); free(b); apop_model_free(m); apop_data_free(d); }
static void t_read(uint64_t s,tres *o){ char nm[60],buf[600]; int l=0,r=1+I(&s,5),c=1+I(&s,3); snprintf(nm,60,"/sim/t%llx_%d",(unsigned long long)s,sim_self()); l+=sprintf(buf+l,"# comment\n"); for (int j=0;j<c;j++) l+=sprintf(buf+l,"%sv%d",j?",":"",j); l+=sprintf(buf+l,"\n"); for (int i=0;i<r;i++){ for (int j=0;j<c;j++) l+=sprintf(buf+l,"%s%s%d",j?", ":"",I(&s,3)?"":"-",I(&s,1000)); l+=sprintf(buf+l,"\n"); } io_put(nm,buf,l); apop_data *d=apop_text_to_data(nm); putd(o,d); if (d) apop_data_free(d); io_remove(nm); }
static void t_misc(uint64_t s,tres *o){ for (int i=0;i<3;i++){ int n=1+I(&s,60); double p=0.5+0.5*I(&s,5); put(o,(double)apop_generalized_harmonic(n,p)); } apop_model *b=apop_beta_from_mean_var(0.3+0.2*U(&s),0.02); putd(o,b->parameters); apop_model_free(b); gsl_vector *v=gsl_vector_alloc(7); for (int i=0;i<7;i++) gsl_vector_set(v,i,N01(&s)); put(o,apop_vector_map_sum(v,fabs)); gsl_vector *w=apop_vector_map(v,exp); putv(o,w); gsl_vector *st=apop_vector_stack(v,w); putv(o,st); gsl_vector_free(st); gsl_matrix *mm=apop_vector_to_matrix(v); putm(o,mm); gsl_matrix *m2=apop_matrix_stack(mm,mm,'c'); putm(o,m2); gsl_matrix_free(m2); gsl_matrix_free(mm); gsl_vector_free(v); gsl_vector_free(w); }

#define T(n,f) {#n,t_##n,f}
const task tasks[]={ T(ols,0),T(iv,0),T(logit,TK_SLOW),T(probit_ll,0),T(dist_ll,0),T(dist_cdf,0),T(dist_est,0),T(multi,0),T(multinom,0),T(draws,0),T(gradient,0),T(mle,TK_SLOW),T(anneal,TK_SLOW),T(path,TK_SLOW),T(constraint,0),T(sort,0),T(fisher,0),T(tests,0),T(kolmogorov,0),T(summary,0),T(factors,0),T(pmf,0),T(kl,0),T(linalg,0),T(surgery,0),T(rank,0),T(missing,0),T(impute,TK_SLOW),T(fix,TK_SLOW),T(dcon,0),T(ct,0),T(cross,0),T(mix,0),T(mix_est,TK_SLOW),T(update,0),T(update_draws,0),T(mcmc,0),T(arms,0),T(kernel,0),T(loess,0),T(parmod,0),T(boot,0),T(settings,0),T(text,0),T(print,0),T(read,0),T(misc,0),T(distance,0),T(vstats,0),T(map,0),T(copying,0),T(modelpmf,0),T(imp,0) };
const int n_tasks=sizeof tasks/sizeof *tasks;
void run_task(int w,uint64_t seed,tres *o){ memset(o,0,sizeof *o); o->h=FNV0; tasks[w].fn(seed*0x9E3779B97F4A7C15ULL+w+1,o); }
const char *tres_diff(const tres *a,const tres *b){ static char d[500]; if (a->n==b->n&&a->h==b->h) return NULL;
    for (int i=0;i<200&&i<a->n&&i<b->n;i++) if (!same_d(a->v[i],b->v[i])){ snprintf(d,500,"value %d of the output is %.17g, not %.17g",i,a->v[i],b->v[i]); return d; }
    if (a->n!=b->n) snprintf(d,500,"the output has %d values, not %d",a->n,b->n); else snprintf(d,500,"outputs differ: '%.190s' not '%.190s'",a->s,b->s); return d; }
