/* C24: several threads read one data set at once (views, lookups, copies, summaries, tests, fitted models, printing); each must get
what it would get from a data set of its own, and the data set must come out as it went in. */
#include "common.h"
#define MAXT 5
#define MAXO 5
#define NV 80
typedef struct { int n; double v[NV]; uint64_t text; } res;
typedef struct { int done; res r[MAXT][MAXO]; } outcome;
static outcome *ref_o,*run_o,*O;
enum { R_GET,R_NAMES,R_PAGES,R_COPY,R_ROWS,R_MEANS,R_MOMENTS,R_SUMMARY,R_COV,R_COR,R_PERCENT,R_PRINT,R_MAPSUM,R_MAP,R_SORT,R_LISTWISE,R_UNIQUE,R_DUMMIES,R_STACK,R_TRANS,R_SPLIT,R_PACK,R_DOT,R_TTEST,R_PAIRED,R_PCA,R_INV,R_BINS,R_PMFC,R_PASTE,R_MEMCPY,R_MOVAVG,R_NORMALIZE,R_DIST,R_RANK,
    R_OLS,R_NORMAL,R_MVN,R_PMF,R_KDE,R_POISSON,R_MLE,R_BOOT,R_JACK,R_LOGIT,R_FTEST,R_ENTROPY,R_KS,R_LL,R_PREDICT,R_UPDATE,R_MIXED,R_DB,R_CROSS,R_CT };
static const char *on[]={"get","names","pages","copy","row and submatrix views","means","moments","summary","covariance","correlation","percentiles","print","map sum","map","sorted copy","listwise deletion","unique elements","dummies","stack","transpose","split","pack","dot product","t test","paired t test","principal components","inverse","bins","compressed copy","pasted text","memcpy","moving average","normalised copy","distances","expanded ranks",
    "OLS","normal","multivariate normal","PMF","kernel density","poisson","likelihood search","bootstrap","jackknife","logit","F test","divergence","Kolmogorov test","likelihood of a row view","predictions","Bayesian update","factor names","Fisher test","product of models" };
static int nthr,no[MAXT],what[MAXT][MAXO],style,shape_w,shape_nan,shape_t; static uint64_t mseed,dseed[MAXT][MAXO]; static apop_data *D;
static double u_(uint64_t *s){ return (sim_splitmix(s)>>11)*(1.0/9007199254740992.0); }
static void put(res *r,double x){ if (r->n<NV) r->v[r->n]=x; r->n++; }
static void txt(res *r,const char *t){ r->text=t?sim_hash(t,strlen(t)+1,r->text):r->text*31+7; }
static void putv(res *r,const gsl_vector *v){ put(r,v?v->size:-1); if (v) for (size_t i=0;i<v->size;i++) put(r,gsl_vector_get(v,i)); }
static void putd(res *r,const apop_data *d){
    for (const apop_data *z=d;z;z=z->more){ if (z->vector) putv(r,z->vector); if (z->matrix) for (size_t i=0;i<z->matrix->size1;i++) for (size_t j=0;j<z->matrix->size2;j++) put(r,gsl_matrix_get(z->matrix,i,j)); if (z->weights) putv(r,z->weights);
        for (size_t i=0;i<z->textsize[0];i++) for (size_t j=0;j<z->textsize[1];j++) txt(r,z->text[i][j]);
        if (z->names){ txt(r,z->names->title); txt(r,z->names->vector); for (int i=0;i<z->names->rowct;i++) txt(r,z->names->row[i]); for (int i=0;i<z->names->colct;i++) txt(r,z->names->col[i]); for (int i=0;i<z->names->textct;i++) txt(r,z->names->text[i]); }
        put(r,z->error); } if (!d) put(r,-77); }
static apop_data *build(void){
    uint64_t s=mseed; int n=8+sim_splitmix(&s)%9, cats=2; apop_data *d=apop_data_alloc(n,n,3); apop_opts.rng_seed=88;
    for (int i=0;i<n;i++){ double x=0; gsl_matrix_set(d->matrix,i,0,1); for (int j=1;j<3;j++){ double q=0.2+3*u_(&s)+0.1*((i*(j+2))%5); gsl_matrix_set(d->matrix,i,j,q); x+=q; } gsl_vector_set(d->vector,i,shape_t==1? (double)(i<cats?i:(int)(sim_splitmix(&s)%cats)) : shape_t==2? (double)(int)(x*2) : x+u_(&s)); }
    if (shape_w){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,0.5+u_(&s)); }
    if (shape_nan) gsl_matrix_set(d->matrix,sim_splitmix(&s)%n,1,NAN);
    apop_name_add(d->names,"the set",'h'); apop_name_add(d->names,"y",'v'); apop_name_add(d->names,"one",'c'); apop_name_add(d->names,"x1",'c'); apop_name_add(d->names,"x2",'c');
    apop_text_alloc(d,n,2); apop_name_add(d->names,"t1",'t'); apop_name_add(d->names,"t2",'t');
    for (int i=0;i<n;i++){ char b[30]; sprintf(b,"row %i",i); apop_name_add(d->names,b,'r'); apop_text_set(d,i,0,"w%i",(int)(sim_splitmix(&s)%4)); apop_text_set(d,i,1,"%i",i); }
    apop_data *p=apop_data_alloc(3,3,3); for (int i=0;i<3;i++){ gsl_vector_set(p->vector,i,u_(&s)); for (int j=0;j<3;j++) gsl_matrix_set(p->matrix,i,j,u_(&s)+2*(i==j)); } apop_data_add_page(d,p,"second page");
    if (shape_t==1) apop_data_to_factors(d,.intype='d',.incol=-1,.outcol=-1);
    return d; }
static double sq(double x){ return x*x+1; }
static double rowf(apop_data *r){ return apop_data_get(r,0,-1)+2*apop_data_get(r,0,2)+r->text[0][0][1]; }
static double vecf(gsl_vector *v){ return gsl_vector_get(v,0)+gsl_vector_get(v,v->size-1); }
static long double my_ll(apop_data *d,apop_model *m){ long double t=0; for (size_t i=0;i<d->matrix->size1;i++){ double x=gsl_matrix_get(d->matrix,i,2)-gsl_vector_get(m->parameters->vector,0); t-=x*x; } sim_point(); return t; }
static void read1(int t,int i,apop_data *d){
    res *r=&O->r[t][i]; uint64_t s=dseed[t][i]; r->n=0; r->text=FNV0; apop_data *o=NULL; apop_model *m=NULL; gsl_rng *g=rng_of(1+s%9999); size_t n=d->vector->size; int a=s%n;
    switch(what[t][i]){
        case R_GET: for (int j=-1;j<3;j++) put(r,apop_data_get(d,a,j)); { char b[30]; sprintf(b,"row %i",a); put(r,apop_data_get(d,.rowname=b,.colname="x2")); put(r,apop_data_get(d,.rowname=b,.colname="y")); put(r,apop_data_get(d,a%3,a%2,.page="second page")); put(r,*apop_data_ptr(d,.row=a,.colname="x1")); } break;
        case R_NAMES: put(r,apop_name_find(d->names,"x2",'c')); put(r,apop_name_find(d->names,"X1",'c')); put(r,apop_name_find(d->names,"row 3",'r')); put(r,apop_name_find(d->names,"t2",'t')); put(r,apop_name_find(d->names,"none",'c')); { apop_name *c=apop_name_copy(d->names); put(r,c->rowct+100*c->colct); txt(r,c->row[a]); apop_name_free(c); } break;
        case R_PAGES: { apop_data *p=apop_data_get_page(d,"second",'r'); if (!p) p=apop_data_get_page(d,"second page"); put(r,p!=NULL); if (p) putd(r,p); break; }
        case R_COPY: o=apop_data_copy(d); putd(r,o); if (o->matrix) gsl_matrix_scale(o->matrix,2); apop_text_set(o,0,0,"changed"); apop_name_add(o->names,"more",'r'); break;
        case R_ROWS: { apop_data *v=Apop_r(d,a); put(r,apop_data_get(v,0,-1)); putv(r,Apop_rv(v,0)); txt(r,v->text[0][0]); apop_data *w=Apop_rs(d,1,4); put(r,apop_data_get(w,3,1)); putv(r,Apop_cv(w,1)); gsl_matrix *sm=Apop_subm(d->matrix,1,1,3,2); put(r,gsl_matrix_get(sm,2,1)); putd(r,Apop_c(d,2)); break; }
        case R_MEANS: for (int j=-1;j<3;j++){ put(r,apop_mean(Apop_cv(d,j))); put(r,apop_vector_mean(Apop_cv(d,j),d->weights)); } put(r,apop_matrix_mean(d->matrix)); put(r,apop_matrix_sum(d->matrix)); break;
        case R_MOMENTS: { gsl_vector *v=Apop_cv(d,s%3-0); put(r,apop_vector_var(v,d->weights)); put(r,apop_vector_skew_pop(v,d->weights)); put(r,apop_vector_kurtosis_pop(v,d->weights)); put(r,apop_vector_cov(v,d->vector,d->weights)); put(r,apop_vector_correlation(d->vector,Apop_cv(d,2),d->weights)); put(r,apop_vector_skew(d->vector)); put(r,apop_vector_kurtosis(d->vector)); double x,y; apop_matrix_mean_and_var(d->matrix,&x,&y); put(r,x); put(r,y); break; }
        case R_SUMMARY: o=apop_data_summarize(d); putd(r,o); break;
        case R_COV: o=apop_data_covariance(d); putd(r,o); break;
        case R_COR: o=apop_data_correlation(d); putd(r,o); break;
        case R_PERCENT: { double *p=apop_vector_percentiles(Apop_cv(d,s%2?2:-1),"dua"[s%3]); for (int j=0;j<=100;j+=10) put(r,p[j]); free(p); break; }
        case R_PRINT: { char *b=NULL; size_t k; FILE *f=open_memstream(&b,&k); apop_data_print(d,.output_pipe=f); fclose(f); r->text=sim_hash(b,k,FNV0); put(r,k); free(b); break; }
        case R_MAPSUM: put(r,apop_map_sum(d,.fn_d=sq,.part='a')); put(r,apop_map_sum(d,.fn_r=rowf)); put(r,apop_matrix_map_sum(d->matrix,vecf)); put(r,apop_vector_map_sum(d->vector,sq)); break;
        case R_MAP: o=apop_map(d,.fn_d=sq,.part="ma"[s%2]); putd(r,o); { gsl_vector *v=apop_matrix_map(d->matrix,vecf); putv(r,v); gsl_vector_free(v); } break;
        case R_SORT: if (s/2%3==0) o=apop_data_sort(d,.asc=s%2?'a':'d',.inplace='n');
            else { apop_data *so=apop_text_alloc(apop_data_alloc(1,1,3),1,2); so->vector->data[0]=NAN; for (int j=0;j<3;j++) so->matrix->data[j]=NAN; apop_text_set(so,0,0,"1"); apop_text_set(so,0,1,"NaN");
                if (s/2%3==1) so->matrix->data[2]=2; else apop_text_set(so,0,1,"2"); o=apop_data_sort(d,so,.asc=s%2?'a':'d',.inplace='n'); apop_data_free(so); } putd(r,o); break;
        case R_LISTWISE: o=apop_data_listwise_delete(d); putd(r,o); break;
        case R_UNIQUE: { o=apop_text_unique_elements(d,0); putd(r,o); gsl_vector *v=apop_vector_unique_elements(d->vector); putv(r,v); gsl_vector_free(v); break; }
        case R_DUMMIES: { apop_data *c=apop_data_copy(d); o=apop_data_to_dummies(c,.col=0,.type='t',.keep_first='y'); putd(r,o); apop_data_free(c); break; }
        case R_STACK: o=apop_data_stack(d,d,.posn="rc"[s%2]); putd(r,o); break;
        case R_TRANS: o=apop_data_transpose(d,.transpose_text="ny"[s%2],.inplace='n'); putd(r,o); break;
        case R_SPLIT: { apop_data **p=apop_data_split(d,s%2?a:1,"rc"[s%2]); putd(r,p[0]); putd(r,p[1]); apop_data_free(p[0]); apop_data_free(p[1]); free(p); break; }
        case R_PACK: { gsl_vector *v=apop_data_pack(d); putv(r,v); gsl_vector_free(v); break; }
        case R_DOT: o=apop_dot(d,d,.form1='t'); putd(r,o); break;
        case R_TTEST: o=apop_t_test(Apop_cv(d,1),Apop_cv(d,2)); putd(r,o); break;
        case R_PAIRED: o=apop_paired_t_test(Apop_cv(d,1),Apop_cv(d,2)); putd(r,o); break;
        case R_PCA: { gsl_matrix *cm=apop_matrix_copy(d->matrix); o=apop_matrix_pca(cm,2); gsl_matrix_free(cm); } for (size_t j=0;o->vector&&j<o->vector->size;j++) put(r,gsl_vector_get(o->vector,j)); break;
        case R_INV: { apop_data *p=d->more; while (p&&(!p->names||!p->names->title||strcmp(p->names->title,"second page"))) p=p->more; gsl_matrix *v=apop_matrix_inverse(p->matrix); for (int j=0;j<9;j++) put(r,gsl_matrix_get(v,j/3,j%3)); put(r,apop_matrix_determinant(p->matrix)); put(r,apop_matrix_is_positive_semidefinite(p->matrix)); gsl_matrix_free(v); break; }
        case R_BINS: o=apop_data_to_bins(d,.bin_count=3+s%3); putd(r,o); break;
        case R_PMFC: o=apop_data_pmf_compress(apop_data_copy(d)); putd(r,o); break;
        case R_PASTE: { char *p=apop_text_paste(d,.between="\n",.before="<",.after=">",.between_cols=","); txt(r,p); free(p); break; }
        case R_MEMCPY: o=apop_data_alloc(n,n,3); if (d->weights) o->weights=gsl_vector_alloc(n); apop_text_alloc(o,n,2); { apop_data *first=Apop_rs(d,0,n); apop_data_memcpy(o,first); } putd(r,o); break;
        case R_MOVAVG: { gsl_vector *v=apop_vector_moving_average(d->vector,1+2*(s%2)); putv(r,v); gsl_vector_free(v); break; }
        case R_NORMALIZE: { gsl_vector *v=NULL; apop_vector_normalize(d->vector,&v,"smpr"[s%4]); putv(r,v); gsl_vector_free(v); break; }
        case R_DIST: put(r,apop_vector_distance(d->vector,Apop_cv(d,2),"emdL"[s%4],3)); put(r,apop_vector_distance(Apop_cv(d,2))); put(r,apop_vector_bounded(d->vector,1e5)); break;
        case R_RANK: { apop_data *k=apop_data_alloc(4); for (int j=0;j<4;j++) gsl_vector_set(k->vector,j,(int)fabs(gsl_vector_get(d->vector,j))%4+1); apop_data *cm=apop_data_rank_compress(k); putd(r,cm); o=apop_data_rank_expand(cm); putd(r,o); apop_data_free(cm); apop_data_free(k); break; }
        case R_OLS: m=apop_estimate(d,apop_ols); putv(r,m->parameters->vector); put(r,apop_data_get(m->info,.rowname="log likelihood")); { apop_data *p=apop_data_get_page(m->info,"<Predicted>"); if (p) putd(r,p); } break;
        case R_NORMAL: { apop_data *v=Apop_c(d,2); m=apop_estimate(v,apop_normal); put(r,apop_data_get(m->parameters,0,-1)); put(r,apop_data_get(m->parameters,1,-1)); break; }
        case R_MVN: { gsl_matrix *sm=Apop_subm(d->matrix,0,1,n,2); apop_data v={.matrix=sm}; m=apop_estimate(&v,apop_multivariate_normal); putv(r,m->parameters->vector); put(r,apop_data_get(m->parameters,1,0)); put(r,apop_log_likelihood(&v,m)); break; }
        case R_PMF: m=apop_estimate(d,apop_pmf); { double b[8]={0}; for (int j=0;j<2;j++){ put(r,apop_draw(b,g,m)); for (int q=0;q<3;q++) put(r,b[q]); } } put(r,apop_p(Apop_r(d,a),m)); break;
        case R_KDE: { gsl_matrix *sm=Apop_subm(d->matrix,0,2,n,1); apop_data v={.matrix=sm},*pv=&v; m=apop_estimate(&v,apop_kernel_density); put(r,apop_p(Apop_r(pv,a),m)); put(r,apop_cdf(Apop_r(pv,a),m)); } break;
        case R_POISSON: { apop_data v={.vector=d->vector}; m=apop_estimate(&v,apop_exponential); put(r,apop_data_get(m->parameters,0,-1)); break; }
        case R_MLE: { m=apop_model_copy(apop_normal); m->vsize=1; m->estimate=NULL; m->log_likelihood=my_ll; m->constraint=NULL; Apop_model_add_group(m,apop_mle,.method="NM simplex",.max_iterations=30,.tolerance=1e-3); Apop_model_add_group(m,apop_parts_wanted); apop_model *e=apop_estimate(d,m); putv(r,e->parameters->vector); apop_model_free(e); break; }
        case R_BOOT: { apop_data v={.matrix=d->matrix,.vector=d->vector,.weights=d->weights}; m=apop_model_copy(apop_ols); Apop_model_add_group(m,apop_parts_wanted); apop_prep(&v,m); o=apop_bootstrap_cov(&v,m,.rng=g,.iterations=4,.ignore_nans='y'); putd(r,o); break; }
        case R_JACK: { gsl_matrix *sm=Apop_subm(d->matrix,0,2,n,1); apop_data v={.matrix=sm}; m=apop_estimate(&v,apop_normal); o=apop_jackknife_cov(&v,m); putd(r,o); break; }
        case R_LOGIT: m=apop_model_copy(apop_logit); Apop_model_add_group(m,apop_mle,.max_iterations=6,.tolerance=1e-2,.method="NM simplex"); Apop_model_add_group(m,apop_parts_wanted); { apop_model *e=apop_estimate(d,m); if (e->parameters) putd(r,e->parameters); put(r,apop_log_likelihood(d,e)); apop_model_free(e); } break;
        case R_FTEST: m=apop_estimate(d,apop_ols); o=apop_f_test(m); putd(r,o); break;
        case R_ENTROPY: { apop_data v={.matrix=d->matrix,.weights=d->weights}; apop_data w={.matrix=d->matrix,.weights=gsl_vector_alloc(n)}; for (size_t j=0;j<n;j++) gsl_vector_set(w.weights,j,1+j); m=apop_estimate(&v,apop_pmf); apop_model *q=apop_estimate(&w,apop_pmf); put(r,apop_kl_divergence(m,q)); apop_model_free(q); gsl_vector_free(w.weights); break; }
        case R_KS: { gsl_matrix *p1=Apop_subm(d->matrix,0,1,n,1),*p2=Apop_subm(d->matrix,0,2,n,1); apop_data v={.matrix=p1},w={.matrix=p2}; m=apop_estimate(&v,apop_normal); apop_model *q=apop_estimate(&w,apop_normal); o=apop_data_alloc(1); put(r,apop_log_likelihood(&v,q)); put(r,apop_log_likelihood(&w,m)); apop_model_free(q); break; }
        case R_LL: m=apop_model_set_parameters(apop_normal,1,2); put(r,apop_log_likelihood(Apop_r(d,a),m)); put(r,apop_log_likelihood(Apop_rs(d,0,3),m)); { gsl_vector *gr=gsl_vector_alloc(2); apop_score(Apop_r(d,a),gr,m); putv(r,gr); gsl_vector_free(gr); } break;
        case R_PREDICT: m=apop_estimate(d,apop_ols); { apop_data *q=apop_data_copy(d); apop_predict(q,m); putv(r,q->vector); apop_data_free(q); } break;
        case R_UPDATE: { apop_data v={.vector=d->vector}; apop_model *pr=apop_model_set_parameters(apop_gamma,1.5,2),*lk=apop_model_copy(apop_exponential); m=apop_update(&v,pr,lk,g); if (m&&m->parameters) putd(r,m->parameters); apop_model_free(pr); apop_model_free(lk); break; }
        case R_MIXED: { apop_data *f=apop_data_get_factor_names(d,.col=-1); put(r,f!=NULL); if (f) putd(r,f); break; }
        case R_DB: { apop_data *tb=apop_data_alloc(2,2); for (int j=0;j<4;j++) gsl_matrix_set(tb->matrix,j/2,j%2,1+(int)fabs(gsl_vector_get(d->vector,j))%9); o=apop_test_fisher_exact(tb); putd(r,o); apop_data_free(tb); break; }
        case R_CROSS: { apop_model *m1=apop_model_set_parameters(apop_normal,1,2),*m2=apop_model_set_parameters(apop_normal,0,3),*e1=apop_model_copy(apop_normal),*e2=apop_model_copy(apop_normal); apop_model *x=apop_model_cross(m1,m2); Apop_settings_set(x,apop_cross,splitpage,"second page"); put(r,apop_log_likelihood(d,x)); put(r,apop_p(d,x)); apop_model_free(x);
            x=apop_model_cross(e1,e2); Apop_settings_set(x,apop_cross,splitpage,"second page"); m=apop_estimate(d,x); put(r,apop_log_likelihood(d,m)); apop_model *c1=Apop_settings_get(m,apop_cross,model1),*c2=Apop_settings_get(m,apop_cross,model2); putv(r,c1->parameters->vector); putv(r,c2->parameters->vector); apop_model_free(x); apop_model_free(m1); apop_model_free(m2); apop_model_free(e1); apop_model_free(e2); break; }
    }
    if (o) apop_data_free(o); if (m) apop_model_free(m); gsl_rng_free(g);
    sim_event("t%d op %d %s: %d values %.15g",t,i,on[what[t][i]],r->n,r->n?r->v[0]:0);
}
static void thread_ops(int t){ for (int i=0;i<no[t];i++) read1(t,i,D); }
static void caller(int t,void *v){ (void)v; sim_point(); thread_ops(t); }
static void team_caller(void *v){ (void)v; int t=omp_get_thread_num(); if (t<nthr) thread_ops(t); }
static void alone(void *v){ O=v; sim_sched_on=0; for (int t=0;t<nthr;t++) for (int i=0;i<no[t];i++){ D=build(); read1(t,i,D); apop_data_free(D); O->done++; } }
static void together(void *v){ O=v; sim_sched_on=0; D=build(); apop_data *b=deep_copy(D); sim_sched_on=1;
    sim_set_nthreads(1+mseed%3);
    if (style==0) sim_callers(nthr,caller,NULL); else sim_team(nthr,team_caller,NULL);
    O->done=1;
    const char *q=data_diff_pages(D,b,1); CK(!q,"reading:data-changed","reading the data changed them: %s",q);
    CK(!D->error,"reading:data-marked","reading the data marked them with error %c",D->error); }
static int applies(int op){
    if (op==R_LOGIT||op==R_MIXED) return shape_t==1&&!shape_nan;
    if (op==R_POISSON||op==R_UPDATE) return shape_t==0;
    if (shape_nan) return op<R_OLS&&op!=R_PCA&&op!=R_COV&&op!=R_COR&&op!=R_BINS&&op!=R_PERCENT&&op!=R_SUMMARY;
    return 1; }
void scen_reading(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("reading:hang");
    ref_o=sim_shared(sizeof *ref_o); run_o=sim_shared(sizeof *run_o);
    mseed=w_choose(1<<20); shape_w=w_choose(2); shape_t=w_choose(3); shape_nan=w_choose(4)==3; nthr=2+w_choose(MAXT-1); style=w_choose(2); int only=w_choose(R_CT*2);
    int tot=0; for (int t=0;t<nthr;t++){ no[t]=1+w_choose(t<2?3:MAXO); for (int i=0;i<no[t];i++){ what[t][i]= only<R_CT? only : (int)w_choose(R_CT); if (!applies(what[t][i])) what[t][i]=w_choose(R_OLS); if (!applies(what[t][i])) what[t][i]=R_GET; dseed[t][i]=w_choose(1<<20); tot++; } }
    sim_describe("%d threads read one data set, first: %s and %s, %s",nthr,on[what[0][0]],on[what[1][0]],style?"a team":"separate threads");
    sim_nontrivial();
    sim_process(alone,ref_o); CK(ref_o->done==tot,"reading:crash","the readings made alone did not finish");
    sim_process(together,run_o); CK(run_o->done==1,"reading:crash","the threads did not finish");
    uint64_t h=FNV0;
    for (int t=0;t<nthr;t++) for (int i=0;i<no[t];i++){ res *a=&ref_o->r[t][i],*b=&run_o->r[t][i]; const char *w=on[what[t][i]];
        CK(a->n==b->n,"reading:size-differs","the %s of thread %d has %d values; alone, %d",w,t,b->n,a->n);
        CK(a->text==b->text,"reading:text-differs","the text of the %s in thread %d is not what it is alone",w,t);
        for (int j=0;j<a->n&&j<NV;j++){ CK(close_d(a->v[j],b->v[j],1e-8),"reading:value-differs","value %d of the %s (op %d of thread %d) is %.17g; alone it is %.17g",j,w,i,t,b->v[j],a->v[j]); h=dbl_hash(b->v[j],h); } }
    sim_state(h);
}
