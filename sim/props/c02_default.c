/* C02: calls that need random numbers and are given no generator use that of the thread they run in, and no other. */
#include "dbcommon.h"
enum { MAXT=6, MAXOP=5, NKIND=7 };
typedef struct { int kind; uint64_t s; double out[6]; } dop; static dop O[MAXT][MAXOP]; static int nth,nop[MAXT];
static double U_(uint64_t *s){ *s=*s*6364136223846793005ULL+1442695040888963407ULL; return (*s>>11)/9007199254740992.; }
static apop_data *pos(uint64_t *s,int n){ apop_data *d=apop_data_alloc(n,1); for (int i=0;i<n;i++) gsl_matrix_set(d->matrix,i,0,0.2+2*U_(s)); return d; }
static void perform(dop *o,gsl_rng *r){ // r NULL: leave it to the library
    uint64_t s=o->s; double *q=o->out; for (int i=0;i<6;i++) q[i]=0;
    switch (o->kind){
        case 0: { apop_model *m=apop_model_set_parameters(apop_normal,U_(&s),1); for (int i=0;i<3;i++) apop_draw(q+i,r,m); apop_model_free(m); break; }
        case 1: { apop_data *d=pos(&s,5); apop_model *m=apop_model_copy(apop_normal); Apop_settings_add_group(m,apop_parts_wanted); apop_data *c= r?apop_bootstrap_cov(d,m,r,.iterations=4):apop_bootstrap_cov(d,m,.iterations=4); if (c&&c->matrix){ q[0]=apop_data_get(c,0,0); q[1]=apop_data_get(c,1,1); } apop_data_free(c); apop_model_free(m); apop_data_free(d); break; }
        case 2: { apop_data *d=pos(&s,4); apop_model *m=apop_model_copy(apop_normal); Apop_settings_add_group(m,apop_mcmc,.periods=12,.burnin=.2); apop_prep(d,m); gsl_vector_set_all(m->parameters->vector,1); apop_model *c= r?apop_model_metropolis(d,r,m):apop_model_metropolis(d,.m=m); if (c&&c->data) q[0]=apop_matrix_sum(c->data->matrix); apop_model_free(c); apop_model_free(m); apop_data_free(d); break; }
        case 3: { apop_model *p=apop_model_copy(apop_uniform); p->parameters=apop_data_falloc((2),0.5,4); p->log_likelihood=NULL; p->p=NULL; p->dsize=1; Apop_settings_add_group(p,apop_mcmc,.periods=12); apop_data *d=pos(&s,4); apop_model *l=apop_model_copy(apop_exponential); l->parameters=apop_data_alloc(1);
            apop_model *u= r?apop_update(d,p,l,r):apop_update(d,p,l); q[0]=u?u->error:-1; if (u&&u->data&&u->data->matrix) q[1]=apop_matrix_sum(u->data->matrix); else if (u&&u->data&&u->data->vector) q[1]=apop_sum(u->data->vector); apop_data_free(d); break; }
        case 4: { apop_data *d=pos(&s,5); apop_model *b=apop_model_copy(apop_normal); b->estimate=NULL; double st[2]={0.3,1.1}; Apop_settings_add_group(b,apop_parts_wanted); Apop_settings_add_group(b,apop_mle,.method="annealing",.starting_pt=st,.n_tries=3,.iters_fixed_T=3,.t_initial=2,.mu_t=2,.t_min=0.5,.k=1,.step_size=0.3); if (r) Apop_settings_set(b,apop_mle,rng,r);
            apop_model *e=apop_estimate(d,b); if (e&&e->parameters){ q[0]=apop_data_get(e->parameters,0,-1); q[1]=apop_data_get(e->parameters,1,-1); } apop_model_free(e); apop_model_free(b); apop_data_free(d); break; }
        case 5: if (r){ q[0]=gsl_rng_uniform(r); q[1]=gsl_rng_uniform(r); } else { q[0]=apop_query_to_float("select ran()"); q[1]=apop_query_to_float("select ran() as r"); } break;
        case 6: { apop_model *a=apop_model_set_parameters(apop_normal,U_(&s),1),*b=apop_model_set_parameters(apop_gamma,2,1+U_(&s)),*m=apop_model_mixture(a,b); for (int i=0;i<3;i++) apop_draw(q+i,r,m); apop_model_free(m); break; } }
}
static void body(void *v){ (void)v; int me=omp_get_thread_num(); for (int k=0;k<nop[me];k++){ sim_point(); perform(&O[me][k],NULL); sim_event("t%d op %d",me,O[me][k].kind); } }
void scen_rng_default(void){
    quiet(); apop_opts.verbose=-1; sim_sched_on=0; f_suspended=1; sim_on_hang("rng:hang"); disk_init(); disk_attach(); setenv("APOP_DB_ENGINE","",1); apop_opts.db_engine='s'; apop_db_open(NULL); double w=apop_query_to_float("select 1"); CK(w==1,"rng:setup","the database does not answer");
    unsigned long seed0=w_choose(100000); apop_opts.rng_seed=seed0; nth=1+w_choose(MAXT); for (int t=0;t<nth;t++){ nop[t]=1+w_choose(MAXOP); for (int k=0;k<nop[t];k++) O[t][k]=(dop){.kind=w_choose(NKIND),.s=w_choose(1000)}; }
    int pre=w_choose(3)==0?(int)w_choose(MAXT):-1; for (int t=0;t<nth;t++) for (int k=0;k<nop[t];k++) if (O[t][k].kind==5) pre=nth-1>pre?nth-1:pre; /* the first ran() takes a seed of its own */ if (pre>=0) apop_rng_get_thread(pre); // history
    sim_sched_on=1; sim_team(nth,body,NULL); sim_sched_on=0;
    uint64_t h=FNV0; for (int t=0;t<nth;t++){ gsl_rng *ref=rng_of(seed0+1+t); for (int k=0;k<nop[t];k++){ dop a=O[t][k]; perform(&a,ref); for (int i=0;i<6;i++) CK(a.out[i]==O[t][k].out[i]||(a.kind==5&&fabs(a.out[i]-O[t][k].out[i])<1e-13)||(isnan(a.out[i])&&isnan(O[t][k].out[i])),"rng:default","operation %d of kind %d in thread %d, left to find a generator, gives %.15g and not %.15g, as it does with the stream seeded with %lu",k,a.kind,t,O[t][k].out[i],a.out[i],seed0+1+t); h=h*31+(uint64_t)(a.out[0]*1e6)+a.kind; }
        gsl_rng *r=apop_rng_get_thread(t); for (int i=0;i<2;i++) CK(gsl_rng_get(r)==gsl_rng_get(ref),"rng:default","after %d operations in thread %d its generator is not where they leave it",nop[t],t); gsl_rng_free(ref); }
    sim_state(h); if (nth>1) sim_nontrivial(); sim_describe("%d threads, seed %lu",nth,seed0);
}
