/* C03: batches of draws. */
#include "common.h"
typedef struct { int n; double v[1000][6]; int err; long calls; int dsize; } outcome;
static outcome *ref_o,*run_o;
static int N, dsize, which, given, nthr, extra; static unsigned long seed0; static int fails[1000], failmode;
typedef struct { double *out; gsl_rng *r; int tid; double v[6]; int rc; } call; static call C[1100]; static long nc;
static int (*inner)(double*,gsl_rng*,apop_model*); static apop_data *mine;
static int fail_this(double *out,gsl_rng *r){
    if (failmode==1 && mine){ long row=(out-mine->matrix->data)/mine->matrix->tda; return row>=0&&row<N&&fails[row]; }
    if (failmode==2){ gsl_rng *c=gsl_rng_clone(r); int f=gsl_rng_get(c)%5==0; gsl_rng_free(c); return f; }
    return 0;
}
static int wrap(double *out,gsl_rng *r,apop_model *m){
    int f=fail_this(out,r); sim_point();
    int rc=inner(out,r,m);
    if (f){ rc=1+(N%2); for (int j=0;j<dsize;j++) out[j]=-77; }
    CK(nc<1100,"draws:too-many","more than 1100 draws for %d rows",N);
    call *c=&C[nc++]; c->out=out; c->r=r; c->tid=omp_get_thread_num(); c->rc=rc; for (int j=0;j<dsize;j++) c->v[j]=out[j];
    sim_point_strong();
    return rc;
}
static int simple_draw(double *out,gsl_rng *r,apop_model *m){ for (int j=0;j<m->dsize;j++){ out[j]=gsl_rng_uniform(r)+j; sim_point(); } return 0; }
static apop_model *mk(void){
    apop_model *m=NULL;
    switch(which){
        case 0: m=apop_model_copy(apop_uniform); m->parameters=apop_data_alloc(2); m->draw=simple_draw; m->dsize=1+N%5; break;
        case 1: m=apop_model_set_parameters(apop_normal,2,3); break;
        case 2: m=apop_model_set_parameters(apop_poisson,4.5); break;
        case 3: { apop_data *d=apop_data_alloc(6,2); for (int i=0;i<12;i++) d->matrix->data[i]=i+0.5; d->weights=gsl_vector_alloc(6); for (int i=0;i<6;i++) gsl_vector_set(d->weights,i,1+i%3); m=apop_estimate(d,apop_pmf); m->dsize=2; break; }
        case 4: { m=apop_model_copy(apop_multivariate_normal); m->parameters=apop_data_falloc((3,3,3),1,2,.5,.1, 2,.5,3,.2, 3,.1,.2,1.5); m->dsize=3; break; }
        case 5: m=apop_model_set_parameters(apop_gamma,2.5,1.5); break;
        case 6: m=apop_model_set_parameters(apop_bernoulli,0.3); break;
        case 7: m=apop_model_set_parameters(apop_binomial,7,0.4); break;
        case 8: { apop_data *d=apop_data_falloc((4,3), 3,1,1, 2,2,1, 0,4,1, 1,1,3); m=apop_estimate(d,apop_multinomial); CK(m->dsize==3,"draws:wrong-size","a multinomial estimated over three bins has draws of size %d",m->dsize); break; }
        case 9: { apop_data *d=apop_data_falloc((4,1),1,5,9,30); m=apop_estimate(d,apop_kernel_density); break; }
        case 10: m=apop_model_mixture(apop_model_set_parameters(apop_normal,-9,1),apop_model_set_parameters(apop_normal,9,1)); break;
        case 11: m=apop_model_copy(apop_dirichlet); m->parameters=apop_data_falloc((4),1,2,3,1.5); m->dsize=4; break;
        case 12: m=apop_model_cross(apop_model_set_parameters(apop_normal,0,1),apop_model_set_parameters(apop_poisson,3)); break;
        case 13: m=apop_model_set_parameters(apop_t_distribution,0.5,2,5); break;
    }
    inner=m->draw; m->draw=wrap; dsize=m->dsize;
    return m;
}
static void work(void *v){
    outcome *o=v; sim_sched_on = o==run_o; nc=0;
    apop_opts.rng_seed=seed0;
    apop_model *m=mk(); apop_data *pb=deep_copy(m->parameters); apop_model before=*m;
    if (given){ mine=apop_data_alloc(N,dsize+extra); gsl_matrix_set_all(mine->matrix,-5.5); }
    sim_set_nthreads(nthr);
    apop_data *d= given? apop_model_draws(m,.draws=mine) : N==1000? apop_model_draws(m) : apop_model_draws(m,.count=N);
    sim_set_nthreads(1);
    CK(d&&d->matrix,"draws:no-output","no output");
    if (given) CK(d==mine,"draws:no-output","the output is not the data set I sent in");
    CK((int)d->matrix->size1==N&&(int)d->matrix->size2==dsize+(given?extra:0),"draws:no-output","the output is %zux%zu for %d draws of size %d",d->matrix->size1,d->matrix->size2,N,dsize);
    CK(nc==N,"draws:call-count","%ld draws were made for %d rows",nc,N);
    int row_done[1000]={0}, anyfail=0;
    for (long k=0;k<nc;k++){
        long row=(C[k].out-d->matrix->data)/d->matrix->tda;
        CK(row>=0&&row<N&&C[k].out==gsl_matrix_ptr(d->matrix,row,0),"draws:wrong-row","a draw was written outside the output's rows");
        CK(!row_done[row]++,"draws:wrong-row","row %ld was drawn twice",row);
        if (C[k].rc) anyfail=1;
        for (int j=0;j<dsize;j++){ double x=gsl_matrix_get(d->matrix,row,j); CK(C[k].rc? isnan(x): same_d(x,C[k].v[j]),"draws:wrong-value","row %ld column %d is %.17g; the draw %s %.17g",row,j,x,C[k].rc?"failed with":"gave",C[k].v[j]); }
        CK(C[k].r==apop_rng_get_thread(C[k].tid),"draws:wrong-rng","row %ld was drawn by worker %d with a generator that is not its own",row,C[k].tid);
        if (!C[k].rc && given) for (int j=dsize;j<dsize+extra;j++) CK(gsl_matrix_get(d->matrix,row,j)==-5.5,"draws:wrong-value","row %ld column %d, beyond the draw, was changed",row,j);
    }
    CK(anyfail? d->error=='d' : !d->error,"draws:error-mark","%s draws failed but the error mark is '%c'",anyfail?"some":"no",d->error?d->error:'0');
    const char *q=data_diff_pages(m->parameters,pb,2); CK(!q,"draws:model-changed","the model's parameters changed: %s",q);
    CK(m->draw==before.draw&&m->dsize==before.dsize&&m->data==before.data,"draws:model-changed","the model changed");
    // each worker's draws, one after the other, from a fresh copy of its generator
    for (int t=0;t<nthr;t++){ gsl_rng *r=NULL; apop_model *m2=NULL;
        for (long k=0;k<nc;k++) if (C[k].tid==t){ if (!r){ r=rng_of(seed0+1+t); m2=mk(); } double b[8]={0}; inner(b,r,m2);
            if (!C[k].rc) for (int j=0;j<dsize;j++) CK(same_d(b[j],C[k].v[j]),"draws:wrong-stream","worker %d drew %.17g where its generator alone gives %.17g",t,C[k].v[j],b[j]); } }
    o->dsize=dsize; o->n=N; o->err=d->error; for (int i=0;i<N;i++) for (int j=0;j<dsize;j++) o->v[i][j]=gsl_matrix_get(d->matrix,i,j);
    sim_event("batch hash %016llx",(unsigned long long)data_hash(d)); sim_state(data_hash(d));
    apop_data_free(d); apop_model_free(m);
}
void scen_draws(void){
    quiet(); apop_opts.verbose=-1;
    ref_o=sim_shared(sizeof *ref_o); run_o=sim_shared(sizeof *run_o);
    static const int ns[]={1,2,3,5,8,13,40,100}; N= w_chance(1,4)? 1+(int)w_choose(60) : ns[w_choose(8)];
    if (w_chance(1,200)) N=1000; which=w_choose(14); given=w_choose(2); extra=given?w_choose(3):0; nthr=pick_threads(12); seed0=w_choose(1000); failmode=w_choose(3);
    if (failmode==1) { if (!given) failmode=0; else { f_enable(FK_CB_FAIL,0.25,N); for (int i=0;i<N;i++) fails[i]=f_point(FK_CB_FAIL,0,NULL); } }
    sim_describe("%d draws from model %d by %d workers, seed %lu, %s%s",N,which,nthr,seed0,given?"into a given matrix":"allocated",failmode?", some fail":"");
    if (nthr>1&&N>1) sim_nontrivial();
    sim_process(work,ref_o);
    sim_process(work,run_o);
    CK(ref_o->n==N&&run_o->n==N,"draws:no-output","a batch did not complete");
    CK(ref_o->err==run_o->err,"draws:schedule-dependent","error marks differ between two schedules");
    int col=run_o->dsize;
    for (int i=0;i<N;i++) for (int j=0;j<col;j++) CK(same_d(ref_o->v[i][j],run_o->v[i][j]),"draws:schedule-dependent","row %d column %d is %.17g under one schedule and %.17g under another",i,j,ref_o->v[i][j],run_o->v[i][j]);
}
/* Batches inside a parallel region: each thread of the team makes its own batch, in a nested region of one thread. */
extern void GOMP_parallel(void (*fn)(void*),void *data,unsigned n,unsigned flags);
static int bn[16]; static apop_data *bout[16]; static apop_model *bm[16]; static gsl_rng *used[16]; static int deep,useg;
static int outer(void){ return omp_get_level()>0?omp_get_ancestor_thread_num(1):0; }
static int nested_draw(double *out,gsl_rng *r,apop_model *m){ int t=outer(); CK(!used[t]||used[t]==r,"draws:wrong-rng","thread %d drew from two generators",t); used[t]=r; for (int k=0;k<16;k++) CK(k==t||used[k]!=r,"draws:wrong-rng","threads %d and %d draw from one generator at once",t,k); out[0]=gsl_rng_uniform(r); sim_point_strong(); out[1]=gsl_rng_uniform(r)+t; return 0; }
static void one_batch(void *v){ (void)v; int t=outer(); if (useg==1){ bout[t]=apop_data_alloc(bn[t],2); for (int i=0;i<bn[t];i++) apop_draw(gsl_matrix_ptr(bout[t]->matrix,i,0),NULL,bm[t]); } else if (useg==2){ bout[t]=apop_data_alloc(bn[t],2); gsl_rng *r=apop_rng_get_thread(); for (int i=0;i<bn[t];i++) apop_draw(gsl_matrix_ptr(bout[t]->matrix,i,0),r,bm[t]); } else bout[t]=apop_model_draws(bm[t],bn[t]); }
static void in_team(void *v){ if (deep) GOMP_parallel(one_batch,v,deep,0); else one_batch(v); }
void scen_nested_draws(void){
    quiet(); apop_opts.verbose=-1; int n=1+w_choose(8); deep=w_choose(3)*(1+w_choose(2)); if (n==1) deep=0; useg=w_choose(4); int shared=w_choose(2); seed0=w_choose(1000); apop_opts.rng_seed=seed0; memset(used,0,sizeof used); for (int i=w_choose(4);i>0;i--) apop_rng_get_thread(w_choose(10));
    long s1=apop_opts.rng_seed; (void)s1; apop_model *m0=apop_model_copy(apop_uniform); m0->draw=nested_draw; m0->dsize=2; 
    // what is refused, and how
    { apop_data *e=apop_model_draws(NULL); CK(e&&e->error=='m',"draws:error-mark","draws from a NULL model are marked '%c'",e&&e->error?e->error:'0'); apop_data_free(e); apop_model z=*m0; z.dsize=0; e=apop_model_draws(&z,3); CK(e&&e->error=='m',"draws:error-mark","draws from a model whose dsize is zero are marked '%c'",e&&e->error?e->error:'0'); apop_data_free(e);
      e=apop_data_alloc(3,1); gsl_matrix_set_all(e->matrix,7); apop_data *f=apop_model_draws(m0,.draws=e); CK(f==e&&e->error=='s'&&gsl_matrix_get(e->matrix,0,0)==7&&gsl_matrix_get(e->matrix,2,0)==7,"draws:error-mark","draws of size 2 into one column are marked '%c'",e->error?e->error:'0'); apop_data_free(e); e=apop_data_alloc(3); f=apop_model_draws(m0,.draws=e); CK(f==e&&e->error=='m',"draws:error-mark","draws into a set with no matrix are marked '%c'",e->error?e->error:'0'); apop_data_free(e); }
    for (int t=0;t<n;t++){ bn[t]=1+w_choose(12); bm[t]=shared||!t?m0:apop_model_copy(m0); }
    sim_describe("a team of %d, each with %d or so draws%s%s",n,bn[0],deep?", in a nested region":"",shared?" from one model":""); if (n>1) sim_nontrivial();
    sim_team(n,in_team,NULL);
    for (int t=0;t<n;t++){ CK(bout[t]&&!bout[t]->error&&(int)bout[t]->matrix->size1==bn[t],"draws:no-output","thread %d has no batch",t); CK(used[t]==apop_rng_get_thread(t),"draws:wrong-rng","thread %d drew from a generator that is not its own",t); gsl_rng *r=rng_of(seed0+1+t); for (int i=0;i<bn[t];i++){ double a=gsl_rng_uniform(r),b=gsl_rng_uniform(r)+t; CK(same_d(a,gsl_matrix_get(bout[t]->matrix,i,0))&&same_d(b,gsl_matrix_get(bout[t]->matrix,i,1)),"draws:wrong-stream","thread %d's draw %d is not the next of its generator",t,i); } gsl_rng_free(r); sim_state(data_hash(bout[t])); apop_data_free(bout[t]); if (bm[t]!=m0) apop_model_free(bm[t]); }
    apop_model_free(m0); }
