/* C15: maximum likelihood searches under NaN, infinite likelihoods and SIGINT at arbitrary evaluations. */
#include "common.h"
#define MAXD 3
typedef struct { int dim,shape,use_score,use_p,constraint,ctl; double a[MAXD],c[MAXD],lo; } objective;
static objective ob;
static long bare, evals, evals_after_int, bound, after_bound; static int in_search, faults_on, interrupted, nan_strict, nan_seen, inf_seen, at_start_nan, expect_handler, score_calls;
static double max_seen,*first_at;
static double truth(const double *x){
    double q=0; for (int i=0;i<ob.dim;i++){ double z=x[i]-ob.c[i]; q+= ob.shape==0? ob.a[i]*z*z : ob.shape==1? ob.a[i]*log(cosh(z))*2 : ob.a[i]*(sqrt(1+z*z)-1)*2; }
    if (ob.dim>1 && ob.shape==0) q+=0.3*(x[0]-ob.c[0])*(x[1]-ob.c[1])*sqrt(ob.a[0]*ob.a[1]);
    return -q; }
static long double ll_fn(apop_data *d,apop_model *m){
    evals++;
    double v=truth(m->parameters->vector->data);
    if (!in_search) return ob.use_p? exp(v): v;
    if (evals==1) max_seen=v; if (first_at&&evals==1) memcpy(first_at,m->parameters->vector->data,ob.dim*sizeof(double));
    if (evals>bound) sim_fail("unbounded-search","%ld likelihood evaluations so far, more than this search's settings can need (%ld)",evals,bound);
    if (interrupted && ++evals_after_int>after_bound) sim_fail("interrupt-ignored","%ld likelihood evaluations after the interrupt",evals_after_int);
    int h=sim_signal_installed(SIGINT)!=SIG_DFL; if (!h) bare++;
    if (expect_handler && !h && (evals==1||bare>1)) sim_fail("interrupt-unhandled","an interrupt arriving at likelihood evaluation %ld would kill the process: no handler is installed",evals);
    if (faults_on && h){   /* one evaluation after the search, for the log likelihood in the info page, has no handler */
        uint32_t a;
        if (sim_signal_installed(SIGINT)!=SIG_DFL && !interrupted && f_point(FK_SIGINT,0,NULL)){ interrupted=1; sim_event("sigint at %ld",evals); sim_probe("interrupted"); sim_raise(SIGINT); }
        if (f_point(FK_CB_NAN,0,NULL)){ nan_seen++; if (evals==1) at_start_nan=1; sim_event("nan at %ld",evals); return NAN; }
        if (f_point(FK_CB_INF,4,&a)){ inf_seen++; sim_event("inf at %ld",evals); return ob.use_p? (a?0:INFINITY) : a? -INFINITY : INFINITY; }
    }
    if (v>max_seen) max_seen=v;
    return ob.use_p? exp(v) : v; }
static void score_fn(apop_data *d,gsl_vector *g,apop_model *m){
    double *x=m->parameters->vector->data; score_calls++;
    for (int i=0;i<ob.dim;i++){ double z=x[i]-ob.c[i]; double gq= ob.shape==0? 2*ob.a[i]*z : ob.shape==1? 2*ob.a[i]*tanh(z) : 2*ob.a[i]*z/sqrt(1+z*z); gsl_vector_set(g,i,-gq); }
    if (ob.dim>1 && ob.shape==0){ double k=0.3*sqrt(ob.a[0]*ob.a[1]); *gsl_vector_ptr(g,0)-=k*(x[1]-ob.c[1]); *gsl_vector_ptr(g,1)-=k*(x[0]-ob.c[0]); } }
static long double constraint_fn(apop_data *d,apop_model *m){ double pen=0; for (int i=0;i<ob.dim;i++){ double *x=gsl_vector_ptr(m->parameters->vector,i); if (*x<ob.lo){ pen+=ob.lo-*x; *x=ob.lo; } } return pen; }
static apop_model *base_model(void){ static apop_model b[4]; apop_model *q=&b[ob.use_p*2+ob.constraint];
    *q=(apop_model){"harness objective",.vsize=ob.dim,.dsize=1}; if (ob.use_p) q->p=ll_fn; else q->log_likelihood=ll_fn; if (ob.constraint) q->constraint=constraint_fn;
    return apop_model_copy(q); }

static const char *methods[]={"NM simplex","FR cg","BFGS cg","PR cg","Newton","Newton hybrid","Newton hybrid no scale","annealing"};
typedef struct { int method,max_iter,dimcycle,path,restart,cov,start_given; int rmode,rmeth,rgroup,rfaults; double st2[MAXD],fp[MAXD]; double st[MAXD],tol,step,delta; unsigned long seed; objective o; } search;
typedef struct { int dim, has_status, err; double p[MAXD], status, ll, lp; long evals; } result;
static apop_data *tdata;
static void run_search(search *s,result *r,int faulty){
    ob=s->o; memset(r,0,sizeof *r); evals=evals_after_int=bare=0; interrupted=nan_seen=inf_seen=at_start_nan=score_calls=0; max_seen=-INFINITY;
    int dim=ob.dim, isan=s->method==7, isnm=s->method==0;
    apop_model *m=base_model(); gsl_rng *rng=rng_of(s->seed); apop_data *path=NULL;
    if (ob.use_score) apop_score_vtable_add(score_fn,m); else if (apop_score_vtable_get(m)) apop_score_vtable_drop(m);
    Apop_settings_add_group(m,apop_parts_wanted,.covariance=s->cov?'y':'n',.info='y');
    Apop_settings_add_group(m,apop_mle,.method=(char*)methods[s->method],.tolerance=s->tol,.max_iterations=s->max_iter,.step_size=s->step,.delta=s->delta,
        .n_tries=3,.iters_fixed_T=3,.t_initial=3,.mu_t=1.6,.t_min=0.3,.k=1,.rng=rng);
    if (s->start_given) Apop_settings_set(m,apop_mle,starting_pt,s->st);
    if (s->path) Apop_settings_set(m,apop_mle,path,&path);
    if (s->dimcycle) Apop_settings_set(m,apop_mle,dim_cycle_tolerance,1e-2);
    /* generous: a line search halves its step up to 1100 times, a numerical gradient costs 8 evaluations per dimension */
    long per = isnm? 4*(dim+3) : isan? 3000 : 1500+600*(2+10*dim);
    bound = isan? 3000 : (long)(s->max_iter+4)*per+100; after_bound= isnm? 5*(dim+3) : per+400;
    if (s->dimcycle){ bound*= (long)(s->max_iter+2)*dim; after_bound+=50; }
    if (s->cov){ bound+=2000; after_bound+=2000; }
    expect_handler=!s->dimcycle && !s->cov && !(ob.use_score && s->method>=4 && s->method<=6); faults_on=faulty; f_suspended=faulty?0:1;
    in_search=1; apop_model *e=apop_estimate(tdata,m); in_search=0; faults_on=0; f_suspended=1;
    CK(sim_signal_installed(SIGINT)==SIG_DFL,"handler-left-installed","after the search (%s) the library's SIGINT handler is still installed",methods[s->method]);
    CK(e&&e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==dim,"no-parameters","the search returned a model without its parameter vector");
    r->dim=dim; r->evals=evals; for (int i=0;i<dim;i++) r->p[i]=e->parameters->vector->data[i]; r->err=e->error;
    int ix= e->info? apop_name_find(e->info->names,"status",'r') : -2;
    r->has_status= ix!=-2; r->status= ix!=-2? apop_data_get(e->info,ix) : NAN;
    ix= e->info? apop_name_find(e->info->names,"log likelihood",'r') : -2; r->ll= ix!=-2? apop_data_get(e->info,ix): NAN;
    r->lp=truth(r->p);
    int fin=1; for (int i=0;i<dim;i++) fin&=isfinite(r->p[i]);
    double s0[MAXD]; for (int i=0;i<dim;i++) s0[i]=s->start_given? s->st[i]: 1; if (ob.constraint) for (int i=0;i<dim;i++) if (s0[i]<ob.lo) s0[i]=ob.lo;
    double ll0=truth(s0);
    int conv= r->has_status && r->status==0;
    const char *mn=methods[s->method];
    if (interrupted) CK(!conv,"interrupt-reported-as-optimum","%s: the search was interrupted, and reports status 0 (optimum found)",mn);
    if (interrupted && !nan_seen && !inf_seen){ CK(fin||(s->method>=4&&!isan),"unusable-after-interrupt","%s: parameters are not finite after an interrupt",mn);
        if (isnm && !s->dimcycle && !ob.constraint) CK(r->lp>=ll0-1e-9*(1+fabs(ll0)),"lost-progress","NM simplex: log likelihood %g after the interrupt, %g at the starting point",r->lp,ll0); }
    if (nan_seen && nan_strict) CK(!conv,"nan-reported-as-optimum","%s: the likelihood was NaN, and the search reports status 0 (optimum found)",mn);
    if (conv) CK(fin,"bad-optimum","%s: status 0 (optimum found) with parameters that are not finite",mn);
    if (!interrupted&&!nan_seen&&!inf_seen){
        if (s->method<4 || isan) CK(fin,"bad-optimum","%s: parameters are not finite after a search without faults",mn);
        if (s->method<4 && !ob.constraint && !s->dimcycle) CK(r->lp>=ll0-1e-6*(1+fabs(ll0)),"lost-progress","%s: log likelihood %g after the search, %g at the starting point",mn,r->lp,ll0);
        if (conv && !isan && !s->dimcycle && !ob.constraint && !ob.use_p && (s->method<4||ob.shape==0)){
            double w=0; for (int i=0;i<dim;i++) w=fmax(w,fabs(r->p[i]-ob.c[i])); sim_event("dist %g tol %g",w,s->tol);
            double lim= isnm? 60*s->step+0.5 : 0.05+ 20*s->tol; sim_state((uint64_t)(10*w)+100);
            if (!isnm||s->tol<=1e-3) CK(w<=lim,"false-optimum","%s: status 0 (optimum found), yet a parameter is %g away from the maximum (tolerance %g, start distance %g)",mn,w,s->tol,fabs(s0[0]-ob.c[0])); }
        if (s->dimcycle && !ob.constraint && !ob.use_p && s->method<4 && s->max_iter>=60){ /* coordinate ascent on a concave function reaches the maximum */
            CK(r->lp>=ll0-1e-6*(1+fabs(ll0)),"lost-progress","dimension cycling with %s: log likelihood %g after the search, %g at the starting point",mn,r->lp,ll0); }
    }
    if (r->has_status && !isnan(r->ll) && !inf_seen && fin && (!ob.use_p||r->lp>-600)) CK(close_d(r->ll,r->lp,1e-9),"wrong-log-likelihood","%s: reported log likelihood %.12g, the likelihood at the reported parameters is %.12g",mn,r->ll,r->lp);
    if (s->restart && fin && !isan && isfinite(truth(r->p))){
        double before=r->lp; expect_handler=0; evals=evals_after_int=interrupted=nan_seen=inf_seen=0; in_search=1;
        int m2= s->rmode? s->rmeth: s->method, first_ok= m2<4&&!s->dimcycle&&!ob.constraint; apop_model *c=NULL; double *from=r->p; bound=1000000; after_bound=1000000; gsl_rng *rng2=NULL;
        static double ones[MAXD]={1,1,1}; static char *modes[]={NULL,"ep","es","np","ns"}; first_at=s->fp;
        if (s->rmode){ c=base_model(); rng2=rng_of(s->seed+1); Apop_settings_add_group(c,apop_parts_wanted,.info='y'); if (s->rgroup||s->rmode==4) Apop_settings_add_group(c,apop_mle,.method=(char*)methods[m2],.tolerance=s->tol,.max_iterations=s->max_iter,.step_size=s->step,.delta=s->delta,.n_tries=3,.iters_fixed_T=3,.t_initial=3,.mu_t=1.6,.t_min=0.3,.k=1,.rng=rng2,.starting_pt=s->st2); else { m2=0; first_ok=!s->dimcycle&&!ob.constraint; }
            if (s->rmode==3){ apop_prep(tdata,c); memcpy(c->parameters->vector->data,s->st2,dim*sizeof(double)); } from= s->rmode==1?r->p: s->rmode==2?(s->start_given?s->st:ones): s->st2; }
        faults_on=faulty&&s->rfaults; f_suspended=!faults_on; s->fp[0]=NAN; apop_model *e2= s->rmode? apop_estimate_restart(e,c,.starting_pt=modes[s->rmode]): apop_estimate_restart(e); in_search=0; faults_on=0; f_suspended=1; first_at=NULL; e=e2;
        CK(e&&e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==dim,"no-parameters","the restarted search returned a model without its parameter vector");
        double after=truth(e->parameters->vector->data); sim_event("restart %g %g",before,after); sim_probe("restarted"); if (s->rmode) sim_probe("restarted_another_way");
        if (!inf_seen) CK(after>=before-1e-6*(1+fabs(before)),"restart-worse","apop_estimate_restart%s%s returned log likelihood %g, the estimate it started from has %g",s->rmode?" from ":"",s->rmode?modes[s->rmode]:"",after,before);
        if (!inf_seen&&!nan_seen&&!interrupted&&s->max_iter>=500&&s->tol<=1e-3&&dim<=2&&!ob.constraint&&!ob.use_p&&m2==0&&(s->rgroup||!s->rmode||s->rmode==4)&&!s->dimcycle) CK(after>=-0.1,"restart-worse","apop_estimate_restart returned log likelihood %g, after a search of 500 rounds for the maximum, 0",after);
        int f2=1; for (int i=0;i<dim;i++) f2&=isfinite(e->parameters->vector->data[i]); CK(f2,"restart-worse","apop_estimate_restart replaced finite parameters by infinite ones");
        if (first_ok&&!isnan(s->fp[0])) for (int i=0;i<dim;i++) CK(fabs(s->fp[i]-from[i])<=2.5*s->delta,"restart-start","the search restarted from \"%s\" begins with parameter %d at %g and not %g",s->rmode?modes[s->rmode]:"",i,s->fp[i],from[i]);
        for (int i=0;i<dim;i++) r->p[i]=e->parameters->vector->data[i]; if (rng2) gsl_rng_free(rng2);
        CK(sim_signal_installed(SIGINT)==SIG_DFL,"handler-left-installed","after a restarted search (%s) the library's SIGINT handler is still installed",mn);
    }
    if (path){ CK(!path->matrix || (int)path->matrix->size2==dim,"path","the recorded path has %zu columns for %d parameters",path->matrix->size2,dim);
        if (path->matrix&&path->vector) CK(path->matrix->size1==path->vector->size,"path","the recorded path has %zu points and %zu values",path->matrix->size1,path->vector->size); }
    if (ob.use_score) apop_score_vtable_drop(m);
    apop_model_free(e); apop_model_free(m); gsl_rng_free(rng); if (path) apop_data_free(path);
}
static void pick_search(search *s){
    memset(s,0,sizeof *s); s->method=w_choose(8); objective *o=&s->o; o->dim=1+w_choose(MAXD); o->shape=w_choose(3); o->use_score= s->method>=1&&s->method<=6? w_choose(2): w_chance(1,4); o->use_p=w_chance(1,6); o->constraint=w_chance(1,4);
    for (int i=0;i<o->dim;i++){ o->a[i]=w_real(0.3,3); o->c[i]=w_real(-3,3); } o->lo=-4;
    if (o->use_p){ o->use_score=0; for (int i=0;i<o->dim;i++){ o->a[i]=w_real(.1,.4); o->c[i]=w_real(-1,2); } }
    static const int mi[]={1,2,3,5,8,20,60,500}; s->max_iter=mi[w_choose(8)];
    static const double tl[]={1e-2,1e-3,1e-4,1e-5}; s->tol=tl[w_choose(4)]; static const double sp[]={0.05,0.1,0.5,1}; s->step=sp[w_choose(4)]; s->delta= w_choose(2)? 1e-3: 1e-2;
    s->start_given=w_choose(3)>0; for (int i=0;i<MAXD;i++) s->st[i]= w_real(-2.5,2.5);
    s->dimcycle= s->method!=7 && w_chance(1,5); if (s->dimcycle && s->max_iter>60) s->max_iter=60;
    s->path=w_chance(1,5); if (s->dimcycle) s->path=0; s->restart=w_chance(1,3); s->cov= w_chance(1,8); s->seed=1+w_choose(1000);
    if (s->restart){ s->rmode=w_choose(5); s->rmeth=w_choose(8); s->rgroup=w_choose(4)>0; s->rfaults=w_choose(2); for (int i=0;i<MAXD;i++) s->st2[i]=w_real(-2.5,2.5); }
}
static search A,B; static result *rA,*rB,*rRef; static int fault_mode;
static int quiet_search(search *s){ return 0; }
static void ref_body(void *v){ (void)v; quiet(); apop_opts.verbose=-1; tdata=apop_data_alloc(4,1); f_suspended=1; gsl_set_error_handler_off(); run_search(&B,rRef,0); }
static void main_body_(void *v){ (void)v; quiet(); apop_opts.verbose=-1; gsl_set_error_handler_off(); tdata=apop_data_alloc(4,1);
    nan_strict= A.o.use_score? (A.method>0||1) : A.method==0; if (A.method>=4&&A.method<=6) nan_strict=0; if (A.dimcycle) nan_strict=0; if (A.method==7) nan_strict=1; if (A.cov) nan_strict=0; if (A.method>=1&&A.method<=3&&!A.o.use_score) nan_strict=0;
    int rate[]={2,5,20,60,200}; double p=1.0/rate[w_choose(5)];
    if (fault_mode&1) f_enable(FK_CB_NAN,p,1+w_choose(3));
    if (fault_mode&2) f_enable(FK_CB_INF,p,1+w_choose(4));
    if (fault_mode&4) f_enable(FK_SIGINT,p,1);
    run_search(&A,rA,1); sim_event("A %g %g %ld",rA->p[0],rA->status,rA->evals); if (f_fired_total()) sim_nontrivial();
    sim_state(sim_hash(rA,sizeof *rA,FNV0));
    run_search(&B,rB,0); }
void scen_search(void){
    rA=sim_shared(sizeof *rA); rB=sim_shared(sizeof *rB); rRef=sim_shared(sizeof *rRef);
    pick_search(&A); if (w_choose(2)) { B=A; } else pick_search(&B);
    fault_mode=w_choose(8);
    static const char *sh[]={"quadratic","log cosh","pseudo-Huber"};
    sim_describe("%s, %d parameter(s), %s %s%s%s, start (%s %g), tolerance %g, at most %d iterations, step %g%s%s%s; then a clean %s search",methods[A.method],A.o.dim,sh[A.o.shape],A.o.use_p?"probability":"log likelihood",A.o.use_score?" with score":"",A.o.constraint?" with constraint":"",A.start_given?"given":"default",A.start_given?A.st[0]:1.,A.tol,A.max_iter,A.step,A.dimcycle?", dimension cycling":"",A.cov?", covariance":"",A.restart?", then a restart":"",methods[B.method]);
    sim_on_hang("unbounded-search");
    sim_process(ref_body,NULL); sim_process(main_body_,NULL);
    for (int i=0;i<rRef->dim;i++) CK(same_d(rRef->p[i],rB->p[i]),"later-search-affected","a clean %s search gives parameter %d = %.17g, and %.17g after a disturbed %s search in the same process",methods[B.method],i,rRef->p[i],rB->p[i],methods[A.method]);
    CK(rRef->has_status==rB->has_status && same_d(rRef->status,rB->status) && same_d(rRef->ll,rB->ll) && rRef->evals==rB->evals,"later-search-affected","a clean %s search reports status %g, log likelihood %g in %ld evaluations; after a disturbed %s search: %g, %g, %ld",methods[B.method],rRef->status,rRef->ll,rRef->evals,methods[A.method],rB->status,rB->ll,rB->evals);
}
