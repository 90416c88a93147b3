/* C15, second scenario: searches over composite models whose components have constraints (mixtures, partly fixed models, data-constrained
models), from starting points inside and outside.  No component is ever evaluated outside its constraint, and the result is inside. */
#include "common.h"
enum { W_PLAIN, W_MIX, W_FIX, W_DCON, NW };
static const char *wname[NW]={"model","mixture","model with a fixed parameter","data-constrained model"};
static const char *methods[]={"NM simplex","FR cg","BFGS cg","PR cg","Newton","Newton hybrid","Newton hybrid no scale","annealing"};
static double lo[3]; static long evals,limit,after; static int in_search,faulty,interrupted,odd,method,wrap;
static int which(apop_model *m){ return m->name[0]=='A'?0:m->name[0]=='B'?1:2; }
static long double inside_ll(apop_data *d,apop_model *m){
    double x=gsl_vector_get(m->parameters->vector,0),s=gsl_vector_get(m->parameters->vector,1); int k=which(m); evals++;
    if (in_search){ CK(isnan(s)||s>=lo[k]-1e-9,"constraint-ignored","%s over a %s evaluates component %d with a scale of %g, where its constraint asks for %g",methods[method],wname[wrap],k,s,lo[k]);
        if (evals>limit) sim_fail("unbounded-search","%ld evaluations of components so far, more than this search's settings can need (%ld)",evals,limit);
        if (interrupted&&++after>limit/4+5000) sim_fail("interrupt-ignored","%ld evaluations after the interrupt",after);
        if (faulty&&sim_signal_installed(SIGINT)!=SIG_DFL){ uint32_t a; if (!interrupted&&f_point(FK_SIGINT,0,NULL)){ interrupted=1; sim_raise(SIGINT); } if (f_point(FK_CB_NAN,0,NULL)){ odd=1; return NAN; } if (f_point(FK_CB_INF,2,&a)){ odd=1; return a?-INFINITY:INFINITY; } } }
    long double t=0; for (size_t i=0;i<d->matrix->size1;i++){ double z=(gsl_matrix_get(d->matrix,i,0)-x)/s; t+= -log(fabs(s)+1e-3)-z*z/2; } return t; }
static long double inside_constraint(apop_data *d,apop_model *m){ (void)d; double *s=gsl_vector_ptr(m->parameters->vector,1); int k=which(m); if (*s<lo[k]){ double p=lo[k]-*s; *s=lo[k]; return p; } return 0; }
static apop_model *component(int k,double x,double s){ static apop_model base={"A component",.vsize=2,.dsize=1,.log_likelihood=inside_ll,.constraint=inside_constraint}; apop_model *m=apop_model_copy(&base); m->name[0]="ABC"[k]; m->parameters=apop_data_alloc(2); gsl_vector_set(m->parameters->vector,0,x); gsl_vector_set(m->parameters->vector,1,s); return m; }
static double anything(apop_data *d,apop_model *m){ (void)d;(void)m; return 1; }
static double all_of_it(apop_model *m){ (void)m; return 1; }
void scen_inside(void){
    quiet(); apop_opts.verbose=-1; gsl_set_error_handler_off(); sim_sched_on=0; f_suspended=1; evals=after=0; interrupted=odd=0; limit=3000000; in_search=0;
    wrap=w_choose(NW); method=w_choose(8); int n=1+w_choose(6),nc= wrap==W_MIX?2+w_choose(2):1,which_fixed=w_choose(2); for (int k=0;k<3;k++) lo[k]=(int[]){1,2,4}[w_choose(3)]/4.;
    apop_data *d=apop_data_alloc(n,1); for (int i=0;i<n;i++) gsl_matrix_set(d->matrix,i,0,w_real(-3,3));
    apop_model *c[3]; double x0[3],s0[3]; for (int k=0;k<nc;k++){ x0[k]=w_real(-2,2); s0[k]=w_real(-1,3); c[k]=component(k,x0[k],s0[k]); }
    apop_model *m; int dim;
    switch(wrap){ case W_PLAIN: m=c[0]; dim=2; break;
        case W_MIX: m= nc==2?apop_model_mixture(c[0],c[1]):apop_model_mixture(c[0],c[1],c[2]); dim=3*nc; break;
        case W_FIX: gsl_vector_set(c[0]->parameters->vector,which_fixed,which_fixed?lo[0]+0.5:x0[0]); gsl_vector_set(c[0]->parameters->vector,!which_fixed,NAN); m=apop_model_fix_params(c[0]); dim=1; break;
        default: m=apop_model_dconstrain(.base_model=c[0],.constraint=anything,.scaling=all_of_it); dim=2; break; }
    static double st[9]; int given=w_choose(3)>0; if (wrap==W_MIX){ for (int k=0;k<nc;k++){ st[k]=w_choose(4)?1./nc:w_real(-0.5,1); st[nc+2*k]=x0[k]; st[nc+2*k+1]=s0[k]; } } else if (wrap==W_FIX) st[0]=which_fixed?x0[0]:s0[0]; else { st[0]=x0[0]; st[1]=s0[0]; }
    int mi=(int[]){1,3,20,100}[w_choose(4)]; double tol=(double[]){1e-2,1e-3,1e-5}[w_choose(3)],step=(double[]){0.1,0.5,2}[w_choose(3)]; gsl_rng *r=rng_of(1+w_choose(1000));
    Apop_settings_add_group(m,apop_parts_wanted,.covariance='n',.info='y');
    Apop_settings_add_group(m,apop_mle,.method=(char*)methods[method],.tolerance=tol,.max_iterations=mi,.step_size=step,.delta=1e-3,.n_tries=3,.iters_fixed_T=3,.t_initial=3,.mu_t=1.6,.t_min=0.3,.k=1,.rng=r);
    if (given) Apop_settings_set(m,apop_mle,starting_pt,st);
    int fm=w_choose(4); double p=1./(int[]){5,20,100,400}[w_choose(4)]; if (fm&1){ f_enable(FK_CB_NAN,p,2); f_enable(FK_CB_INF,p,2); } if (fm&2) f_enable(FK_SIGINT,p,1); faulty=fm;
    sim_nontrivial(); sim_describe("%s over a %s, %d components, %d rows, %s",methods[method],wname[wrap],nc,n,given?"starting point given":"default starting point");
    apop_data *db=deep_copy(d); in_search=1; f_suspended=0; apop_model *e=apop_estimate(d,m); f_suspended=1; in_search=0;
    CK(sim_signal_installed(SIGINT)==SIG_DFL,"handler-left-installed","after the search the library's SIGINT handler is still installed"); const char *q=data_diff(d,db,1); CK(!q,"data-changed","the search changed its data: %s",q);
    CK(e&&e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==dim,"no-parameters","a search over a %s with %d parameters returns another number of them",wname[wrap],dim); double *v=e->parameters->vector->data; int fin=1; for (int i=0;i<dim;i++) fin&=isfinite(v[i]);
    uint64_t h=FNV0; for (int i=0;i<dim;i++) h=dbl_hash(v[i],h); sim_state(h); sim_event("%s %016llx %ld",methods[method],(unsigned long long)h,evals);
    if (fin){ if (wrap==W_MIX){ for (int k=0;k<nc;k++){ CK(v[nc+2*k+1]>=lo[k]-1e-9,"constraint-ignored","%s: the result has component %d of a mixture at a scale of %g, where its constraint asks for %g",methods[method],k,v[nc+2*k+1],lo[k]); CK(v[k]>=-1e-9,"constraint-ignored","%s: the result gives component %d of a mixture a weight of %g",methods[method],k,v[k]); } }
        else if (wrap!=W_FIX||!which_fixed){ double s=v[dim-1]; CK(s>=lo[0]-1e-9,"constraint-ignored","%s: the result is a %s at a scale of %g, where its constraint asks for %g",methods[method],wname[wrap],s,lo[0]); } sim_probe("inside"); }
    apop_model_free(e); gsl_rng_free(r); }
