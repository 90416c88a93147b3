/* C16: Metropolis-Hastings chains.  The target, the constraint, the proposals and the step functions are the seams: each writes
down what it was asked and what it answered, and fails on command.  The chain the library returns is checked, row by row, against
those notes: what was proposed at each step, what the target was there, and whether the step was taken. */
#include "common.h"
int apop_model_metropolis_draw(double *out,gsl_rng *rng,apop_model *model);
enum { T=3, MAXD=12, MAXE=9000, MAXOPS=14, MAXB=14 };
enum { E_PROP, E_CON, E_LL, E_STEP };
typedef struct { unsigned char what,block,rc; double v; double x[MAXD]; } entry;
typedef struct { int k,what; double f,w; } hole;             // where coordinate k is in the hole, the target is NaN (0), -inf (1), or a failed constraint (2)
typedef struct {
    int v,m1,m2,w,pv,info,n,nb; int start[MAXB+1];           // shape of the parameters, and the blocks
    int kind,nholes; hole h[3]; double mu[MAXD],sd[MAXD]; int hascon,use_p;
    int periods,set_burn; double burn; char chunks,start_at; int own,wrap,dsz,tar; double target,p0[MAXD];
    int conkind; double sig;
    apop_data *d; int ncall,nfate,replay; unsigned char fate[20000]; uint64_t seed; int adapted;
    int nlog; entry log[MAXE];                               // what the chain has asked, in order
} spec;
typedef struct { int block; spec *s; } propnote;
static spec SP[T]; static propnote PN[T][MAXB];
static int pack(apop_data *p,double *x){ int k=0; for (;p;p=p->more){ if (p->names->title&&p->names->title[0]=='<') continue; if (p->vector) for (size_t i=0;i<p->vector->size;i++) x[k++]=gsl_vector_get(p->vector,i); if (p->matrix) for (size_t i=0;i<p->matrix->size1;i++) for (size_t j=0;j<p->matrix->size2;j++) x[k++]=gsl_matrix_get(p->matrix,i,j); if (p->weights) for (size_t i=0;i<p->weights->size;i++) x[k++]=gsl_vector_get(p->weights,i); } return k; }
static void put_in(apop_data *p,double *x){ int k=0; for (;p;p=p->more){ if (p->names->title&&p->names->title[0]=='<') continue; if (p->vector) for (size_t i=0;i<p->vector->size;i++) gsl_vector_set(p->vector,i,x[k++]); if (p->matrix) for (size_t i=0;i<p->matrix->size1;i++) for (size_t j=0;j<p->matrix->size2;j++) gsl_matrix_set(p->matrix,i,j,x[k++]); if (p->weights) for (size_t i=0;i<p->weights->size;i++) gsl_vector_set(p->weights,i,x[k++]); } }
static int in_hole(hole *h,double x){ double y=(x-1)*h->f+0.5*(1-h->w); y-=floor(y); return y>1-h->w; }   // never at 1 
static double true_ll(spec *s,double *x){ for (int i=0;i<s->nholes;i++) if (s->h[i].what<2&&in_hole(s->h+i,x[s->h[i].k])) return s->h[i].what?-INFINITY:NAN;
    double t=0; switch(s->kind){ case 0: for (int i=0;i<s->n;i++) t-=(x[i]-s->mu[i])*(x[i]-s->mu[i])/(2*s->sd[i]*s->sd[i]); return t; case 1: for (int i=0;i<s->n;i++) t-=fabs(x[i]-s->mu[i])/s->sd[i]; return t; case 2: return 0; default: for (int i=0;i<s->n;i++) t+=log(exp(-(x[i]-s->mu[i])*(x[i]-s->mu[i]))+0.4*exp(-(x[i]+2)*(x[i]+2)/s->sd[i])+1e-12); return t; } }
static int con_fails(spec *s,double *x){ for (int i=0;i<s->nholes;i++) if (s->h[i].what==2&&in_hole(s->h+i,x[s->h[i].k])) return 1; return 0; }
static entry *add(spec *s,int what){ if (s->nlog>=MAXE) sim_skip("the notebook is full"); entry *e=&s->log[s->nlog++]; memset(e,0,offsetof(entry,x)); e->what=what; return e; }
static int fate(spec *s,int kinds){ int c=s->ncall++; if (s->replay) return c<s->nfate?s->fate[c]:0; uint32_t a; int f=0; if (kinds==0){ if (f_point(FK_CB_NAN,1,&a)) f=1; else if (f_point(FK_CB_INF,1,&a)) f=2; } else if (f_point(FK_CB_FAIL,1,&a)) f=3; if (c<20000){ s->fate[c]=f; s->nfate=c+1; } return f; }
static long double target_ll(apop_data *d,apop_model *m){ spec *s=m->more; entry *e=add(s,E_LL); CK(d==s->d,"mcmc:data","the target is evaluated with data other than the data given"); int n=pack(m->parameters,e->x); CK(n==s->n,"mcmc:shape","the target has %d parameters instead of %d",n,s->n); e->v=true_ll(s,e->x); if (s->use_p) e->v= isnan(e->v)?e->v:log(exp(e->v)); int f=fate(s,0); if (f) e->v= f==1?NAN:-INFINITY; sim_point(); return e->v; }
static long double target_p(apop_data *d,apop_model *m){ spec *s=m->more; long double l=target_ll(d,m); return isnan(l)?l:expl(l); }
static long double target_con(apop_data *d,apop_model *m){ (void)d; spec *s=m->more; entry *e=add(s,E_CON); pack(m->parameters,e->x); e->rc=con_fails(s,e->x); sim_point(); return e->rc?0.25:0; }
static int my_prop(double *out,gsl_rng *r,apop_model *m){ propnote *pn=m->more; spec *s=pn->s; int b=pn->block,len=s->start[b+1]-s->start[b]; entry *e=add(s,E_PROP); e->block=b;
    int fail=s->own>=1&&fate(s,1)==3; gsl_vector *mu=m->parameters->vector;
    for (int i=0;i<len;i++){ double g=gsl_ran_gaussian(r,s->sig); out[i]= fail?-1e9:s->own==3?1+6*(gsl_rng_uniform(r)-0.5):(s->own==2?(double)(int)(1.5*g):g)+gsl_vector_get(mu,i); e->x[i]=out[i]; } e->rc=fail; sim_point(); return fail; }
static void (*lib_step)(double const*,apop_mcmc_proposal_s*,apop_mcmc_settings*); static int (*lib_adapt)(apop_mcmc_proposal_s*,apop_mcmc_settings*);
static spec *S_of(apop_mcmc_settings *ms){ return &SP[ms->histosegments]; }   // an otherwise unused field
static void my_step(double const *d,apop_mcmc_proposal_s *ps,apop_mcmc_settings *ms){ spec *s=S_of(ms); entry *e=add(s,E_STEP); int len=ps->proposal->parameters->vector->size; if (ps->proposal->dsize==1) len=1; memcpy(e->x,d,len*sizeof(double)); e->block=len; lib_step(d,ps,ms); }
static int my_adapt(apop_mcmc_proposal_s *ps,apop_mcmc_settings *ms){ S_of(ms)->adapted++; return lib_adapt(ps,ms); }
static int no_adapt(apop_mcmc_proposal_s *ps,apop_mcmc_settings *ms){ (void)ps; (void)ms; return 0; }

typedef struct { spec *s; int si; apop_model *m,*out; apop_mcmc_proposal_s *own; } chain;
typedef struct { double x[MAXD]; int rc,who; } drawn;
enum { MAXDR=60 };
typedef struct { double x[MAXD],ll,S,V; int acc,rej,con,cur,row,made; int bacc[MAXB],brej[MAXB]; } state;
static int nthr;
static apop_data *params(spec *s,double *x){ apop_data *p=apop_data_alloc(s->v,s->m1,s->m2); if (s->w) p->weights=gsl_vector_alloc(s->w); apop_data *e=p; if (s->info){ e=e->more=apop_data_alloc(2); apop_name_add(e->names,"<Info>",'h'); gsl_vector_set_all(e->vector,9); } if (s->pv) e->more=apop_data_alloc(s->pv); put_in(p,x); return p; }
static int burned(spec *s){ double b=s->burn; if (b==0) b=0.05; if (b>1) b/=(double)s->periods; return s->periods*b; }
static void gen(spec *s){
    memset(s,0,offsetof(spec,fate)); s->nlog=s->adapted=0; s->seed=w_choose(100000); s->v=w_choose(5)<4?1+w_choose(3):0; if (w_choose(3)==2||!s->v){ s->m1=1+w_choose(2); s->m2=1+w_choose(2); } if (w_choose(6)==5) s->w=1+w_choose(2); if (w_choose(6)==5) s->pv=1+w_choose(2); s->info= w_choose(8)==7; s->n=s->v+s->m1*s->m2+s->w+s->pv;
    s->chunks="bai"[w_choose(3)]; int sizes[4]={s->v,s->m1*s->m2,s->w,s->pv}; if (s->chunks=='b'){ for (int i=0;i<4;i++) if (sizes[i]){ s->start[s->nb+1]=s->start[s->nb]+sizes[i]; s->nb++; } } else if (s->chunks=='a'){ s->nb=1; s->start[1]=s->n; } else { s->nb=s->n; for (int i=0;i<s->n;i++) s->start[i+1]=i+1; }
    s->use_p=w_choose(6)==5; s->kind= s->use_p?1+w_choose(3):w_choose(4); for (int i=0;i<s->n;i++){ s->mu[i]=1+2*(w_choose(100)/50.-1); s->sd[i]=0.3+w_choose(100)/40.; }
    s->nholes=w_choose(3); for (int i=0;i<s->nholes;i++){ hole *h=s->h+i; h->k=w_choose(s->n); h->what=w_choose(3); h->f=(double[]){1,0.4,2,0.15}[w_choose(4)]; h->w=0.1+w_choose(40)/100.; if (h->what==2) s->hascon=1; } if (w_choose(5)==4) s->hascon=1;
    s->periods= w_choose(20)==19?1+w_choose(4):5+w_choose(w_choose(5)?60:300); int b=w_choose(5); s->burn= b==0?0:b==1?(double[]){.25,.1,.3,.5,.2,.7}[w_choose(6)]:b==2?w_choose(99)/100.:b==3&&s->periods>3?(double)(2+w_choose(s->periods-2)):0.001;
    s->start_at= w_choose(3)==2?'p':'1'; s->target= w_choose(3)==2?0.1+w_choose(80)/100.:0; s->own=w_choose(3)==2?1+w_choose(3):0; s->wrap=w_choose(2)||burned(s)||s->own==2; s->sig=0.3+w_choose(100)/50.; if (s->own&&s->chunks=='i') s->dsz=w_choose(2);
    for (int i=0;i<s->n;i++) s->p0[i]= s->start_at=='p'&&s->nholes==0?1+0.25*w_choose(9)-1:1; }
static void mk_chain(chain *c,int si){
    spec *s=SP+si; *c=(chain){.s=s,.si=si}; s->nlog=s->ncall=s->adapted=0; apop_model *m=c->m=apop_model_copy(&(apop_model){.name="noted target",.dsize=s->n}); if (s->use_p) m->p=target_p; else m->log_likelihood=target_ll; m->more=s; m->more_size=0; m->parameters=params(s,s->p0); if (s->hascon) m->constraint=target_con;
    if (s->start_at=='1') for (int i=0;i<s->n&&w_choose(2);i++){ double z[MAXD]; for (int k=0;k<s->n;k++) z[k]=-1e7; put_in(m->parameters,z); }
    Apop_settings_add_group(m,apop_mcmc,.periods=s->periods,.gibbs_chunks=s->chunks,.burnin=s->burn,.start_at=s->start_at,.target_accept_rate=s->target,.histosegments=si); apop_mcmc_settings *g=Apop_settings_get_group(m,apop_mcmc); lib_step=g->base_step_fn; lib_adapt=g->base_adapt_fn; if (s->wrap){ g->base_step_fn=my_step; g->base_adapt_fn=my_adapt; }
    if (s->own){ g->proposals=c->own=calloc(s->nb,sizeof *c->own); for (int b=0;b<s->nb;b++){ int len=s->start[b+1]-s->start[b]; apop_model *q=apop_model_copy(&(apop_model){.name="noted proposal",.vsize=len,.dsize=len,.draw=my_prop}); int two=len==1&&s->dsz; q->parameters=apop_data_alloc(len+two); for (int i=0;i<len;i++) gsl_vector_set(q->parameters->vector,i,1); if (two) gsl_vector_set(q->parameters->vector,1,7); PN[si][b]=(propnote){b,s}; q->more=&PN[si][b]; q->more_size=0; c->own[b].proposal=q; if (s->own==3||b%3==2) c->own[b].adapt_fn=no_adapt; } } }
static void end_chain(chain *c){ if (c->out){ apop_data *d=c->out->data; apop_model_free(c->out); apop_data_free(d); } if (c->own){ for (int b=0;b<c->s->nb;b++) apop_model_free(c->own[b].proposal); free(c->own); c->own=NULL; } apop_model_free(c->m); }
static int eq(double *a,double *b,int n){ for (int i=0;i<n;i++) if (a[i]!=b[i]) return 0; return 1; }
static void start(spec *s,state *st){ int cur=st->cur; *st=(state){.ll=-INFINITY,.cur=cur}; for (int i=0;i<s->n;i++) st->x[i]= s->start_at=='1'?1:s->p0[i]; }
/* follow the notes of the next steps; the rows reported are checked, or, if there are none to look at yet, given */
static void follow(spec *s,state *st,int steps,int burn,gsl_matrix *rows,gsl_matrix *mine,const char *what){
    for (int q=0;q<steps;q++){ int b=q%s->nb, prop=-1; entry *e=NULL; const int lo=s->start[b],len=s->start[b+1]-lo;
        while (!e){ CK(st->cur<s->nlog,"mcmc:steps","%s: the notes end after %d of %d steps",what,q,steps); entry *f=&s->log[st->cur++];
            if (f->what==E_PROP){ CK(f->block==b,"mcmc:block","%s: at step %d, block %d is proposed instead of block %d",what,q,f->block,b); if (f->rc){ prop=-1; sim_probe("proposal_failed"); } else prop=st->cur-1; continue; }
            CK(f->what!=E_STEP,"mcmc:accept","%s: a step is taken before the proposal of step %d is evaluated",what,q);
            if (f->what==E_CON){ st->con+=f->rc; continue; }
            for (int i=0;i<s->n;i++) if (i<lo||i>=lo+len) CK(f->x[i]==st->x[i],"mcmc:block","%s: the proposal of step %d has %.17g as parameter %d, which isn't in block %d; the chain is at %.17g",what,q,f->x[i],i,b,st->x[i]);
            if (s->own){ CK(prop>=0,"mcmc:failed-proposal","%s: at step %d, the target is evaluated although the proposal has failed",what,q); CK(eq(f->x+lo,s->log[prop].x,len),"mcmc:proposal","%s: at step %d, the target is evaluated at a point that wasn't proposed",what,q); prop=-1; }
            if (isfinite(f->v)) e=f; else sim_probe(isnan(f->v)?"target_nan":"target_minus_inf"); }
        int took; double rowx[MAXD]; const int kept=q>=burn; if (kept&&rows){ CK(st->row<(int)rows->size1,"mcmc:rows","%s: the chain has %d rows only",what,(int)rows->size1); for (int k=0;k<s->n;k++) rowx[k]=gsl_matrix_get(rows,st->row,k); }
        if (s->wrap){ took=st->cur<s->nlog&&s->log[st->cur].what==E_STEP; if (took){ entry *f=&s->log[st->cur++]; CK(f->block==len&&eq(f->x,e->x+lo,len),"mcmc:step","%s: after step %d, the step function is given a point that wasn't accepted",what,q); } }
        else took=eq(rowx,e->x,s->n);
        double ratio= st->ll==-INFINITY?INFINITY:e->v-st->ll, pr=ratio>=0?1:exp(ratio); if (ratio>1e-9) CK(took,"mcmc:rejected","%s: at step %d, a proposal with log likelihood %.12g is turned down; the chain is at %.12g",what,q,e->v,st->ll); else { st->S+=took-pr; st->V+=pr*(1-pr); }
        if (took){ CK(!s->hascon||!con_fails(s,e->x),"mcmc:constraint","%s: step %d is to a point that fails the constraint",what,q); memcpy(st->x,e->x,sizeof st->x); st->ll=e->v; st->acc++; st->bacc[b]++; } else { st->rej++; st->brej[b]++; }
        if (kept){ if (rows) CK(eq(rowx,st->x,s->n),"mcmc:row","%s: row %d, first number %.17g, is not where the chain is after step %d: it has %s %.17g from %.17g",what,st->row,rowx[0],q,took?"moved to":"rejected",e->x[0],st->x[0]); if (mine) for (int k=0;k<s->n;k++) gsl_matrix_set(mine,st->row,k,st->x[k]); st->row++; } }
    double V=st->V, lim=sqrt(2*V*45)+30+1; CK(fabs(st->S)<lim,"mcmc:odds","%s: of the proposals less likely than the current point, %g more were taken than their odds give (variance %g)",what,st->S,V); }
static void check_out(chain *c,state *st,int steps,const char *what){
    spec *s=c->s; CK(c->out,"mcmc:null","%s: no chain is returned",what); apop_data *d=c->out->data; CK(d&&d->matrix&&(int)d->matrix->size2==s->n,"mcmc:shape","%s: the chain has %d columns instead of %d",what,d&&d->matrix?(int)d->matrix->size2:0,s->n);
    int exp=s->periods-burned(s)+steps; CK((int)d->matrix->size1==exp,"mcmc:rows","%s: %d rows of %d periods with burn-in %g, and %d steps since",what,(int)d->matrix->size1,s->periods,s->burn,steps);
    if (d->weights){ CK((int)d->weights->size==exp,"mcmc:weights","%s: %d weights for %d rows",what,(int)d->weights->size,exp); for (int i=0;i<exp;i++) CK(gsl_vector_get(d->weights,i)==1,"mcmc:weights","%s: row %d has weight %g",what,i,gsl_vector_get(d->weights,i)); } (void)st; }
static void check_counts(chain *c,state *st,apop_model *holder,const char *what){ spec *s=c->s; apop_mcmc_settings *g=Apop_settings_get_group(holder,apop_mcmc); CK(g,"mcmc:counts","%s: the settings group is gone",what); CK(g->accept_count==st->acc&&g->reject_count==st->rej,"mcmc:counts","%s: %d proposals accepted and %d rejected, but the counts are %d and %d",what,st->acc,st->rej,g->accept_count,g->reject_count); CK(g->block_count==s->nb,"mcmc:counts","%s: %d blocks instead of %d",what,g->block_count,s->nb);
    for (int b=0;b<s->nb;b++) CK(g->proposals[b].accept_count==st->bacc[b]&&g->proposals[b].reject_count==st->brej[b],"mcmc:counts","%s: block %d has %d accepted and %d rejected, but counts %d and %d",what,b,st->bacc[b],st->brej[b],g->proposals[b].accept_count,g->proposals[b].reject_count); }
static chain C[T]; static int mode,nd[T]; static drawn D[MAXDR]; static int ndr; static uint64_t seed0;
static void run_one(chain *c,int k){ gsl_rng *r=rng_of(seed0+k); c->out=apop_model_metropolis(c->s->d,r,c->m); gsl_rng_free(r); }
static void draw_some(chain *c,int k,int n){ gsl_rng *r=rng_of(seed0+100+k); for (int i=0;i<n;i++){ drawn x={.who=k}; for (int j=0;j<MAXD;j++) x.x[j]=-55; x.rc=apop_draw(x.x,r,mode==4?c->m:c->out); CK(ndr<MAXDR,"mcmc:harness","too many draws"); D[ndr++]=x; sim_point(); } gsl_rng_free(r); }
static int phase; static void body(int t,void *v){ (void)v; sim_point(); if (mode==1&&phase==0){ run_one(&C[t],t); draw_some(&C[t],t,nd[t]); } if (mode==2) run_one(&C[t],t); if (mode>=3) draw_some(&C[0],t,nd[t]); }
static void team_body(void *v){ int t=omp_get_thread_num(); if (t<nthr) body(t,v); }
static void together(void){ sim_sched_on=1; if (seed0&1) sim_team(nthr,team_body,NULL); else sim_callers(nthr,body,NULL); sim_sched_on=0; }
/* every draw is where the chain is after some cycle of steps, each cycle giving one draw, a thread's draws in order */
static void match(spec *s,double (*at)[MAXD],int *rc,int n,int ordered){ char used[MAXDR]={0}; int last[16]; for (int i=0;i<16;i++) last[i]=-1; CK(n==ndr,"mcmc:draws","%d cycles of steps for %d draws",n,ndr); for (int i=0;i<ndr;i++){ int j=ordered?last[D[i].who]+1:0; for (;j<n;j++) if (!used[j]&&(eq(at[j],D[i].x,s->n)&&(ordered||!rc[j]||D[i].rc>=0)||(isnan(D[i].x[0])&&D[i].rc<0&&rc[j]))) break; CK(j<n,"mcmc:draw","draw %d (thread %d), first number %.17g, is not where the chain is after any cycle of steps",i,D[i].who,D[i].x[0]); used[j]=1; last[D[i].who]=j; if (nthr==1&&ordered) CK(D[i].rc==rc[j],"mcmc:draw","draw %d returns %d%s",i,D[i].rc,rc[j]?", but a proposal failed the constraint":""); } }
static void follow_draws(chain *c,state *st,int n,int ordered){ spec *s=c->s; static double at[MAXDR][MAXD]; static int rc[MAXDR]; st->S=st->V=0; for (int i=0;i<n;i++){ int con=st->con; follow(s,st,s->nb,0,c->out->data->matrix,NULL,"next step"); memcpy(at[i],st->x,sizeof at[i]); rc[i]=st->con>con; } match(s,at,rc,n,ordered); CK(st->cur==s->nlog,"mcmc:steps","%d calls are noted after the last step",s->nlog-st->cur); }
void scen_mcmc(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("mcmc:hang"); sim_sched_on=0; f_suspended=1; memset(C,0,sizeof C); ndr=0; seed0=w_choose(100000); mode=w_choose(4)<3?0:1+w_choose(4); nthr= mode?2+w_choose(2):1; int ns= mode==1?nthr:1, anyf=0; apop_data *d= w_choose(3)?apop_data_falloc((1,1,1),4,5):NULL;
    for (int t=0;t<ns;t++){ gen(SP+t); SP[t].d=d; SP[t].replay=0; SP[t].nfate=0; if (mode){ SP[t].periods= SP[t].periods%25+4; if (SP[t].burn>1) SP[t].burn=2; SP[t].wrap|=burned(SP+t)||mode==2; } if (mode==2) SP[t].start_at='1'; mk_chain(&C[t],t); if (mode==4){ C[0].m->draw=apop_model_metropolis_draw; C[0].m->data=d; } nd[t]=w_choose(3)?w_choose(6):0; } for (int t=ns;t<T;t++){ nd[t]=w_choose(6); if (mode==2&&t<nthr) C[t]=C[0]; }
    if (w_choose(2)){ anyf=1; double p=(double[]){0.03,0.15,0.4}[w_choose(3)]; int which=1+w_choose(7); if (which&1) f_enable(FK_CB_NAN,p,300); if (which&2) f_enable(FK_CB_INF,p,300); if (which&4) f_enable(FK_CB_FAIL,p,300); f_suspended=0; }
    state st[T]; memset(st,0,sizeof st); spec *s=SP; int many=0;
    if (mode==1||mode==2) together(); else if (mode==4){ if (!nd[0]) nd[0]=1; together(); C[0].out=Apop_settings_get(C[0].m,apop_mcmc,pmf); CK(C[0].out,"mcmc:null","a draw from the chain leaves no chain"); } else { run_one(&C[0],0); if (mode==0){ draw_some(&C[0],0,nd[0]); if (w_choose(5)==4){ many=1+w_choose(6); sim_set_nthreads(1+w_choose(4)); sim_sched_on=1; apop_data *dd=apop_model_draws(C[0].out,many); sim_sched_on=0; CK(dd&&dd->matrix&&(int)dd->matrix->size1==many&&(int)dd->matrix->size2==s->n,"mcmc:draws","%d draws come back in another shape",many); for (int i=0;i<many;i++){ drawn x={.who=0,.rc=-1}; for (int k=0;k<s->n;k++) x.x[k]=gsl_matrix_get(dd->matrix,i,k); D[ndr++]=x; } apop_data_free(dd); } } else together(); }
    f_suspended=1; uint64_t h=FNV0;
    if (mode==2){ gsl_matrix *mine[T]; char used[T]={0}; s->wrap=1; for (int k=0;k<nthr;k++){ start(s,&st[0]); for (int i=0;i<s->n;i++) st[0].x[i]=1; mine[k]=gsl_matrix_alloc(s->periods-burned(s),s->n); follow(s,&st[0],s->periods,burned(s),NULL,mine[k],"run on a shared model"); int j; for (j=0;j<nthr;j++) if (!used[j]){ check_out(&C[j],&st[0],0,"run on a shared model"); if (!mat_diff(C[j].out->data->matrix,mine[k])) break; } CK(j<nthr,"mcmc:row","no chain returned is the one of run %d",k); used[j]=1; CK((C[j].out->error=='c')==(st[0].con>0),"mcmc:error","%d proposals failed the constraint, and the chain's error mark is '%c'",st[0].con,C[j].out->error?C[j].out->error:'0'); gsl_matrix_free(mine[k]); }
        CK(st[0].cur==s->nlog,"mcmc:steps","%d calls are noted after the last run",s->nlog-st[0].cur); }
    else for (int t=0;t<ns;t++){ chain *c=&C[t]; s=c->s; int n= mode>=3?nd[0]+nd[1]+(nthr>2?nd[2]:0):nd[t]+many; start(s,&st[t]); check_out(c,&st[t],n*s->nb,"run"); follow(s,&st[t],s->periods,burned(s),c->out->data->matrix,NULL,"run");
        if (mode!=4) check_counts(c,&st[t],c->m,"after the run"); CK((c->out->error=='c')==(st[t].con>0)&&(c->out->data->error=='c')==(st[t].con>0),"mcmc:error","%d proposals failed the constraint, and the chain's error mark is '%c'",st[t].con,c->out->error?c->out->error:'0'); if (s->wrap&&!s->own) CK(s->adapted>=s->periods,"mcmc:adapt","the proposals are adapted %d times in %d steps",s->adapted,s->periods);
        double now[MAXD]; pack(c->m->parameters,now); if (mode!=4) CK(eq(now,st[t].x,s->n),"mcmc:last","the model's parameters, first number %.17g, aren't the last accepted proposal, %.17g",now[0],st[t].x[0]);
        if (mode!=1) follow_draws(c,&st[t],n,!many); else { static drawn all[MAXDR]; int na=ndr; memcpy(all,D,sizeof all); ndr=0; for (int i=0;i<na;i++) if (all[i].who==t) D[ndr++]=all[i]; follow_draws(c,&st[t],n,1); memcpy(D,all,sizeof all); ndr=na; }
        check_counts(c,&st[t],mode==4?c->m:c->out,"after the draws"); }
    /* the same seed again */
    if (mode<2&&!many) for (int t=0;t<ns;t++){ s=SP+t; static drawn all[MAXDR]; int na=ndr; memcpy(all,D,sizeof all); ndr=0; s->replay=1; chain again; mk_chain(&again,t); run_one(&again,t); draw_some(&again,t,nd[t]); const char *r=data_diff(again.out->data,C[t].out->data,1); CK(!r,"mcmc:repeat","the same seed again gives another chain: %s",r); int q=0; for (int i=0;i<na;i++) if (all[i].who==t){ CK(eq(all[i].x,D[q].x,s->n)&&all[i].rc==D[q].rc,"mcmc:repeat","the same seed again gives another draw %d",q); q++; } CK(again.out->error==C[t].out->error,"mcmc:repeat","the same seed again gives another error mark"); end_chain(&again); memcpy(D,all,sizeof all); ndr=na; }
    for (int t=0;t<(mode==2?nthr:ns);t++){ h=data_hash(C[t].out->data)^h*31; sim_event("chain %d %016llx",t,(unsigned long long)h); } 
    if (mode==2) for (int t=1;t<nthr;t++){ apop_data *x=C[t].out->data; apop_model_free(C[t].out); apop_data_free(x); } for (int t=0;t<ns;t++) end_chain(&C[t]); apop_data_free(d);
    sim_state(h); sim_nontrivial(); sim_describe("%s: %d threads, %d parameters in %d blocks, %d periods, burn-in %g, %s proposals, %d holes%s%s",(char*[]){"one chain","chains side by side","one target in several threads","one chain stepped by several threads","draws from a chain not yet run"}[mode],nthr,SP[0].n,SP[0].nb,SP[0].periods,SP[0].burn,(char*[]){"default","failing","lattice","independent"}[SP[0].own],SP[0].nholes,SP[0].hascon?", constraint":"",anyf?", target fails":""); }

/* updating: the target is the product of a prior and a likelihood, each noting its own calls */
typedef struct { spec *s; int is_prior; } side; static side SD[T][2]; static struct { int have[2]; double x[2][MAXD],v[2]; } pend[T];
static void half(side *sd,double *x,double v){ spec *s=sd->s; int t=s-SP,me=sd->is_prior; pend[t].have[me]=1; memcpy(pend[t].x[me],x,sizeof(double)*s->n); pend[t].v[me]=v; if (pend[t].have[0]&&pend[t].have[1]&&eq(pend[t].x[0],pend[t].x[1],s->n)){ entry *e=add(s,E_LL); memcpy(e->x,x,sizeof(double)*s->n); e->v=pend[t].v[0]+pend[t].v[1]; pend[t].have[0]=pend[t].have[1]=0; } }
static double prior_true(spec *s,double *x){ double t=0; for (int i=0;i<s->n;i++) t-=(x[i]-1)*(x[i]-1)/8; for (int i=0;i<s->nholes;i++) if (s->h[i].what==1&&in_hole(s->h+i,x[s->h[i].k])) return -INFINITY; return t; }
static long double prior_ll(apop_data *d,apop_model *m){ side *sd=m->more; double x[MAXD]; int n=pack(d,x); CK(n==sd->s->n,"mcmc:shape","the prior is evaluated at %d parameters instead of %d",n,sd->s->n); double v=prior_true(sd->s,x); int f=fate(sd->s,0); if (f) v= f==1?NAN:-INFINITY; half(sd,x,v); sim_point(); return v; }
static long double lik_ll(apop_data *d,apop_model *m){ side *sd=m->more; spec *s=sd->s; double x[MAXD]; CK(d==s->d,"mcmc:data","the likelihood is evaluated with data other than the data given"); int n=pack(m->parameters,x); CK(n==s->n,"mcmc:shape","the likelihood has %d parameters instead of %d",n,s->n); double v=true_ll(s,x); int f=fate(s,0); if (f) v= f==1?NAN:-INFINITY; half(sd,x,v); sim_point(); return v; }
static long double lik_con(apop_data *d,apop_model *m){ (void)d; side *sd=m->more; spec *s=sd->s; entry *e=add(s,E_CON); pack(m->parameters,e->x); e->rc=con_fails(s,e->x); return e->rc?0.5:0; }
static int prior_draw(double *out,gsl_rng *r,apop_model *m){ side *sd=m->more; spec *s=sd->s; entry *e=add(s,E_PROP); int f=fate(s,1)==3; for (int i=0;i<s->n;i++) out[i]=e->x[i]= f?-1e9:1+gsl_ran_gaussian(r,2); e->rc=f; sim_point(); return f; }
typedef struct { apop_model *prior,*lik,*out; } upd; static upd U[T];
static int draws_only[T];
static void mk_upd(int t){ spec *s=SP+t; s->nlog=s->ncall=s->adapted=0; memset(&pend[t],0,sizeof pend[t]); SD[t][0]=(side){s,0}; SD[t][1]=(side){s,1};
    apop_model *p=U[t].prior=apop_model_copy(&(apop_model){.name="noted prior",.dsize=s->n}); if (draws_only[t]) p->draw=prior_draw; else p->log_likelihood=prior_ll; p->more=&SD[t][1]; p->more_size=0; p->parameters=apop_data_alloc(1); gsl_vector_set(p->parameters->vector,0,3);
    Apop_settings_add_group(p,apop_mcmc,.periods=s->periods,.gibbs_chunks=s->chunks,.burnin=s->burn,.target_accept_rate=s->target,.histosegments=t); apop_mcmc_settings *g=Apop_settings_get_group(p,apop_mcmc); lib_step=g->base_step_fn; lib_adapt=g->base_adapt_fn; g->base_step_fn=my_step; g->base_adapt_fn=my_adapt;
    apop_model *l=U[t].lik=apop_model_copy(&(apop_model){.name="noted likelihood",.log_likelihood=lik_ll,.dsize=1}); l->more=&SD[t][0]; l->more_size=0; l->parameters=params(s,s->p0); if (s->hascon) l->constraint=lik_con; U[t].out=NULL; }
static void upd_body(int t,void *v){ (void)v; sim_point(); gsl_rng *r=rng_of(seed0+t); U[t].out=apop_update(SP[t].d,U[t].prior,U[t].lik,r); gsl_rng_free(r); if (draws_only[t]) return; chain c={.s=SP+t,.si=t,.out=U[t].out}; draw_some(&c,t,nd[t]); }
static void check_weighted(spec *s,apop_model *out){ CK(out&&out->data&&out->data->matrix&&(int)out->data->matrix->size1==s->periods&&out->data->weights,"mcmc:rows","updating by %d draws from the prior gives %d weighted rows",s->periods,out&&out->data&&out->data->matrix?(int)out->data->matrix->size1:0);
    int row=0,prop=-1,first=1; for (int i=0;i<s->nlog;i++){ entry *e=&s->log[i]; if (e->what==E_PROP){ if (!e->rc&&first){ first=0; prop=-2; } else prop= e->rc?-1:i; continue; } if (e->what==E_CON) continue; }
    (void)prop; for (int q=0;q<s->periods;q++){ int j,any=0; double *x=gsl_matrix_ptr(out->data->matrix,q,0); for (j=row;j<s->nlog;j++) if (s->log[j].what==E_LL&&eq(s->log[j].x,x,s->n)){ any=1; break; } CK(any,"mcmc:row","row %d, first number %.17g, is no draw from the prior at which the likelihood was evaluated, in order",q,x[0]); CK(!isnan(s->log[j].v),"mcmc:row","row %d is where the likelihood is not a number",q); CK(x[0]!=-1e9,"mcmc:failed-proposal","row %d is from a draw from the prior that failed",q); double w=gsl_vector_get(out->data->weights,q),ex=exp(s->log[j].v); CK(fabs(w-ex)<=1e-12*(ex+1e-300)+0,"mcmc:weights","row %d has weight %.15g; its likelihood is %.15g",q,w,ex); row=j+1; }
    for (int j=0;j<s->nlog;j++) if (s->log[j].what==E_LL&&s->log[j].x[0]==-1e9) sim_fail("mcmc:failed-proposal","the likelihood is evaluated at a failed draw from the prior"); }
static long double lik_ll_d(apop_data *d,apop_model *m){ side *sd=m->more; spec *s=sd->s; entry *e=add(s,E_LL); CK(d==s->d,"mcmc:data","the likelihood is evaluated with data other than the data given"); pack(m->parameters,e->x); e->v=true_ll(s,e->x); int f=fate(s,0); if (f) e->v= f==1?NAN:-INFINITY; sim_point(); return e->v; }
void scen_mcmc_update(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("mcmc:hang"); sim_sched_on=0; f_suspended=1; memset(C,0,sizeof C); ndr=0; mode=0; seed0=w_choose(100000); nthr=w_choose(3)==2?2+w_choose(2):1; int anyf=0; apop_data *d=apop_data_falloc((2),1,2);
    for (int t=0;t<nthr;t++){ spec *s=SP+t; gen(s); s->info=0; s->use_p=0; s->own=0; s->wrap=1; s->start_at='1'; s->d=d; s->replay=s->nfate=0; if (nthr>1){ s->periods=s->periods%30+4; if (s->burn>1) s->burn=2; } for (int i=0;i<s->n;i++) s->p0[i]=1; if (s->chunks!='i'){ s->nb=1; s->start[1]=s->n; } else { s->nb=s->n; for (int i=0;i<s->n;i++) s->start[i+1]=i+1; } draws_only[t]=w_choose(4)==3; mk_upd(t); if (draws_only[t]) U[t].lik->log_likelihood=lik_ll_d; nd[t]=w_choose(4); }
    if (w_choose(2)){ anyf=1; double p=(double[]){0.03,0.15,0.4}[w_choose(3)]; int which=1+w_choose(7); if (which&1) f_enable(FK_CB_NAN,p,300); if (which&2) f_enable(FK_CB_INF,p,300); if (which&4) f_enable(FK_CB_FAIL,p,300); f_suspended=0; }
    if (nthr>1){ sim_sched_on=1; if (seed0&1) sim_callers(nthr,upd_body,NULL); else sim_callers(nthr,upd_body,NULL); sim_sched_on=0; } else upd_body(0,NULL);
    f_suspended=1; uint64_t h=FNV0; static drawn all[MAXDR]; int na=ndr; memcpy(all,D,sizeof all);
    for (int t=0;t<nthr;t++){ spec *s=SP+t; state st={0}; chain c={.s=s,.si=t,.out=U[t].out}; CK(U[t].out,"mcmc:null","updating returns nothing"); if (draws_only[t]) check_weighted(s,U[t].out); else { start(s,&st); check_out(&c,&st,nd[t]*s->nb,"update"); follow(s,&st,s->periods,burned(s),U[t].out->data->matrix,NULL,"update"); CK((U[t].out->error=='c')==(st.con>0),"mcmc:error","%d proposals failed the constraint, and the posterior's error mark is '%c'",st.con,U[t].out->error?U[t].out->error:'0'); ndr=0; for (int i=0;i<na;i++) if (all[i].who==t) D[ndr++]=all[i]; int keep=nthr; follow_draws(&c,&st,nd[t],1); nthr=keep; check_counts(&c,&st,c.out,"after the update"); }
        h=data_hash(U[t].out->data)^h*31; }
    for (int t=0;t<nthr;t++){ spec *s=SP+t; apop_model *was=U[t].out; upd keep=U[t]; s->replay=1; mk_upd(t); if (draws_only[t]) U[t].lik->log_likelihood=lik_ll_d; ndr=0; upd_body(t,NULL); const char *r=data_diff(U[t].out->data,was->data,1); CK(!r,"mcmc:repeat","the same seed again gives another posterior: %s",r); apop_data *x=U[t].out->data; apop_model_free(U[t].out); apop_data_free(x); apop_model_free(U[t].prior); apop_model_free(U[t].lik); x=was->data; apop_model_free(was); apop_data_free(x); apop_model_free(keep.prior); apop_model_free(keep.lik); }
    apop_data_free(d); sim_event("%016llx",(unsigned long long)h); sim_state(h); sim_nontrivial(); sim_describe("update: %d threads, %d parameters, %d periods%s%s",nthr,SP[0].n,SP[0].periods,draws_only[0]?", weighted draws from the prior":"",anyf?", target fails":""); }
/* draws from a multivariate model that has a likelihood only */
static long double data_ll(apop_data *d,apop_model *m){ spec *s=m->more; entry *e=add(s,E_LL); CK(d->matrix&&d->matrix->size1==1&&(int)d->matrix->size2==s->n,"mcmc:shape","the model is evaluated at data of another shape"); for (int i=0;i<s->n;i++) e->x[i]=gsl_matrix_get(d->matrix,0,i); CK(m->parameters&&m->parameters->vector->size==2&&gsl_vector_get(m->parameters->vector,1)==6,"mcmc:data","the model is evaluated with parameters other than its own"); e->v=true_ll(s,e->x); int f=fate(s,0); if (f) e->v= f==1?NAN:-INFINITY; sim_point(); return e->v; }
static apop_model *SM; static void swap_body(int t,void *v){ (void)v; gsl_rng *r=rng_of(seed0+t); for (int i=0;i<nd[t];i++){ drawn x={.who=t}; for (int j=0;j<MAXD;j++) x.x[j]=-55; x.rc=apop_draw(x.x,r,SM); D[ndr++]=x; sim_point(); } gsl_rng_free(r); }
static apop_model *mk_swap(void){ spec *s=SP; s->nlog=s->ncall=0; apop_model *m=apop_model_copy(&(apop_model){.name="noted likelihood",.dsize=s->n,.log_likelihood=data_ll}); m->more=s; m->more_size=0; m->parameters=apop_data_falloc((2),5,6); return m; }
void scen_mcmc_swap(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("mcmc:hang"); sim_sched_on=0; f_suspended=1; ndr=0; seed0=w_choose(100000); nthr=w_choose(3)==2?2+w_choose(2):1; spec *s=SP; gen(s); s->n=2+w_choose(3); s->kind=w_choose(4); s->use_p=0; s->replay=s->nfate=0; s->nholes=w_choose(3); for (int i=0;i<s->n;i++){ s->mu[i]=1+w_choose(9)/4.; s->sd[i]=0.5+w_choose(9)/4.; } for (int i=0;i<s->nholes;i++){ s->h[i].k=w_choose(s->n); s->h[i].what=w_choose(2); s->h[i].f=0.4; s->h[i].w=0.3; } for (int t=0;t<nthr;t++) nd[t]=1+w_choose(8);
    int anyf=0; if (w_choose(2)){ anyf=1; double p=(double[]){0.003,0.05,0.4}[w_choose(3)]; if (w_choose(2)) f_enable(FK_CB_NAN,p,900); else f_enable(FK_CB_INF,p,900); f_suspended=0; }
    SM=mk_swap(); if (nthr>1){ sim_sched_on=1; sim_callers(nthr,swap_body,NULL); sim_sched_on=0; } else swap_body(0,NULL); f_suspended=1;
    int last[T]={0}; for (int i=0;i<ndr;i++){ int j,w=D[i].who; CK(!D[i].rc,"mcmc:draw","draw %d returns %d, with nothing wrong",i,D[i].rc); for (j=last[w];j<s->nlog;j++) if (isfinite(s->log[j].v)&&eq(s->log[j].x,D[i].x,s->n)) break; CK(j<s->nlog,"mcmc:row","draw %d, first number %.17g, is not a point at which the likelihood was found to be positive, at or after the one before it",i,D[i].x[0]); last[w]=j; }
    int fin=0,max=0; for (int j=0;j<s->nlog;j++) fin+=isfinite(s->log[j].v); for (int t=0;t<nthr;t++) if (last[t]>max) max=last[t]; CK(fin>=ndr,"mcmc:steps","%d draws from %d evaluations",ndr,fin); CK(same_d(gsl_vector_get(SM->parameters->vector,0),5),"mcmc:last","drawing changed the model's parameters");
    if (nthr==1){ static drawn all[MAXDR]; int na=ndr; memcpy(all,D,sizeof all); s->replay=1; apop_model *was=SM; SM=mk_swap(); ndr=0; swap_body(0,NULL); for (int i=0;i<na;i++) CK(eq(all[i].x,D[i].x,s->n),"mcmc:repeat","the same seed again gives another draw %d",i); apop_model_free(was); }
    sim_event("%d evaluations, last draw %.17g",s->nlog,D[ndr-1].x[0]); uint64_t h=FNV0; for (int i=0;i<ndr;i++) h=dbl_hash(D[i].x[0],h); sim_state(h); sim_nontrivial(); sim_describe("%d draws by %d threads from a likelihood in %d dimensions%s",ndr,nthr,s->n,anyf?", failing":""); apop_model_free(SM); }
