/* C25: draws from univariate models that have a density but no draw method.  The density is the seam: it writes down where it was
asked and what it answered, fails on command, and has holes where it is zero.  Each draw is checked against those notes, and many
draws together against the integral of the density. */
#include "common.h"
#include <gsl/gsl_cdf.h>
enum { MAXT=4, MAXN=3100, MAXE=60000, GRID=4000, MAXI=7 };
typedef struct { int kind,nholes; double hl[2],hr[2],off,anchor; } target;
typedef struct { double x,v; int who; } note;
static target TG; static note E[MAXE]; static int ne;
static unsigned char fate[MAXE]; static int nfate,ncall,replaying;
static double in_mu,in_sd; static gsl_vector *expect_par; static int usep,bypage; static apop_data *mydata;
static double ll_at(target *t,double mu,double sd,double x){
    for (int i=0;i<t->nholes;i++) if (x>t->hl[i]&&x<t->hr[i]) return -INFINITY;
    double z=(x-mu)/sd;
    switch(t->kind){
        case 0: return -z*z/2+t->off;
        case 1: return -z+t->off;
        case 2: return -fabs(z)+t->off;
        case 3: return t->off;
        case 4: return -z-exp(-z)+t->off;
        case 5: return log(0.6*exp(-z*z/2)+0.4*exp(-(z-4)*(z-4)/2)+1e-9)+t->off;
        case 6: return -1.5*log(1+z*z)+t->off;
        default: return z*0.7+t->off;
    }
}
static long double dens(apop_data *d,apop_model *m){
    target *t=m->more; CK(t==&TG,"arms:model","the density is evaluated for another model");
    CK(d&&d->matrix&&d->matrix->size1==1&&d->matrix->size2==1&&!d->vector,"arms:shape","the density is evaluated at data that are not one number");
    double mu=gsl_vector_get(m->parameters->vector,0), sd=gsl_vector_get(m->parameters->vector,1), x=gsl_matrix_get(d->matrix,0,0);
    CK(mu==in_mu&&sd==in_sd,"arms:model","the density is evaluated with parameters (%g, %g), not the model's own (%g, %g)",mu,sd,in_mu,in_sd);
    CK(!isnan(x),"arms:shape","the density is evaluated at a point that is not a number");
    double v=ll_at(t,mu,sd,x); int c=ncall++,f=0; uint32_t a;
    if (replaying) f= c<nfate?fate[c]:0;
    else { if (f_point(FK_CB_NAN,1,&a)) f=1; else if (f_point(FK_CB_INF,2,&a)) f=2+a; if (c<MAXE){ fate[c]=f; nfate=c+1; } }
    if (f) v= f==1?NAN:f==2?-INFINITY:INFINITY;
    if (ne>=MAXE) sim_skip("the notebook is full");
    E[ne++]=(note){x,v,sim_self()}; sim_point();
    return v;
}
static long double dens_p(apop_data *d,apop_model *m){ int k=ne; double p=exp(dens(d,m)); for (;k<ne;k++) if (E[k].who==sim_self()&&p==0) E[k].v=-INFINITY; return p; }
/* the run */
typedef struct { double lo,hi,xinit[MAXI],convex; int given,ninit,npoint; char metro; int nogroup; } conf;
typedef struct { double x; int rc,from,to; } drawn;
static conf CF; static apop_model *M[MAXT*300]; static drawn D[MAXT][MAXN]; static int nd[MAXT],nthr,fresh,self_of[MAXT],how; static unsigned long seed0;
static void mk_group(apop_model *m){
    conf *c=&CF; if (c->nogroup) return;
    double init[MAXI]; memcpy(init,c->xinit,sizeof init);
    if (c->given==1) Apop_settings_add_group(m,apop_arms,.model=m,.xl=c->lo,.xr=c->hi,.do_metro=c->metro,.convex=c->convex,.npoint=c->npoint);
    else if (c->given==2) Apop_settings_add_group(m,apop_arms,.model=m,.xl=c->lo,.xr=c->hi,.xinit=init,.ninit=c->ninit,.do_metro=c->metro,.convex=c->convex,.npoint=c->npoint);
    else Apop_settings_add_group(m,apop_arms,.model=m,.xinit=init,.ninit=c->ninit,.do_metro=c->metro,.convex=c->convex,.npoint=c->npoint);
    memset(init,0x77,sizeof init);
}
static apop_model *mk(void){ apop_model *m=apop_model_copy(&(apop_model){.name="noted density",.dsize=1}); if (usep) m->p=dens_p; else m->log_likelihood=dens; m->more=&TG; m->more_size=0; m->parameters=apop_data_falloc((2),in_mu,in_sd); m->data=mydata; mk_group(m); return m; }
static void body(int t,void *v){ (void)v; self_of[t]=sim_self(); gsl_rng *r= how==2?NULL:rng_of(seed0+t);
    for (int i=0;i<nd[t];i++){ drawn *d=&D[t][i]; apop_model *m= fresh?M[t*300+i]:M[0]; d->x=-555; d->from=ne; d->rc= how?apop_draw(&d->x,r,m):apop_arms_draw(&d->x,r,m); d->to=ne; sim_point(); }
    if (r) gsl_rng_free(r); }
/* the cumulative distribution, from the density alone */
static double cum[GRID+1],glo,ghi;
static void integrate(double lo,double hi){ glo=lo; ghi=hi; double h=(hi-lo)/GRID,mx=-INFINITY; static double y[2*GRID+1]; for (int i=0;i<=2*GRID;i++){ y[i]=ll_at(&TG,in_mu,in_sd,lo+i*h/2); if (y[i]>mx) mx=y[i]; } cum[0]=0; for (int i=0;i<GRID;i++) cum[i+1]=cum[i]+exp(y[2*i]-mx)+4*exp(y[2*i+1]-mx)+exp(y[2*i+2]-mx); for (int i=0;i<=GRID;i++) cum[i]/=cum[GRID]; }
static double F(double x){ double p=(x-glo)/(ghi-glo)*GRID; if (p<=0) return 0; if (p>=GRID) return 1; int i=p; return cum[i]+(cum[i+1]-cum[i])*(p-i); }
static int cmp(const void *a,const void *b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static int at_init(double x,double *xi,int n,double xprev){ for (int i=0;i<n;i++) if (x==xi[i]) return 1; return x==xprev; }
static void check(const char *when,int fired){
    static double all[MAXT*MAXN]; int na=0,fails=0;
    apop_arms_settings *g0=Apop_settings_get_group(M[0],apop_arms); CK(g0,"arms:settings","the model has no settings group after a draw (%s)",when);
    double lo=g0->xl,hi=g0->xr; if (CF.given&&!CF.nogroup) CK(lo==CF.lo&&hi==CF.hi,"arms:bounds","the bounds are [%g, %g] where [%g, %g] were asked for (%s)",lo,hi,CF.lo,CF.hi,when);
    CK(lo<hi&&g0->ninit>=3&&g0->xinit[0]>=lo&&g0->xinit[g0->ninit-1]<=hi,"arms:settings","the settings are not in order (%s)",when);
    for (int t=0;t<nthr;t++) for (int i=0;i<nd[t];i++){
        drawn *d=&D[t][i]; int nan=0,after=0,minf=0,minit=0,mine=0; double xprev=(g0->xinit[0]+g0->xinit[g0->ninit-1])/2.;
        for (int k=d->from;k<d->to;k++) if (E[k].who==self_of[t]){ mine++; if (isnan(E[k].v)||E[k].v==INFINITY) nan++; else if (E[k].v==-INFINITY){ minf++; if (at_init(E[k].x,g0->xinit,g0->ninit,xprev)) minit++; } if (isnan(E[k].v)||E[k].v==INFINITY) after=0; else after++; CK(E[k].x>=lo&&E[k].x<=hi,"arms:outside","the density is evaluated at %.17g, outside of the bounds [%g, %g] (%s)",E[k].x,lo,hi,when); }
        CK(mine<=3100,"arms:evaluations","a draw took %d evaluations of the density (%s)",mine,when);
        if (nan&&!(CF.nogroup&&(i==0||fresh)&&after>g0->ninit)) CK(d->rc,   // making the settings group tries once, and the draw once more
           "arms:unreported","the density could not be evaluated during a draw, but the draw returns %g and no failure (%s)",d->x,when);
        if (d->rc){ fails++; CK(isnan(d->x),"arms:unreported","a draw that failed is given as %g (%s)",d->x,when);
            CK(nan||minit||mine>=1000,"arms:failed","a draw failed though the density is in order where it was asked, %d points (%s)",mine,when); continue; }
        CK(d->x>=lo&&d->x<=hi,"arms:outside","draw %d is %.17g, outside of the bounds [%g, %g] (%s)",i,d->x,lo,hi,when);
        int k=d->to-1; for (;k>=0;k--) if (E[k].x==d->x&&isfinite(E[k].v)) break;
        if (CF.metro!='n') CK(k>=0,"arms:made-up","draw %d, %.17g, is not a point where the density was found to be positive (%s)",i,d->x,when);
        all[na++]=d->x; (void)minf;
    }
    if (!fired&&!TG.nholes&&CF.npoint==100&&!usep) CK(!fails,"arms:failed","%d draws failed with nothing wrong (%s)",fails,when);
    int concave= TG.kind!=5&&TG.kind!=6&&!TG.nholes;
    if (na>=100&&(concave||(TG.kind==6&&!fired&&!fresh))){ integrate(lo,hi); qsort(all,na,sizeof *all,cmp); double ks=0; for (int i=0;i<na;i++){ double f=F(all[i]); ks=GSL_MAX(ks,GSL_MAX(fabs(f-i/(double)na),fabs((i+1)/(double)na-f))); } sim_probe("distribution compared"); double s=ks*sqrt(na);
        double lim= concave?3.4:7; CK(s<lim,"arms:distribution","%d draws are %g from the distribution of the density, where %g is very unlikely (%s)",na,ks,lim/sqrt(na),when); }
    CK(gsl_vector_get(M[0]->parameters->vector,0)==in_mu&&gsl_vector_get(M[0]->parameters->vector,1)==in_sd&&M[0]->data==mydata,"arms:model","drawing changed the model's parameters or data (%s)",when);
}
static void params_of(void){ in_mu=CF.lo+(CF.hi-CF.lo)*(1+w_choose(9))/10.; in_sd=(CF.hi-CF.lo)*(1+w_choose(12))/30.; }
static void holes(void){ TG.nholes=0; if (w_choose(4)!=3||CF.metro=='n') return; int n=1+w_choose(2); for (int i=0;i<n;i++){ double w=(CF.hi-CF.lo)/4; double a=CF.lo+(CF.hi-CF.lo)*w_choose(100)/100.,b=a+w*(1+w_choose(10))/10.; int bad=0; double mid=(CF.given==1||CF.nogroup)?(CF.nogroup?0:(CF.lo+CF.hi)/2):0; 
        if (CF.given==1){ if (a<=CF.lo||b>=CF.hi||(mid>=a&&mid<=b)) bad=1; } else { for (int k=0;k<CF.ninit;k++) if (CF.xinit[k]>=a&&CF.xinit[k]<=b) bad=1; double xp=(CF.xinit[0]+CF.xinit[CF.ninit-1])/2; if (xp>=a&&xp<=b) bad=1; }
        if (!bad){ TG.hl[TG.nholes]=a; TG.hr[TG.nholes++]=b; } } }
static void counts(int big){ int per= big?150+w_choose(5)*100+(w_choose(8)==7)*2400:1+w_choose(25); for (int t=0;t<nthr;t++){ nd[t]=per/nthr-(int)w_choose(3); if (nd[t]<1) nd[t]=1; if (fresh&&nd[t]>250) nd[t]=250; } }
static void go(const char *when){
    if (fresh) for (int t=0;t<nthr;t++) for (int i=0;i<nd[t];i++) M[t*300+i]= t||i?apop_model_copy(M[0]):M[0];
    int was=f_fired_total(); if (nthr>1){ sim_sched_on=1; sim_callers(nthr,body,NULL); sim_sched_on=0; } else body(0,NULL);
    f_suspended++; check(when,f_fired_total()>was||replaying); f_suspended--;
    if (fresh) for (int t=0;t<nthr;t++) for (int i=!t;i<nd[t];i++) apop_model_free(M[t*300+i]);
}
void scen_arms(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("arms:hang"); sim_sched_on=0; f_suspended=1; ne=ncall=nfate=replaying=0; memset(&CF,0,sizeof CF); memset(&TG,0,sizeof TG);
    seed0=w_choose(100000); apop_opts.rng_seed=seed0+7; nthr=w_choose(3)==2?2+w_choose(3):1; int big=w_choose(3)==2; fresh=w_choose(3)==2; how=w_choose(3); if (nthr>1&&how==2) how=1; usep=w_choose(4)==3; mydata=w_choose(2)?apop_data_falloc((2),1,2):NULL;
    conf *c=&CF; c->given=w_choose(3); c->nogroup=w_choose(4)==3; if (c->nogroup) c->given=0; c->metro= !c->nogroup&&w_choose(4)==3?'n':'y';
    c->lo=(double[]){-1,0,1e-5,-20,3,0.5,-1e-3,-0.7}[w_choose(8)]; c->hi=c->lo+(double[]){1,2.5,10,40,0.01,100}[w_choose(6)];
    if (c->given==2&&(c->lo==0||c->hi==0)) c->given=1;   // with starting points of its own, a bound of zero means none given
    if (!c->given) { c->lo=-10.1; c->hi=10.1; }
    c->ninit=3; if (c->given!=1&&!c->nogroup){ c->ninit=3+w_choose(MAXI-2); double lo=c->given?c->lo:-1-(double)w_choose(4),hi=c->given?c->hi:1+w_choose(4); for (int i=0;i<c->ninit;i++) c->xinit[i]=lo+(hi-lo)*(i+0.5+w_choose(9)/20.-0.2)/c->ninit; if (!c->given){ c->lo=GSL_MIN(c->xinit[0]/10,c->xinit[0]*10)-.1; c->hi=GSL_MAX(c->xinit[c->ninit-1]/10,c->xinit[c->ninit-1]*10)+.1; } } else if (c->nogroup){ c->xinit[0]=-1; c->xinit[1]=0; c->xinit[2]=1; }
    c->npoint=w_choose(3)?100:2*c->ninit+1+w_choose(6); c->convex=w_choose(4)==3?w_choose(8)/8.:0;
    TG.kind=w_choose(8); if (c->metro=='n') TG.kind=0;   // elsewhere rounding makes it look convex
    TG.off=(double[]){0,-3,200,-600,5000}[w_choose(usep?2:5)]; if (c->metro=='n') TG.off=0; params_of(); holes();
    counts(big); M[0]=mk();
    int anyf=0; double p=0; int fk=0; if (w_choose(2)){ anyf=1; p=(double[]){0.005,0.05,0.4}[w_choose(3)]; fk=1+w_choose(3); if (fk&1) f_enable(FK_CB_NAN,p,900); if (fk&2) f_enable(FK_CB_INF,p,900); f_suspended=0; }
    sim_nontrivial(); sim_describe("%d draws by %d threads from a density of kind %d on [%g, %g]%s%s%s",nd[0]*nthr,nthr,TG.kind,c->lo,c->hi,TG.nholes?", with holes":"",anyf?", failing":"",fresh?", each from a copy":"");
    go("the first draws");
    uint64_t h=FNV0; for (int t=0;t<nthr;t++) for (int i=0;i<nd[t];i++) h=dbl_hash(D[t][i].x,h); sim_state(h); sim_event("%d evaluations, draws %016llx",ne,(unsigned long long)h);
    f_suspended=1;
    if (nthr==1&&!big&&how!=2){ static drawn was[MAXN]; memcpy(was,D[0],sizeof was); apop_model *m=M[0]; int k=ne; ne=ncall=0; replaying=1;
        (void)k; memset(fate+nfate,0,MAXE-nfate); M[0]=mk(); go("the same again"); for (int i=0;i<nd[0];i++) CK(same_d(was[i].x,D[0][i].x)&&!was[i].rc==!D[0][i].rc,"arms:repeat","the same seed again gives another draw %d",i); apop_model_free(M[0]); M[0]=m; replaying=0; }
    // another phase: once the density is in order again, with other parameters, or of a copy
    if (w_choose(2)){ int what=w_choose(3); apop_model *old=M[0]; if (what) ne=0;
        if (what==1){ params_of(); holes(); M[0]=apop_model_copy(old); gsl_vector_set(M[0]->parameters->vector,0,in_mu); gsl_vector_set(M[0]->parameters->vector,1,in_sd); apop_model_free(old); }
        else if (what==2){ params_of(); holes(); gsl_vector_set(old->parameters->vector,0,in_mu); gsl_vector_set(old->parameters->vector,1,in_sd); Apop_settings_rm_group(old,apop_arms); mk_group(old); }
        counts(big); seed0+=1000; go(what==1?"a copy with other parameters":what?"other parameters, after a reset":"once the density is in order"); }
    apop_model_free(M[0]); if (mydata) apop_data_free(mydata);
}
/* Metropolis steps: a density with two hills, of which the envelope covers one.  Without the right corrections, draws follow the envelope. */
typedef struct { double w,sep,sd,c,scale; int flip; long n; } hills; static hills H; static int hthr,hn[MAXT],hlow[MAXT],hsame[MAXT]; static apop_model *HM; static unsigned long hseed;
static long double hill_ll(apop_data *d,apop_model *m){ (void)m; double z=(gsl_matrix_get(d->matrix,0,0)-H.c)/H.scale; if (H.flip) z=-z; H.n++; return log(H.w*exp(-z*z/2)+(1-H.w)*exp(-gsl_pow_2((z-H.sep)/H.sd)/2)/H.sd); }
static void hill_draws(int t,void *v){ (void)v; gsl_rng *r=rng_of(hseed+t); double was=NAN; for (int i=0;i<hn[t];i++){ double x=-555; int rc=apop_draw(&x,r,HM); CK(!rc,"arms:failed","draw %d of a density with two hills failed",i); double z=(x-H.c)/H.scale; if (H.flip) z=-z; hlow[t]+= z<H.sep/2; hsame[t]+= x==was; was=x; if (i%16==0) sim_point(); } gsl_rng_free(r); }
void scen_arms_hills(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("arms:hang"); sim_sched_on=0; f_suspended=1;
    memset(&H,0,sizeof H); H.w=(double[]){0.5,0.3,0.7}[w_choose(3)]; H.sep=3; H.sd=(double[]){0.5,0.4,0.6}[w_choose(3)]; H.c=(double[]){0,1.5,-20}[w_choose(3)]; H.scale=(double[]){1,10,0.25}[w_choose(3)]; H.flip=w_choose(2); hthr=1+w_choose(3); hseed=1+w_choose(100000);
    double init[3]={-2,0,2},lo=-8,hi=12; for (int i=0;i<3;i++) init[i]=H.c+H.scale*(H.flip?-init[i]:init[i]); if (H.flip){ double z=init[0]; init[0]=init[2]; init[2]=z; z=lo; lo=-hi; hi=-z; } lo=H.c+H.scale*lo; hi=H.c+H.scale*hi;
    apop_model *m=HM=apop_model_copy(&(apop_model){.name="two hills",.dsize=1}); m->log_likelihood=hill_ll; m->parameters=apop_data_falloc((1),0); Apop_settings_add_group(m,apop_arms,.model=m,.do_metro='y',.xinit=init,.ninit=3,.xl=lo,.xr=hi);
    int N=3000; for (int t=0;t<hthr;t++){ hn[t]=N/hthr; hlow[t]=hsame[t]=0; }
    sim_nontrivial(); sim_describe("draws from a density with two hills of weight %g and %g, %d threads",H.w,1-H.w,hthr);
    if (hthr>1){ sim_sched_on=1; sim_callers(hthr,hill_draws,NULL); sim_sched_on=0; } else hill_draws(0,NULL);
    int low=0,all=0; for (int t=0;t<hthr;t++){ low+=hlow[t]; all+=hn[t]; } double want=H.w*gsl_cdf_ugaussian_P(H.sep/2)+(1-H.w)*gsl_cdf_gaussian_P(-H.sep/2,H.sd),got=low/(double)all;
    sim_probe("two hills"); sim_state(dbl_hash(got,FNV0)); sim_event("%ld evaluations, share %.6g",H.n,got); if (getenv("HILLS")) { FILE *z=fopen("/tmp/hills.txt","a"); fprintf(z,"%g %g %g %g\n",H.w,H.sd,want,got); fclose(z); };
    CK(fabs(got-want)<(H.sd<0.45?0.2:0.1),"arms:hills","of %d draws, a share of %g is in a hill that has %g",all,got,want);
    apop_model_free(HM);
}
