/* C20: bootstrap and jackknife.  The estimator is the seam: it writes down every resample it is given and every parameter
set it hands back, and it fails on command; what the library returns is recomputed from those notes. */
#include "common.h"
enum { MAXC=2600, MAXROW=14, MAXP=8 };
typedef struct { int me,replay,ncalls,pv,pm1,pm2,real; uint64_t seed; unsigned char fail[MAXC]; unsigned char row[MAXC][MAXROW]; double par[MAXC][MAXP]; int np,bad; const char *why; apop_data *d; int rows; double nanbias; void (*orig)(apop_data*,apop_model*); } notes;
static notes N[4],M[4];
static int find_row(notes *n,apop_data *s,int i){ // which row of the data is row i of the resample?
    apop_data *d=n->d; for (int r=0;r<n->rows;r++){ int ok=1; if (d->vector&&!n->real) ok&=gsl_vector_get(d->vector,r)==gsl_vector_get(s->vector,i); if (d->matrix&&!n->real) for (size_t j=0;j<d->matrix->size2;j++) ok&=gsl_matrix_get(d->matrix,r,j)==gsl_matrix_get(s->matrix,i,j);
        if (n->real) ok&= d->matrix? gsl_matrix_get(d->matrix,r,d->matrix->size2-1)==gsl_matrix_get(s->matrix,i,d->matrix->size2-1): gsl_vector_get(d->vector,r)==gsl_vector_get(s->vector,i);
        for (int j=0;j<d->textsize[1];j++) ok&=!strcmp(d->text[r][j],s->text[i][j]); if (d->weights) ok&=gsl_vector_get(d->weights,r)==gsl_vector_get(s->weights,i); if (ok) return r; } return -1; }
static int height(apop_data *d){ int h=0; if (d->vector) h=d->vector->size; if (d->matrix&&(int)d->matrix->size1>h) h=d->matrix->size1; if (d->textsize[0]>h) h=d->textsize[0]; return h; }
static void note_it(notes *n,apop_data *s){ int c=n->ncalls; CK(c<MAXC,"resample:count","the estimator has been called %d times",c);
    if (n->d){ int h=height(s); CK(h==n->rows||h==n->rows-1,"resample:rows","a resample of %d rows has %d rows",n->rows,h); n->row[c][MAXROW-1]=h; for (int i=0;i<h;i++){ int r=find_row(n,s,i); CK(r>=0,"resample:rows","row %d of resample %d is no row of the data",i,c); n->row[c][i]=r; } } }
static int fails(notes *n){ int c=n->ncalls; if (n->replay) return M[n->me].fail[c]; uint32_t a; int f=0; if (f_point(FK_CB_NAN,1,&a)) f=1; else if (f_point(FK_CB_FAIL,1,&a)) f=2; n->fail[c]=f; return f; }
static void est20(apop_data *d,apop_model *m){
    notes *n=m->more; int c=n->ncalls; note_it(n,d); int f=fails(n); double s=0,q=1; uint64_t h=FNV0^n->seed; if (n->d) for (int i=0;i<n->row[c][MAXROW-1];i++){ int r=n->row[c][i]; s+=r*(1+0.25*i); q+=r*r; h=h*1099511628211ull+r; } else s=c*c%7;
    if (n->real) n->orig(d,m); else { if (m->parameters) apop_data_free(m->parameters); m->parameters=apop_data_alloc(n->pv,n->pm1,n->pm2); }
    gsl_vector *v=m->parameters->vector; gsl_matrix *x=m->parameters->matrix; int k=0;
    if (!n->real){ if (v) for (size_t i=0;i<v->size;i++,k++) gsl_vector_set(v,i,(k&1?s:q)*(k+1)+(h>>(20+k))%100/50.); if (x) for (size_t i=0;i<x->size1;i++) for (size_t j=0;j<x->size2;j++,k++) gsl_matrix_set(x,i,j,(k%3?s-q:q/3)*(k+1)+(h>>(30-k))%100/50.); }
    if (f==1){ int at=h%(n->np); if (v&&at<(int)v->size) gsl_vector_set(v,at,NAN); else if (x){ at-= v?v->size:0; gsl_matrix_set(x,at/x->size2,at%x->size2,NAN); } }
    if (f==2){ apop_data_free(m->parameters); m->parameters=NULL; for (int i=0;i<MAXP;i++) n->par[c][i]=NAN; }
    else { k=0; if (v) for (size_t i=0;i<v->size;i++) n->par[c][k++]=gsl_vector_get(v,i); if (x) for (size_t i=0;i<x->size1;i++) for (size_t j=0;j<x->size2;j++) n->par[c][k++]=gsl_matrix_get(x,i,j); CK(k==n->np,"resample:shape","the parameters have %d elements instead of %d",k,n->np); }
    n->ncalls++; sim_event("t%d call %d%s",n->me,c,f==1?" gives NaN":f==2?" fails":""); }
static int bad(notes *n,int c){ for (int i=0;i<n->np;i++) if (isnan(n->par[c][i])) return 1; return 0; }
static void ref_cov(double (*x)[MAXP],int rows,int np,double out[MAXP][MAXP]){ for (int a=0;a<np;a++) for (int b=0;b<np;b++){ long double ma=0,mb=0,s=0; for (int i=0;i<rows;i++){ ma+=x[i][a]; mb+=x[i][b]; } ma/=rows; mb/=rows; for (int i=0;i<rows;i++) s+=(x[i][a]-ma)*(x[i][b]-mb); out[a][b]=s/(rows-1); } }
static double X[4][MAXC][MAXP];
typedef struct { int jack,its,def_its,def_rng,ign,store; unsigned long seed; apop_data *d; apop_model *m; apop_data *out,*boots; } job; static job J[4]; static int nthr;
static void perform(int me,job *j,notes *n){
    n->me=me; n->ncalls=0; n->d=j->d; n->rows=j->d?height(j->d):0; j->out=j->boots=NULL;
    if (j->jack){ j->out=apop_jackknife_cov(j->d,j->m); return; }
    gsl_rng *r=rng_of(j->seed); if (j->def_its) j->out=apop_bootstrap_cov(j->d,j->m,r,.boot_store=&j->boots,.ignore_nans=j->ign); 
    else if (j->def_rng) j->out=apop_bootstrap_cov(j->d,j->m,.iterations=j->its,.boot_store=&j->boots,.ignore_nans=j->ign);
    else if (j->store) j->out=apop_bootstrap_cov(j->d,j->m,r,.iterations=j->its,.boot_store=&j->boots,.ignore_nans=j->ign);
    else j->out=apop_bootstrap_cov(j->d,j->m,r,j->its,.ignore_nans=j->ign); gsl_rng_free(r); }
static void cov_is(apop_data *out,double ref[MAXP][MAXP],double alt,int np,int rows,const char *what){
    CK(out->matrix&&(int)out->matrix->size1==np&&(int)out->matrix->size2==np,"resample:cov","%s: the covariance of %d parameters is %d x %d",what,np,out->matrix?(int)out->matrix->size1:0,out->matrix?(int)out->matrix->size2:0); double sc[MAXP]; for (int a=0;a<np;a++) sc[a]=sqrt(fabs(ref[a][a]));
    for (int a=0;a<np;a++) for (int b=0;b<np;b++){ double g=gsl_matrix_get(out->matrix,a,b),e=ref[a][b]; if (isnan(e)){ CK(isnan(g),"resample:cov","%s: cov(%d,%d) is %g although a replicate is not a number",what,a,b,g); continue; } double tol=1e-9*(sc[a]*sc[b]+1); CK(fabs(g-e)<=tol||fabs(g-e*alt)<=tol,"resample:cov","%s: cov(%d,%d) from %d replicates is %.12g instead of %.12g",what,a,b,rows,g,e); } }
static void check_boot(int me,job *j,notes *n){
    int its= j->def_its?1000:j->its, i=0,nan=0,c=0; for (;i<its&&nan<its;i++,c++){ CK(c<n->ncalls,"resample:count","%d iterations were asked for, and the estimator ran %d times, %d failing%s",its,n->ncalls,nan,j->ign=='y'?" and ignored":""); int b=bad(n,c); if (b&&j->ign=='y'){ nan++; i--; } else memcpy(X[me][i],n->par[c],sizeof X[me][i]); }
    CK(c==n->ncalls,"resample:count","%d iterations were asked for, and the estimator ran %d times, %d failing%s",its,n->ncalls,nan,j->ign=='y'?" and ignored":"");
    int any=0; for (int q=0;q<c;q++) any|= n->fail[q]!=2&&!(j->ign=='y'&&bad(n,q)); CK(j->out,"resample:null","the covariance is NULL");
    if (!any){ CK(j->out->error=='N',"resample:unreported","no replicate gives parameters, and that is not reported: error is '%c'",j->out->error?j->out->error:'0'); sim_probe("nothing_works"); return; }
    if (nan>=its){ sim_probe("too_many_nans"); CK(j->out->error=='N',"resample:unreported","%d replicates failed, and that is not reported: error is '%c'",nan,j->out->error?j->out->error:'0'); } else CK(!j->out->error,"resample:spurious","%d of %d replicates failed, and the result is marked '%c'",nan,c,j->out->error);
    static double ref[4][MAXP][MAXP]; ref_cov(X[me],i,n->np,ref[me]); if (i>1) cov_is(j->out,ref[me],1,n->np,i,"bootstrap");
    if (j->boots||j->store||j->def_its||j->def_rng){ CK(j->boots&&j->boots->matrix,"resample:store","the replicates were asked for, and are not there"); CK((int)j->boots->matrix->size1==i&&(int)j->boots->matrix->size2==n->np,"resample:store","%d replicates of %d parameters are stored as %d x %d",i,n->np,(int)j->boots->matrix->size1,(int)j->boots->matrix->size2);
        for (int q=0;q<i;q++){ int isbad=0; for (int k=0;k<n->np;k++) isbad|=isnan(X[me][q][k]); for (int k=0;k<n->np;k++){ double g=gsl_matrix_get(j->boots->matrix,q,k),e=X[me][q][k]; CK(isnan(e)?isnan(g):g==e,"resample:store","stored replicate %d has %.17g as parameter %d; the estimator returned %.17g",q,g,k,e); } if (isbad) sim_probe("nan_row_kept"); } }
    if (n->d){ int h=n->rows; long cnt[MAXROW]={0}; int same=c>=8,perm=c>=6&&h>=8; for (int q=0;q<c;q++){ CK(n->row[q][MAXROW-1]==h,"resample:rows","resample %d of %d rows has %d rows",q,h,n->row[q][MAXROW-1]); int seen=0; for (int r=0;r<h;r++){ cnt[n->row[q][r]]++; seen|=1<<n->row[q][r]; if (n->row[q][r]!=n->row[0][r]) same=0; } if (seen!=(1<<h)-1) perm=0; }
        CK(!same||h<3,"resample:rows","all %d resamples are the same",c); CK(!perm,"resample:rows","all %d resamples are permutations of the data",c);
        double ex=(double)c,x2=0; for (int r=0;r<h;r++) x2+=(cnt[r]-ex)*(cnt[r]-ex)/ex; if (ex>=10&&h>1){ double k=h-1; CK(x2<k+8*sqrt(2*k)+80,"resample:uniform","in %d resamples of %d rows, row 0 appears %ld times, row %d %ld times: chi squared is %g",c,h,cnt[0],h-1,cnt[h-1],x2); } } }
static void check_jack(int me,job *j,notes *n){
    CK(j->out,"resample:null","the covariance is NULL"); int h=n->rows,had=j->m->parameters!=NULL,c0=!had; double all[MAXP];
    if (had){ int k=0; apop_data *p=j->m->parameters; if (p->vector) for (size_t i=0;i<p->vector->size;i++) all[k++]=gsl_vector_get(p->vector,i); if (p->matrix) for (size_t a=0;a<p->matrix->size1;a++) for (size_t b=0;b<p->matrix->size2;b++) all[k++]=gsl_matrix_get(p->matrix,a,b); }
    else { CK(n->ncalls>0,"resample:count","the estimator never ran"); memcpy(all,n->par[0],sizeof all); for (int r=0;r<h;r++) CK(n->row[0][r]==r,"resample:rows","the overall estimate is not on the data: row %d is row %d",r,n->row[0][r]); if (n->fail[0]==2){ CK(j->out->error,"resample:unreported","the overall estimate fails, and that is not reported"); sim_probe("jack_fails"); return; } }
    CK(n->ncalls==h+c0,"resample:count","the jackknife of %d rows ran the estimator %d times%s",h,n->ncalls,had?", the model having parameters":""); int out[MAXROW]={0};
    for (int q=0;q<h;q++){ int seen=0,c=q+c0; CK(n->row[c][MAXROW-1]==h-1,"resample:rows","jackknife sample %d of %d rows has %d rows",q,h,n->row[c][MAXROW-1]); for (int r=0;r<h-1;r++) seen|=1<<n->row[c][r]; int gone=-1,ng=0; for (int r=0;r<h;r++) if (!(seen>>r&1)) gone=r,ng++; CK(ng==1,"resample:rows","jackknife sample %d leaves out %d rows",q,ng); out[gone]++; for (int k=0;k<n->np;k++) X[me][q][k]=h*all[k]-(h-1)*n->par[c][k]; }
    for (int r=0;r<h;r++) CK(out[r]==1,"resample:rows","row %d is left out %d times",r,out[r]);
    static double ref[4][MAXP][MAXP]; ref_cov(X[me],h,n->np,ref[me]); for (int a=0;a<n->np;a++) for (int b=0;b<n->np;b++) ref[me][a][b]/=h-1.; if (h>1) cov_is(j->out,ref[me],(h-1.)/h,n->np,h,"jackknife"); CK(!j->out->error,"resample:spurious","the jackknife is marked '%c'",j->out->error); }
static void body(int me,void *v){ (void)v; perform(me,&J[me],&N[me]); }
static apop_data *gen(int real){
    int h= w_choose(12)==0?1+w_choose(2):2+w_choose(11),what=real?1+w_choose(2):1+w_choose(7),base=w_choose(50); apop_data *d=apop_data_alloc(); if (h>12) h=12;
    if (what&1){ int c=1+w_choose(real?1:3); d->matrix=gsl_matrix_alloc(h,c); for (int i=0;i<h;i++) for (int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,base+(i*7+3)%13+j*0.5+i*0.01); }
    if (what&2&&!(real&&what&1)){ d->vector=gsl_vector_alloc(h); for (int i=0;i<h;i++) gsl_vector_set(d->vector,i,i*i-base); }
    if (what&4&&!real){ int c=1+w_choose(2); apop_text_alloc(d,h,c); for (int i=0;i<h;i++) for (int j=0;j<c;j++) apop_text_set(d,i,j,"%s%d_%d",j?"a longer text ":"t",i,j); }
    if (!real&&w_choose(3)==0){ d->weights=gsl_vector_alloc(h); for (int i=0;i<h;i++) gsl_vector_set(d->weights,i,1+i*0.125); }
    if (w_choose(2)) apop_name_add(d->names,"title",'h'); if (w_choose(2)) for (int i=0;i<h;i++){ char b[30]; snprintf(b,30,"row %d",i); apop_name_add(d->names,b,'r'); } if (d->matrix&&w_choose(2)) for (size_t j=0;j<d->matrix->size2;j++){ char b[30]; snprintf(b,30,"col %d",(int)j); apop_name_add(d->names,b,'c'); }
    if (w_choose(6)==0){ d->more=apop_data_alloc(2,2,1); gsl_vector_set_all(d->more->vector,1); gsl_matrix_set_all(d->more->matrix,2); apop_name_add(d->more->names,"<extra>",'h'); }
    return d; }
void scen_resample(void){
    quiet(); apop_opts.verbose=-1; sim_on_hang("resample:hang"); sim_sched_on=0; f_suspended=1; memset(J,0,sizeof J); for (int t=0;t<4;t++){ memset(&N[t],0,offsetof(notes,fail)); memset(&M[t],0,offsetof(notes,fail)); }
    nthr=w_choose(3)==0?2+w_choose(2):1; int shared=w_choose(2), anyf=0; apop_data *D[4],*K[4]; apop_model *mk[4];
    for (int t=0;t<nthr;t++){ job *j=&J[t]; notes *n=&N[t]; n->seed=w_choose(1000); n->real= w_choose(4)==0; if (shared&&t) n->real=N[0].real; D[t]= shared&&t?D[0]:gen(n->real); K[t]=deep_copy(D[t]); j->d=D[t]; j->jack=w_choose(3)==0&&height(D[t])>1; j->its=1+w_choose(w_choose(4)?12:60); j->def_its=nthr==1&&!j->jack&&w_choose(40)==0; j->def_rng=!j->def_its&&w_choose(10)==0; j->ign=(char[]){'n','y',0}[w_choose(3)]; j->store=w_choose(4)!=0; j->seed=w_choose(10000); if (!j->jack&&!n->real&&w_choose(15)==0) j->d=NULL;
        static __typeof__(n->orig) dummy; (void)dummy; apop_model *m; if (n->real){ m=apop_model_copy(apop_normal); n->orig=m->estimate; n->np=2; } else { m=apop_model_copy(&(apop_model){.name="noted"}); do { n->pv=w_choose(4); n->pm1=w_choose(3); n->pm2=n->pm1?1+w_choose(2):0; if (!n->pm1) n->pm2=0; } while (0); if (!n->pv&&!n->pm1) n->pv=1; n->np=n->pv+n->pm1*n->pm2; m->vsize=n->pv; m->msize1=n->pm1; m->msize2=n->pm2; }
        m->estimate=est20; m->more=n; m->more_size=0; if (n->real) Apop_settings_add_group(m,apop_parts_wanted);
        if (!n->real&&w_choose(5)==0){ m->parameters=apop_data_alloc(n->pv,n->pm1,n->pm2); if (n->pv) gsl_vector_set_all(m->parameters->vector,3); if (n->pm1) gsl_matrix_set_all(m->parameters->matrix,4); } if (w_choose(3)==0) Apop_settings_add_group(m,apop_parts_wanted,.covariance='y',.predicted='y');
        j->m=m; mk[t]=apop_model_copy(m); }
    if (w_choose(2)){ anyf=1; double p=(double[]){0.03,0.15,0.4,0.9}[w_choose(4)]; int which=w_choose(3); if (which!=1) f_enable(FK_CB_NAN,p,1000); if (which) f_enable(FK_CB_FAIL,p,1000); f_suspended=0; }
    if (nthr>1){ sim_sched_on=1; sim_callers(nthr,body,NULL); sim_sched_on=0; } else body(0,NULL);
    f_suspended=1; uint64_t h=FNV0;
    for (int t=0;t<nthr;t++){ job *j=&J[t]; if (j->jack) check_jack(t,j,&N[t]); else check_boot(t,j,&N[t]);
        const char *r=data_diff_pages(D[t],K[t],1); CK(!r,"resample:input","the data set has changed: %s",r); CK(!strcmp(j->m->name,mk[t]->name)&&(j->m->parameters!=NULL)==(mk[t]->parameters!=NULL)&&j->m->estimate==est20&&j->m->more==&N[t],"resample:input","the model has changed"); if (j->m->parameters){ r=data_diff(j->m->parameters,mk[t]->parameters,1); CK(!r,"resample:input","the model's parameters have changed: %s",r); }
        int g=0; while (j->m->settings&&j->m->settings[g].name[0]) g++; int g2=0; while (mk[t]->settings&&mk[t]->settings[g2].name[0]) g2++; CK(g==g2,"resample:input","the model has %d settings groups instead of %d",g,g2); if (g){ apop_parts_wanted_settings *a=Apop_settings_get_group(j->m,apop_parts_wanted),*b=Apop_settings_get_group(mk[t],apop_parts_wanted); CK(a&&b&&a->covariance==b->covariance&&a->predicted==b->predicted,"resample:input","the model's settings have changed"); } }
    for (int t=0;t<nthr;t++) if (!J[t].def_rng){ job j=J[t]; notes *n=&N[t]; memcpy(&M[t],n,sizeof *n); n->replay=1; perform(t,&j,n); n->replay=0; CK(n->ncalls==M[t].ncalls,"resample:repeat","the same call runs the estimator %d times, and then %d times",M[t].ncalls,n->ncalls); if (j.d) for (int c=0;c<n->ncalls;c++) CK(!memcmp(n->row[c],M[t].row[c],n->rows-j.jack),"resample:repeat","the same seed draws different rows in resample %d",c);
        const char *r=data_diff(j.out,J[t].out,1); CK(!r,"resample:repeat","the same call again%s gives another result: %s",nthr>1?" alone":"",r); CK(!j.boots==!J[t].boots,"resample:repeat","the same call stores replicates once"); if (j.boots){ r=data_diff(j.boots,J[t].boots,1); CK(!r,"resample:repeat","the same call stores other replicates: %s",r); apop_data_free(j.boots); } apop_data_free(j.out); }
    for (int t=0;t<nthr;t++){ h=data_hash(J[t].out)^h*31; sim_event("t%d %016llx",t,(unsigned long long)h); apop_data_free(J[t].out); if (J[t].boots) apop_data_free(J[t].boots); apop_model_free(J[t].m); apop_model_free(mk[t]); if (!(shared&&t)) apop_data_free(D[t]); apop_data_free(K[t]); }
    sim_state(h); if (nthr>1||anyf||J[0].its>1) sim_nontrivial(); sim_describe("%d threads%s, %s of %d rows, %d iterations%s",nthr,shared&&nthr>1?" on one data set":"",J[0].jack?"jackknife":"bootstrap",N[0].rows,J[0].its,anyf?", estimator fails":""); }
