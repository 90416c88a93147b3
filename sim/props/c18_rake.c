/* C18: raking, in several threads of a team at once, against a small reference: the cells that could be nonzero, and
iterative proportional fitting on them; and against the same call alone. */
#include "dbcommon.h"
#include <ctype.h>
enum { T=4, MAXV=8, MAXK=4, MAXC=6561, MAXN=4 };
typedef struct { int nv; int nval[MAXV]; double val[MAXV][MAXK]; char vn[MAXV][12],name[12]; int nrows; unsigned char row[60][MAXV]; double cnt[60]; int hascnt,null; char cntname[12]; } tab;
typedef struct { int mt,it; int vars[MAXV],nv,givelist; int nc; unsigned con[MAXN]; char *ctext[MAXN]; int sz; char szq[80]; int szv[2],szk[2]; int maxit; double tol,nudge; int usecnt,useicnt; int bad; apop_data *out,*alone; } job;
static tab tabs[4]; static int ntab; static job J[T]; static int nthr;
static void gen_tab(tab *t,int i,tab *like){
    memset(t,0,sizeof *t); snprintf(t->name,12,"%s%d",like?"init":"marg",i); t->null= like? w_choose(6)==5 : w_choose(10)==9; t->nv=like?like->nv:2+w_choose(w_choose(4)==3?6:3); if (t->nv>7) t->nv=7;
    static const char *nm[]={"a","bb","c","dd_d","e","f2","g"}; for (int v=0;v<t->nv;v++){ strcpy(t->vn[v],like?like->vn[v]:nm[(v+i)%7]); t->nval[v]= like?like->nval[v]:t->nv>4?2:2+w_choose(2); for (int k=0;k<t->nval[v];k++) t->val[v][k]= like?like->val[v][k]:(double[]){k+1,k*10-5,k+0.5,2*k}[(v+i)%4]; }
    t->nrows=1+w_choose(w_choose(3)?12:40); t->hascnt=w_choose(3)!=2; strcpy(t->cntname,w_choose(2)?"n":"weights"); if (like&&w_choose(2)) strcpy(t->cntname,"m");
    for (int r=0;r<t->nrows;r++){ for (int v=0;v<t->nv;v++) t->row[r][v]=t->null&&w_choose(12)==11?t->nval[v]:w_choose(t->nval[v]); t->cnt[r]= t->hascnt?(w_choose(8)==7?0:w_choose(20)/4.+0.25):1; }
    sbuf b={0}; int at=w_choose(t->nv+1); sb_add(&b,"create table %s(",t->name); for (int v=0;v<=t->nv;v++){ if (t->hascnt&&v==at) sb_add(&b,"%s%s",b.s[b.n-1]=='('?"":",",t->cntname); if (v<t->nv) sb_add(&b,"%s%s",b.s[b.n-1]=='('?"":",",t->vn[v]); } sb_add(&b,")"); CK(!apop_query("%s",b.s),"rake:setup","can't create");
    for (int r=0;r<t->nrows;r++){ b.n=0; sb_add(&b,"insert into %s(",t->name); for (int v=0;v<t->nv;v++) sb_add(&b,"%s%s",v?",":"",t->vn[v]); if (t->hascnt) sb_add(&b,",%s",t->cntname); sb_add(&b,") values("); for (int v=0;v<t->nv;v++) if (t->row[r][v]<t->nval[v]) sb_add(&b,"%s%.17g",v?",":"",t->val[v][t->row[r][v]]); else sb_add(&b,"%sNULL",v?",":""); if (t->hascnt){ if (!t->cnt[r]&&w_choose(2)) sb_add(&b,",NULL"); else sb_add(&b,",%.17g",t->cnt[r]); } sb_add(&b,")"); CK(!apop_query("%s",b.s),"rake:setup","can't insert"); } }
static void gen_job(job *j){
    memset(j,0,sizeof *j); int nm=0; for (int i=0;i<ntab;i++) nm+=tabs[i].name[0]=='m'; j->mt=w_choose(nm); tab *t=tabs+j->mt; j->it=-1; j->givelist=w_choose(2); j->nv=t->nv; for (int v=0;v<t->nv;v++) j->vars[v]=v;
    if (j->givelist){ if (w_choose(3)==2&&t->nv>2) j->nv=t->nv-1; if (w_choose(2)) for (int v=0;v<j->nv;v++) j->vars[v]=t->nv-1-v; }
    j->usecnt= t->hascnt; if (j->givelist&&w_choose(4)==3) j->usecnt=0;
    j->nc=w_choose(5)==4?0:1+w_choose(MAXN); if (j->nc>MAXN) j->nc=MAXN; for (int c=0;c<j->nc;c++){ int k=1+w_choose(j->nv>3?3:2); for (int q=0;q<k;q++) j->con[c]|=1u<<j->vars[w_choose(j->nv)]; sbuf b={0}; int first=1; for (int q=0;q<j->nv;q++){ int v=j->vars[q]; if (j->con[c]>>v&1){ static const char *sep[]={"|"," | ","| "," |\t"}; if (!first) sb_add(&b,"%s",sep[w_choose(4)]); else if (w_choose(4)==3) sb_add(&b," "); sb_add(&b,"%s",t->vn[v]); first=0; } } j->ctext[c]=strdup(b.s); }
    if (w_choose(3)==2){ j->sz=1+w_choose(2); for (int q=0;q<j->sz;q++){ j->szv[q]=j->vars[w_choose(j->nv)]; j->szk[q]=w_choose(t->nval[j->szv[q]]); } if (j->sz==1) snprintf(j->szq,80,"%s=%g",t->vn[j->szv[0]],t->val[j->szv[0]][j->szk[0]]); else snprintf(j->szq,80,"%s=%g and %s = %g",t->vn[j->szv[0]],t->val[j->szv[0]][j->szk[0]],t->vn[j->szv[1]],t->val[j->szv[1]][j->szk[1]]); }
    j->maxit= w_choose(3)==2?1+w_choose(6):w_choose(4)==3?1+w_choose(60):0; j->tol= w_choose(3)==2?(double[]){1e-2,1e-8,0.1,1e-10,1}[w_choose(5)]:0; j->nudge= w_choose(4)==3?(w_choose(2)?0.001:0.5):0;
    if (w_choose(3)==2){ for (int i=0;i<ntab;i++) if (tabs[i].name[0]=='i'&&tabs[i].name[4]-'0'==j->mt) j->it=i; if (j->it<0&&t->hascnt) j->it=j->mt; if (j->it>=0){ j->useicnt=tabs[j->it].hascnt&&(j->givelist?w_choose(4)!=3:1); if (j->it!=j->mt&&tabs[j->it].hascnt&&j->useicnt&&!j->givelist&&strcmp(tabs[j->it].cntname,t->cntname)) {} } }
    if (w_choose(14)==13) j->bad=1+w_choose(9); }
static double dflt(double x,double d){ return x?x:d; }
static void call(job *j,apop_data **out){
    tab *t=tabs+j->mt; char *vl[MAXV]; for (int q=0;q<j->nv;q++) vl[q]=t->vn[j->vars[q]]; char *ct[MAXN+1]; for (int c=0;c<j->nc;c++) ct[c]=j->ctext[c]; int nc=j->nc; 
    const char *mt=t->name,*cc=j->usecnt?t->cntname:NULL,*it=j->it>=0?tabs[j->it].name:NULL,*sz=j->sz?j->szq:NULL,*ic=j->useicnt?tabs[j->it].cntname:NULL; if (j->it==j->mt&&j->useicnt&&j->nc%2) it=NULL; // the margin table is the default for init_count_col
    switch(j->bad){ case 1: mt="nosuch"; break; case 2: it="nosuch"; break; case 3: cc="nosuch"; break; case 4: if (!nc) nc=1; ct[nc-1]="nosuch"; break; case 5: sz="nosuch = = 3"; break; case 6: nc=0; ct[0]="a"; break; case 7: if (it) ic="nosuch"; else cc="nosuch"; break; case 8: cc="9e999"; break; case 9: if (it) ic="9e999"; else cc="9e999"; break; }
    *out=apop_rake(.margin_table=mt,.var_list=j->givelist?vl:NULL,.var_ct=j->givelist?j->nv:0,.contrasts=nc||j->bad==6?ct:NULL,.contrast_ct=nc,.structural_zeros=sz,.max_iterations=j->maxit,.tolerance=j->tol,.count_col=cc,.init_table=it,.init_count_col=ic,.nudge=j->nudge); }
static int faulty; static void team(void *v){ (void)v; int t=omp_get_thread_num(); if (t<nthr){ sim_point(); call(&J[t],&J[t].out); } }
/* the reference */
typedef struct { unsigned char k[MAXV]; double w; int in; } cell; static cell ce[MAXC]; static int nce;
static int zeroed(job *j,unsigned char *k){ if (!j->sz) return 0; for (int q=0;q<j->sz;q++) if (k[j->szv[q]]!=j->szk[q]&&k[j->szv[q]]<tabs[j->mt].nval[j->szv[q]]) return 0; return 1; }
static int in_margin(job *j,unsigned mask,unsigned char *k){ tab *t=tabs+j->mt; for (int r=0;r<t->nrows;r++){ int ok=1; for (int v=0;v<t->nv;v++) if (mask>>v&1) ok&=t->row[r][v]==k[v]; if (ok) return 1; } return 0; }
static int seen(job *j,unsigned mask,unsigned char *k){ tab *t=tabs+j->mt; for (int v=0;v<t->nv;v++) if (mask>>v&1){ int ok=0; for (int r=0;r<t->nrows;r++) ok|=t->row[r][v]==k[v]; if (!ok) return 0; } return 1; } // a value that the margin table never has is not in any of the margins
static cell *find(job *j,unsigned char *k,int add){ for (int i=0;i<nce;i++){ int ok=1; for (int q=0;q<j->nv;q++) ok&=ce[i].k[j->vars[q]]==k[j->vars[q]]; if (ok) return ce+i; } if (!add) return NULL; memset(&ce[nce],0,sizeof(cell)); for (int q=0;q<j->nv;q++) ce[nce].k[j->vars[q]]=k[j->vars[q]]; return &ce[nce++]; }
static void cells(job *j){ nce=0; tab *t=tabs+j->mt; double nudge=j->nudge;
    if (j->it>=0){ tab *s=tabs+j->it; for (int r=0;r<s->nrows;r++) if (!zeroed(j,s->row[r])) find(j,s->row[r],1)->w+= j->useicnt?s->cnt[r]:1; if (!nudge) return; for (int i=0;i<nce;i++) if (!ce[i].w) ce[i].w=nudge; }
    unsigned used=0; for (int c=0;c<j->nc;c++) used|=j->con[c]; unsigned char k[MAXV]={0}; int n=1; for (int q=0;q<j->nv;q++) n*=t->nval[j->vars[q]]+1;
    for (int i=0;i<n;i++){ int z=i; for (int q=0;q<j->nv;q++){ k[j->vars[q]]=z%(t->nval[j->vars[q]]+1); z/=t->nval[j->vars[q]]+1; } int ok=!zeroed(j,k); for (int q=0;q<j->nv&&ok;q++) if (k[j->vars[q]]==t->nval[j->vars[q]]){ int in=0; for (int c=0;c<j->nc;c++) in+=j->con[c]>>j->vars[q]&1; ok=in<2; } /* a missing value is not equal to itself when contrasts are joined */ for (int c=0;c<j->nc&&ok;c++) ok=in_margin(j,j->con[c],k); for (int q=0;q<j->nv&&ok;q++) if (!(used>>j->vars[q]&1)) ok=in_margin(j,1u<<j->vars[q],k); if (!ok) continue; if (j->it>=0){ if (!find(j,k,0)) find(j,k,1)->w=nudge; } else find(j,k,1)->w=1; } }
static int code(job *j,unsigned mask,unsigned char *k){ tab *t=tabs+j->mt; int c=0; for (int v=0;v<t->nv;v++) if (mask>>v&1) c=c*MAXK+k[v]; return c; }
static double target[MAXN][2200], start_w[MAXN][2200]; static double lastdev,mindist; static int iters,nvals;
static void fit(job *j){ tab *t=tabs+j->mt; double N=0,S=0; memset(target,0,sizeof target); memset(start_w,0,sizeof start_w); nvals=0;
    for (int r=0;r<t->nrows;r++){ double w=j->usecnt?t->cnt[r]:1; N+=w; for (int c=0;c<j->nc;c++) target[c][code(j,j->con[c],t->row[r])]+=w; } for (int i=0;i<nce;i++) S+=ce[i].w; for (int i=0;i<nce;i++) ce[i].w*=N/S;
    for (int c=0;c<j->nc;c++) for (int i=0;i<nce;i++) start_w[c][code(j,j->con[c],ce[i].k)]+=ce[i].w; 
    int max=dflt(j->maxit,1000); double tol=dflt(j->tol,1e-5); static double sum[2200]; mindist=INFINITY;
    for (iters=1;iters<=max;iters++){ double dev=0; for (int c=0;c<j->nc;c++){ memset(sum,0,sizeof sum); static char any[2200]; memset(any,0,sizeof any); for (int i=0;i<nce;i++){ int q=code(j,j->con[c],ce[i].k); sum[q]+=ce[i].w; any[q]=1; } for (int i=0;i<nce;i++){ int q=code(j,j->con[c],ce[i].k); if (!sum[q]) continue; if (!seen(j,j->con[c],ce[i].k)) continue; double d=fabs(sum[q]-target[c][q]); if (d>dev) dev=d; ce[i].w*=target[c][q]/sum[q]; } if (iters==1) for (int q=0;q<2200;q++) nvals+=any[q]; }
        double rel=fabs(dev-tol)/tol; if (rel<mindist) mindist=rel; lastdev=dev; if (dev<tol) return; } }
static void check(job *j,apop_data *out,int n){
    tab *t=tabs+j->mt; CK(out,"rake:null","call %d returns NULL",n);
    if (j->bad&&!(j->bad==2&&0)){ CK(out->error&&out->error!='c',"rake:unreported","call %d, wrong in way %d, is not marked",n,j->bad); return; }
    cells(j); double tot=0,S=0; for (int r=0;r<t->nrows;r++) tot+=j->usecnt?t->cnt[r]:1; for (int i=0;i<nce;i++) S+=ce[i].w; if (!nce){ CK(out->error,"rake:unreported","call %d has no cells to rake, and that is not marked",n); sim_probe("no_cells"); return; } if (!(S>0)){ CK(out->error,"rake:unreported","call %d starts from a table of zeros, and that is not marked",n); return; }
    CK(!out->error||out->error=='c',"rake:spurious","call %d is marked '%c'",n,out->error); CK(out->matrix&&out->weights,"rake:shape","call %d returns no table",n); CK((int)out->matrix->size2==j->nv&&out->names->colct>=j->nv,"rake:shape","call %d returns %d columns instead of %d",n,(int)out->matrix->size2,j->nv); for (int q=0;q<j->nv;q++) CK(!strcmp(out->names->col[q],t->vn[j->vars[q]]),"rake:shape","call %d: column %d is %s instead of %s",n,q,out->names->col[q],t->vn[j->vars[q]]);
    for (int i=0;i<nce;i++) ce[i].in=0; static double got[MAXC]; int rows=out->matrix->size1;
    for (int r=0;r<rows;r++){ unsigned char k[MAXV]={0}; for (int q=0;q<j->nv;q++){ int v=j->vars[q],f=-1; double x=gsl_matrix_get(out->matrix,r,q); for (int z=0;z<t->nval[v];z++) if (t->val[v][z]==x) f=z; if (isnan(x)) f=t->nval[v]; CK(f>=0,"rake:cells","call %d: row %d has %g as %s",n,r,x,t->vn[v]); k[v]=f; } cell *c=find(j,k,0); CK(c,"rake:cells","call %d: row %d is a cell that can't be nonzero",n,r); CK(!c->in,"rake:cells","call %d: row %d is a cell already there",n,r); c->in=1; got[c-ce]=gsl_vector_get(out->weights,r); }
    for (int i=0;i<nce;i++) CK(ce[i].in,"rake:cells","call %d: of %d cells that can be nonzero, cell %d is not in the table of %d",n,nce,i,rows);
    fit(j); int conv= lastdev<dflt(j->tol,1e-5); if (mindist>1e-6){ CK(conv||out->error=='c',"rake:unconverged","call %d: after %d rounds a margin is off by %g (tolerance %g), and the table isn't marked",n,iters-1,lastdev,dflt(j->tol,1e-5)); CK(!conv||!out->error,"rake:spurious","call %d converged after %d of %g rounds, and is marked '%c'",n,iters,dflt(j->maxit,1000),out->error); }
    for (int i=0;i<nce;i++){ double tol=1e-7*tot+20*(out->error?0:dflt(j->tol,1e-5)); if (mindist>1e-6) tol=1e-8*tot; CK(fabs(got[i]-ce[i].w)<=tol,"rake:weights","call %d: cell %d of %d weighs %.12g instead of %.12g",n,i,nce,got[i],ce[i].w); }
    if (!out->error) for (int c=0;c<j->nc;c++) for (int i=0;i<nce;i++){ int q=code(j,j->con[c],ce[i].k); if (!(start_w[c][q]>0)){ sim_probe("margin_without_cells"); continue; } if (!seen(j,j->con[c],ce[i].k)) continue; double s=0; for (int z=0;z<nce;z++) if (code(j,j->con[c],ce[z].k)==q) s+=got[z]; if (s==0){ sim_probe("margin_without_cells"); continue; } CK(fabs(s-target[c][q])<=dflt(j->tol,1e-5)*(1+nvals)+1e-9*tot,"rake:margins","call %d: a margin of contrast %d is %.12g instead of %.12g",n,c,s,target[c][q]); } 
    if (out->error) sim_probe("not_converged"); }
void scen_rake(void){
    quiet(); apop_opts.verbose=-1; f_suspended=1; sim_sched_on=0; disk_init(); disk_attach(); sim_on_hang("rake:stuck"); setenv("APOP_DB_ENGINE","",1); apop_opts.db_engine='s'; apop_opts.db_name_column=NULL; faulty=w_choose(5)==4; CK(!apop_db_open(faulty?"x.db":NULL),"rake:setup","the database does not open");
    int nm=1+w_choose(3); ntab=0; for (int i=0;i<nm;i++) gen_tab(tabs+ntab++,i,NULL); if (w_choose(2)){ int of=w_choose(nm); gen_tab(tabs+ntab++,of,tabs+of); }
    nthr=w_choose(4)==3?1:2+w_choose(3); if (nthr>T) nthr=T; for (int i=0;i<nthr;i++){ gen_job(&J[i]); if (i&&w_choose(3)==2){ J[i]=J[0]; } }
    char *before=db_dump(db); sim_set_nthreads(1+w_choose(2)); int fd=0; if (faulty){ int k[]={FK_DISK_RDERR,FK_DISK_WRERR,FK_DISK_FULL,FK_DISK_SYNCERR,FK_DISK_BUSY,FK_OOM}; for (int i=0;i<6;i++) if (w_choose(2)) f_enable(k[i],i==5?0.003:0.02,1+w_choose(3)); CK(!apop_query("pragma cache_size=2; pragma temp_store=1"),"rake:setup","pragma"); disk_oom=1; f_suspended=0; fd=1; } uint64_t f0=f_fired_total()+disk_err_count();
    sim_sched_on=1; if (nthr>1) sim_team(nthr,team,NULL); else call(&J[0],&J[0].out); sim_sched_on=0; f_suspended=1; disk_oom=0; int hit=fd&&f_fired_total()+disk_err_count()>f0;
    if (hit){ sim_probe("failures_while_raking"); for (int i=0;i<T;i++) apop_query("drop table if exists apop_zerocontrasts_%i",i); } // removing the scratch table may be what failed
    char *after=db_dump(db); CK(!strcmp(before,after),"rake:scratch","raking leaves the database changed: %s",first_diff(before,after)); CK(sqlite3_get_autocommit(db),"rake:scratch","a transaction is left open");
    if (hit){ char *a2=after; (void)a2; for (int i=0;i<nthr;i++){ CK(J[i].out,"rake:null","call %d returns NULL",i); if (!J[i].out->error||J[i].out->error=='c') check(&J[i],J[i].out,i); else sim_probe("failure_reported"); apop_data_free(J[i].out); } sim_state(hit); sim_nontrivial(); return; }
    for (int i=0;i<nthr;i++){ check(&J[i],J[i].out,i); call(&J[i],&J[i].alone); CK(J[i].alone,"rake:null","call %d alone returns NULL",i); CK(J[i].alone->error==J[i].out->error,"rake:alone","call %d is marked '%c', and '%c' when it is alone",i,J[i].out->error?J[i].out->error:'0',J[i].alone->error?J[i].alone->error:'0'); const char *r=data_diff_pages(J[i].out,J[i].alone,1); CK(!r,"rake:alone","call %d gives another table when it is alone: %s",i,r); }
    free(after); after=db_dump(db); CK(!strcmp(before,after),"rake:scratch","raking alone leaves the database changed: %s",first_diff(before,after)); uint64_t h=FNV0; for (int i=0;i<nthr;i++){ h=data_hash(J[i].out)^h*31; apop_data_free(J[i].out); apop_data_free(J[i].alone); } sim_event("%016llx",(unsigned long long)h); sim_state(h); sim_nontrivial();
    sim_describe("%d threads; %d variables, %d contrasts%s%s%s, %d cells",nthr,J[0].nv,J[0].nc,J[0].it>=0?", starting table":"",J[0].nudge?", nudge":"",J[0].sz?", structural zeros":"",nce); }
