/* C17: several threads share the library's database connection.  Every operation is recorded with the interval it took;
afterwards a serial order that respects those intervals and explains every result and the final contents must exist. */
#include "dbcommon.h"
#define NT 4
#define MR 40
#define MAXOPS 48
enum { O_INS,O_UPD,O_DEL,O_MULTI,O_DATA,O_NAMED,O_VEC,O_FLOAT,O_TEXT,O_MIXED,O_EXISTS,O_DROP,O_CREATE,O_ENSURE,O_TODB,O_CROSS,O_AGG,O_BAD,O_RAN,O_LOAD,O_LOADROW,O_XTODB,O_FLIP,O_RNG,O_ANOVA };
static const char *on[]={"insert","update","delete","insert and update","query_to_data","query_to_data with names","query_to_vector","query_to_float","query_to_text","query_to_mixed_data","table_exists","table_exists 'd'","create","create if not exists","data_to_db","db_to_crosstab","aggregates","bad query","ran()","text_to_db","row of text_to_db","crosstab_to_db","options","rng_get_thread","anova"};
typedef struct { int ex,n,id[MR],v[MR]; } tab_;
typedef struct { tab_ t[NT]; } st_;
typedef struct { int kind,t,k,id[4],v[4],c,m,r; uint64_t s,e; int failed,maybe; char *res; int done; } op_;
static op_ ops[6][16]; static int nops[6]; static int nthr,flip,faulty,namesmode; static const char *tn[]={"t0","t1","t2","t3"};
/* ---- the model: what an operation does to the state, and what it must return */
static void rs(char *o,const char *f,...) __attribute__((format(printf,2,3)));
static void rs(char *o,const char *f,...){ size_t n=strlen(o); if (n>3900) return; va_list a; va_start(a,f); vsnprintf(o+n,4000-n,f,a); va_end(a); }
static int put(tab_ *t,int id,int v){ if (t->n>=MR) return 1; t->id[t->n]=id; t->v[t->n++]=v; return 0; }
static int apply(op_ *o,st_ *s,char *out){ // 1: can't be here
    tab_ *t=&s->t[o->t]; *out=0;
    switch (o->kind){
        case O_INS: if (!t->ex){ rs(out,"fail"); return 0; } for (int i=0;i<o->k;i++) if (put(t,o->id[i],o->v[i])) return 1; rs(out,"ok"); return 0;
        case O_UPD: if (!t->ex){ rs(out,"fail"); return 0; } for (int i=0;i<t->n;i++) if (t->id[i]%o->m==o->r) t->v[i]+=o->c; rs(out,"ok"); return 0;
        case O_DEL: { if (!t->ex){ rs(out,"fail"); return 0; } int w=0; for (int i=0;i<t->n;i++) if (t->id[i]%o->m!=o->r){ t->id[w]=t->id[i]; t->v[w++]=t->v[i]; } t->n=w; rs(out,"ok"); return 0; }
        case O_MULTI: if (!t->ex){ rs(out,"fail"); return 0; } for (int i=0;i<o->k;i++) if (put(t,o->id[i],o->v[i])) return 1; for (int i=0;i<t->n;i++) t->v[i]+=o->c; rs(out,"ok"); return 0;
        case O_DATA: case O_NAMED: case O_TEXT: case O_MIXED: if (!t->ex){ rs(out,"fail"); return 0; } if (!t->n){ rs(out,"empty"); return 0; } for (int i=0;i<t->n;i++) rs(out,"k'%d %d %d;",t->id[i]%7,t->id[i],t->v[i]); return 0;
        case O_VEC: if (!t->ex||!t->n){ rs(out,"none"); return 0; } for (int i=0;i<t->n;i++) rs(out,"%d;",t->v[i]); return 0;
        case O_FLOAT: if (!t->ex){ rs(out,"nan"); return 0; } { int x=0; for (int i=0;i<t->n;i++) x+=o->r?1:t->v[i]; if (!o->r&&!t->n) rs(out,"nan"); else rs(out,"%d",x); } return 0;
        case O_EXISTS: rs(out,"%d",t->ex); return 0;
        case O_DROP: rs(out,"%d",t->ex); t->ex=0; t->n=0; return 0;
        case O_CREATE: if (t->ex){ rs(out,"fail"); return 0; } t->ex=1; t->n=0; rs(out,"ok"); return 0;
        case O_ENSURE: if (!t->ex){ t->ex=1; t->n=0; } rs(out,"ok"); return 0;
        case O_TODB: t->ex=1; for (int i=0;i<o->k;i++) if (put(t,o->id[i],o->v[i])) return 1; rs(out,"ok"); return 0;
        case O_LOADROW: if (!t->ex) return 1; if (put(t,o->id[0],o->v[0])) return 1; rs(out,"ok"); return 0;
        case O_CROSS: { if (!t->ex){ rs(out,"fail"); return 0; } if (!t->n){ rs(out,"none"); return 0; } int c[7][3]={{0}},rr[7]={0},cc[3]={0}; for (int i=0;i<t->n;i++){ int a=t->id[i]%7,b=t->id[i]%3; c[a][b]++; rr[a]=cc[b]=1; }
            for (int a=0;a<7;a++) for (int b=0;b<3;b++) if (rr[a]&&cc[b]) rs(out,"k'%d %d %d;",a,b,c[a][b]); return 0; }
        case O_ANOVA: { if (!t->ex){ rs(out,"none"); return 0; } if (!t->n){ rs(out,"fail"); return 0; } int g=0; double s1=0,s2=0; for (int i=0;i<t->n;i++){ g|=1<<t->id[i]%7; s1+=t->v[i]; } for (int i=0;i<t->n;i++) s2+=(t->v[i]-s1/t->n)*(t->v[i]-s1/t->n); rs(out,"%d %d %.0f",t->n,__builtin_popcount(g)-1,floor(s2*1000+0.2971)); return 0; }
        case O_AGG: { if (!t->ex){ rs(out,"fail"); return 0; } double s1=0,s2=0; int n=t->n; for (int i=0;i<n;i++) s1+=t->v[i]; for (int i=0;i<n;i++) s2+=(t->v[i]-s1/n)*(t->v[i]-s1/n); if (n>=2) rs(out,"%d %.5g",n,s2/(n-1)); else rs(out,"%d -",n); return 0; }
        default: rs(out,"ok"); return 0; } }
/* ---- running one operation */
static int of(double x){ return (int)lrint(x); }
static void perform(int me,op_ *o){
    char out[4000]=""; uint64_t f0=f_fired_total()+disk_err_count(); const char *t=tn[o->t]; apop_data *d=NULL; int isread=0;
    o->s=sim_steps();
    switch (o->kind){
        case O_INS: { sbuf b={0}; for (int i=0;i<o->k;i++) sb_add(&b,"%s(%d,%d,'k''%d')",i?",":"",o->id[i],o->v[i],o->id[i]%7); o->failed=apop_query("insert into %s values %s",t,b.s); rs(out,o->failed?"fail":"ok"); break; }
        case O_UPD: o->failed=apop_query("update %s set v=v+%d where id%%%d=%d",t,o->c,o->m,o->r); rs(out,o->failed?"fail":"ok"); break;
        case O_DEL: o->failed=apop_query("delete from %s where id%%%d=%d",t,o->m,o->r); rs(out,o->failed?"fail":"ok"); break;
        case O_MULTI: { sbuf b={0}; for (int i=0;i<o->k;i++) sb_add(&b,"insert into %s values (%d,%d,'k''%d'); ",t,o->id[i],o->v[i],o->id[i]%7); o->failed=apop_query("%s update %s set v=v+%d;",b.s,t,o->c); rs(out,o->failed?"fail":"ok"); break; }
        case O_DATA: case O_NAMED: isread=1; d=apop_query_to_data(o->kind==O_DATA?"select id, v from %s":"select s as nm, id, v from %s",t); o->e=sim_steps(); if (flip) rs(out,"any"); else if (!d) rs(out,"empty"); else if (d->error){ rs(out,"fail"); o->failed=1; } else for (size_t i=0;i<d->matrix->size1;i++){ int id=of(gsl_matrix_get(d->matrix,i,o->kind==O_NAMED&&!namesmode));
                if (o->kind==O_NAMED&&!flip){ char e[20]; sprintf(e,"k'%d",id%7); if (namesmode) CK(d->names->rowct==(int)d->matrix->size1&&!strcmp(d->names->row[i],e),"dbthreads:names","row %d of %d has the name [%s] instead of [%s]",(int)i,d->names->rowct,(int)i<d->names->rowct?d->names->row[i]:"none",e); else CK(d->matrix->size2==3&&!d->names->rowct,"dbthreads:names","no column of names was asked for, and the result has %d columns and %d row names",(int)d->matrix->size2,d->names->rowct); }
                rs(out,"k'%d %d %d;",id%7,id,of(gsl_matrix_get(d->matrix,i,1+(o->kind==O_NAMED&&!namesmode)))); } break;
        case O_TEXT: isread=1; d=apop_query_to_text("select s as nmx, id, v from %s",t); o->e=sim_steps(); if (flip) rs(out,"any"); else if (!d) rs(out,"empty"); else if (d->error){ rs(out,"fail"); o->failed=1; } else for (size_t i=0;i<d->textsize[0];i++) rs(out,"%s %s %s;",d->text[i][0],d->text[i][1],d->text[i][2]); break;
        case O_MIXED: isread=1; d=apop_query_to_mixed_data("nmv","select s, id, v from %s",t); if (!d) rs(out,"empty"); else if (d->error){ rs(out,"fail"); o->failed=1; } else for (size_t i=0;i<d->matrix->size1;i++) rs(out,"%s %d %d;",d->names->row[i],of(gsl_matrix_get(d->matrix,i,0)),of(gsl_vector_get(d->vector,i))); break;
        case O_VEC: { isread=1; gsl_vector *v=apop_query_to_vector("select v from %s",t); if (!v){ rs(out,"none"); o->maybe=1; } else { for (size_t i=0;i<v->size;i++) rs(out,"%d;",of(gsl_vector_get(v,i))); gsl_vector_free(v); } break; }
        case O_FLOAT: { isread=1; double x=apop_query_to_float(o->r?"select count(*) from %s":"select sum(v) from %s",t); if (isnan(x)){ rs(out,"nan"); o->maybe=1; } else rs(out,"%d",of(x)); break; }
        case O_EXISTS: { int r=apop_table_exists(t); rs(out,"%d",r); o->failed=r<0; break; }
        case O_DROP: { int r=apop_table_exists(t,'d'); rs(out,"%d",r); o->failed=r<0; break; }
        case O_CREATE: o->failed=apop_query("create table %s(id numeric, v numeric, s)",t); rs(out,o->failed?"fail":"ok"); break;
        case O_ENSURE: o->failed=apop_query("create table if not exists %s(id numeric, v numeric, s)",t); rs(out,o->failed?"fail":"ok"); break;
        case O_TODB: { apop_data *z=apop_text_alloc(apop_data_alloc(o->k,2),o->k,1); apop_name_add(z->names,"id",'c'); apop_name_add(z->names,"v",'c'); apop_name_add(z->names,"s",'t'); for (int i=0;i<o->k;i++){ gsl_matrix_set(z->matrix,i,0,o->id[i]); gsl_matrix_set(z->matrix,i,1,o->v[i]); apop_text_set(z,i,0,"k'%d",o->id[i]%7); }
            o->s=sim_steps(); o->failed=apop_data_to_db(z,t,'a'); o->e=sim_steps(); rs(out,o->failed?"fail":"ok"); apop_data_free(z); break; }
        case O_CROSS: isread=1; d=apop_db_to_crosstab((char*)t,"s","id%3"); o->e=sim_steps(); if (!d) rs(out,"none"); else if (d->error||!d->matrix){ rs(out,"fail"); o->failed=1; } else { for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) rs(out,"%s %s %d;",d->names->row[i],d->names->col[j],of(gsl_matrix_get(d->matrix,i,j))); } break;
        case O_ANOVA: isread=1; d=apop_anova((char*)t,"v","s"); o->e=sim_steps(); if (!d) rs(out,"none"); else if (d->error){ rs(out,"fail"); o->failed=1; } else { double s2=apop_data_get(d,2,0); rs(out,"%d %d %.0f",of(apop_data_get(d,2,1)),of(apop_data_get(d,0,1)),floor(s2*1000+0.2971)); } break;
        case O_AGG: isread=1; d=apop_query_to_data("select count(v), var(v), stddev(v) from %s",t); if (!d) rs(out,"empty"); else if (d->error){ rs(out,"fail"); o->failed=1; } else { int n=of(gsl_matrix_get(d->matrix,0,0)); double v=gsl_matrix_get(d->matrix,0,1); if (n>=2){ rs(out,"%d %.5g",n,v); CK(close_d(sqrt(v),gsl_matrix_get(d->matrix,0,2),1e-6)||v<1e-6,"dbthreads:aggregate","variance %g and standard deviation %g in one result",v,gsl_matrix_get(d->matrix,0,2)); } else rs(out,"%d -",n); } break;
        case O_BAD: isread=1; switch (o->r){ case 0: d=apop_query_to_data("select nothing from nowhere"); CK(d&&d->error,"dbthreads:bad","a bad query is not reported"); break; case 1: CK(apop_query("insert into nowhere values (1)"),"dbthreads:bad","a bad query is not reported"); break; case 2: CK(isnan(apop_query_to_float("selec 1")),"dbthreads:bad","a bad query is not reported"); break; default: CK(!apop_query_to_vector("select * frm %s",t),"dbthreads:bad","a bad query is not reported"); } rs(out,"ok"); break;
        case O_RAN: isread=1; d=apop_query_to_data("select ran(), ran(), pow(2,3)"); if (d&&!d->error){ double a=apop_data_get(d,0,0),b=apop_data_get(d,0,1); CK(a>=0&&a<1&&b>=0&&b<1&&a!=b&&apop_data_get(d,0,2)==8,"dbthreads:ran","ran() gives %g, %g; pow(2,3) %g",a,b,apop_data_get(d,0,2)); } else o->failed=1; rs(out,"ok"); break;
        case O_LOAD: { char f[30]; snprintf(f,30,"load%d_%d",me,o->r); o->failed=apop_text_to_db(f,(char*)t,.has_col_names='n',.if_table_exists='a')!=o->k; rs(out,o->failed?"fail":"ok"); break; }
        case O_XTODB: { char q[30]; snprintf(q,30,"x%d_%d",me,o->r); apop_data *z=apop_data_alloc(2,2); for (int i=0;i<4;i++) z->matrix->data[i]=o->id[0]+i; apop_crosstab_to_db(z,q,"a","b","c"); apop_data_free(z); rs(out,"ok"); break; }
        case O_RNG: CK(apop_rng_get_thread(o->id[0]%8)!=NULL,"dbthreads:generators","no generator"); rs(out,"ok"); break;
        case O_FLIP: switch (o->r){ case 0: apop_opts.db_name_column= o->c%2?NULL:"nm"; break; case 1: apop_opts.nan_string=o->c%2?NULL:"absent"; break; case 2: apop_opts.verbose=o->c%2?-1:0; break; default: apop_opts.db_name_column=o->c%2?"s":""; } rs(out,"ok"); break; }
    if (!o->e) o->e=sim_steps();
    if (d) apop_data_free(d);
    if ((o->failed||o->maybe)&&f_fired_total()+disk_err_count()>f0) o->maybe=2; // a fault may be why: no effect, or all of it
    if (flip&&isread) { o->maybe=3; }
    o->res=strdup(out); o->done=1; sim_event("t%d %s %s -> %.60s",me,on[o->kind],t,out); }
static void body(int me,void *v){ (void)v; for (int k=0;k<nops[me];k++) perform(me,&ops[me][k]); }
static void team_body(void *v){ (void)v; body(omp_get_thread_num(),NULL); }
/* ---- is there a serial order? */
static op_ *seq[6][MAXOPS]; static int ns[6]; static uint64_t *memo; static size_t memo_n; static long nodes; static int deepest; static char why[5000];
static int seen(uint64_t h){ if (!h) h=1; size_t i=h&((1u<<18)-1); while (memo[i]){ if (memo[i]==h) return 1; i=(i+1)&((1u<<18)-1); } if (++memo_n>200000){ nodes=-1; return 1; } memo[i]=h; return 0; }
static st_ final_state; 
static int search(int *pos,st_ *s,int depth){
    if (nodes<0) return 1; nodes++;
    int left=0; uint64_t mine=~0ULL; for (int t=0;t<nthr;t++) if (pos[t]<ns[t]){ left=1; if (seq[t][pos[t]]->e<mine) mine=seq[t][pos[t]]->e; }
    if (!left){ for (int t=0;t<NT;t++){ tab_ *a=&s->t[t],*b=&final_state.t[t]; if (a->ex!=b->ex||a->n!=b->n||memcmp(a->id,b->id,a->n*sizeof(int))||memcmp(a->v,b->v,a->n*sizeof(int))){ if (depth>=deepest){ deepest=depth; snprintf(why,5000,"every result fits, but not the final contents of %s (%d rows, and %d rows would be there)",tn[t],b->n,a->n); } return 0; } } return 1; }
    uint64_t h=sim_hash(pos,sizeof(int)*nthr,FNV0); for (int t=0;t<NT;t++){ tab_ *a=&s->t[t]; h=sim_hash(&a->ex,8,h); h=sim_hash(a->id,a->n*sizeof(int),h); h=sim_hash(a->v,a->n*sizeof(int),h); } if (seen(h)) return nodes<0;
    for (int t=0;t<nthr;t++) if (pos[t]<ns[t]){ op_ *o=seq[t][pos[t]]; if (o->s>mine) continue;
        st_ n=*s; char out[4000]; int no=apply(o,&n,out); int fits=!no&&!strcmp(out,o->res);
        if (o->maybe==3) fits=!no;
        if (fits){ pos[t]++; if (search(pos,&n,depth+1)) return 1; pos[t]--; }
        if (o->maybe==2){ pos[t]++; if (search(pos,s,depth+1)) return 1; if (!no&&search(pos,&n,depth+1)) return 1; pos[t]--; }
        else if (!fits&&depth>=deepest){ deepest=depth; snprintf(why,5000,"after %d operations that fit, thread %d's %s of %s gave [%.700s] where [%.700s] is due",depth,t,on[o->kind],tn[o->t],o->res,out); } }
    return 0; }
static void read_final(void){ for (int t=0;t<NT;t++){ tab_ *a=&final_state.t[t]; char q[90]; snprintf(q,90,"select id, v, s from %s",tn[t]); sqlite3_stmt *s; a->ex=0; a->n=0; if (sqlite3_prepare_v2(db,q,-1,&s,NULL)) continue; a->ex=1; while (sqlite3_step(s)==SQLITE_ROW){ int id=sqlite3_column_int(s,0); char e[20]; sprintf(e,"k'%d",id%7); const char *x=(const char*)sqlite3_column_text(s,2); CK(x&&!strcmp(x,e),"dbthreads:torn","a row of %s holds id %d and text [%s]",tn[t],id,x?x:"NULL"); CK(!put(a,id,sqlite3_column_int(s,1)),"dbthreads:extra","%s has more rows than were ever inserted",tn[t]); } sqlite3_finalize(s); } }
void scen_dbthreads(void){
    quiet(); apop_opts.verbose=(int[]){-1,0,1}[w_choose(3)]; f_suspended=1; disk_init(); disk_attach(); sim_on_hang("dbthreads:stuck"); setenv("APOP_DB_ENGINE","",1);
    apop_opts.db_engine=w_choose(2)?'s':0; namesmode=w_choose(2); apop_opts.db_name_column=namesmode?"nm":w_choose(2)?"":NULL; flip=w_choose(6)==0;
    int first=w_choose(3)==0, onfile=!first&&w_choose(2); faulty=onfile&&!flip&&w_choose(3)==0; memset(ops,0,sizeof ops); memset(nops,0,sizeof nops);
    if (onfile) CK(!apop_db_open("x.db"),"dbthreads:setup","the database does not open"); else if (!first) CK(!apop_db_open(NULL),"dbthreads:setup","the database does not open");
    st_ start={0}; int nid=1; if (!first) for (int t=0;t<3+(int)w_choose(2);t++){ start.t[t].ex=1; CK(!apop_query("create table %s(id numeric, v numeric, s)",tn[t]),"dbthreads:setup","can't create"); int k=w_choose(5); for (int i=0;i<k;i++){ int v=w_choose(20); put(&start.t[t],nid,v); CK(!apop_query("insert into %s values (%d,%d,'k''%d')",tn[t],nid,v,nid%7),"dbthreads:setup","can't insert"); nid++; } }
    nthr=2+w_choose(3); int heavy=w_choose(3); int total=0; unsigned few[4],swarm=w_choose(2)?2+w_choose(3):0; for (unsigned i=0;i<swarm;i++) few[i]=w_choose(27); // now and then only a few kinds of operation, so that each meets the others
    for (int t=0;t<nthr;t++){ int k=0; if (first){ int from=w_choose(3); for (int i=0;i<3;i++) if (i==(from+t)%3||w_choose(2)==0){ ops[t][k].kind=O_ENSURE; ops[t][k++].t=i; } }
        int n=1+w_choose(heavy==2?5:3); for (int j=0;j<n&&total<18;j++,total++){ op_ *o=&ops[t][k]; o->t=w_choose(heavy?1:3); o->k=1+w_choose(3); o->m=1+w_choose(3); o->r=w_choose(o->m); o->c=1+w_choose(5); for (int i=0;i<o->k;i++){ o->id[i]=nid++; o->v[i]=w_choose(20); }
            static const int mix[]={O_INS,O_INS,O_UPD,O_UPD,O_DEL,O_MULTI,O_DATA,O_NAMED,O_VEC,O_FLOAT,O_TEXT,O_MIXED,O_EXISTS,O_DROP,O_CREATE,O_ENSURE,O_TODB,O_TODB,O_CROSS,O_CROSS,O_AGG,O_BAD,O_RAN,O_LOAD,O_XTODB,O_RNG,O_ANOVA};
            o->kind=mix[swarm?few[w_choose(swarm)]:w_choose(sizeof mix/sizeof*mix)]; 
            switch (o->kind){ case O_EXISTS: o->t=w_choose(4); break; case O_DROP: case O_CREATE: case O_ENSURE: o->t=3; break; case O_FLOAT: o->r=w_choose(2); break; case O_BAD: o->r=w_choose(4); break; case O_INS: case O_UPD: case O_DATA: case O_TEXT: if (w_choose(4)==0) o->t=3; break; case O_TODB: if (w_choose(3)==0) o->t=3; break; default:; }
            if (faulty&&(o->kind==O_MULTI||o->kind==O_TODB||o->kind==O_LOAD||o->kind==O_XTODB||o->kind==O_CROSS||o->kind==O_DROP||o->kind==O_BAD||o->kind==O_ANOVA)) o->kind=O_INS;
            if (first&&(o->kind==O_LOAD||o->kind==O_TODB)) o->kind=O_INS; // the table might not be there, or with columns of other names
            if (o->kind==O_TODB&&o->t<3&&first) o->kind=O_INS;
            if (flip&&w_choose(2)){ o->kind=O_FLIP; o->r=w_choose(4); o->c=w_choose(2); }
            if (o->kind==O_LOAD){ o->r=k; sbuf b={0}; for (int i=0;i<o->k;i++) sb_add(&b,"%d,%d,k'%d\n",o->id[i],o->v[i],o->id[i]%7); char f[30]; snprintf(f,30,"load%d_%d",t,k); io_put(f,b.s,b.n); } if (o->kind==O_XTODB) o->r=k;
            k++; }
        nops[t]=k; }
    sim_describe("%d threads, %d operations%s%s%s",nthr,total,first?", no database open yet":"",onfile?", on disk":"",flip?", options change":""); int verb=apop_opts.verbose; unsigned long seed=apop_opts.rng_seed;
    if (faulty){ int k[]={FK_DISK_RDERR,FK_DISK_WRERR,FK_DISK_FULL,FK_DISK_SYNCERR,FK_DISK_BUSY}; for (int i=0;i<5;i++) if (w_choose(2)) f_enable(k[i],0.02,1+w_choose(3)); CK(!apop_query("pragma cache_size=2"),"dbthreads:setup","pragma"); }
    f_suspended=0; sim_sched_on=1; if (w_choose(2)) sim_team(nthr,team_body,NULL); else sim_callers(nthr,body,NULL); sim_sched_on=0; f_suspended=1; sim_nontrivial();
    { unsigned long g[8][2]; for (int i=0;i<8;i++) for (int j=0;j<2;j++) g[i][j]=gsl_rng_get(apop_rng_get_thread(i)); for (int i=0;i<8;i++) for (int j=0;j<i;j++) CK(memcmp(g[i],g[j],sizeof g[i]),"dbthreads:generators","generators %d and %d are the same stream",j,i); (void)seed; }
    if (!flip) CK(apop_opts.verbose==verb,"dbthreads:options","apop_opts.verbose was %d and is now %d",verb,apop_opts.verbose);
    if (!flip) CK(namesmode?apop_opts.db_name_column&&!strcmp(apop_opts.db_name_column,"nm"):!apop_opts.db_name_column||!*apop_opts.db_name_column,"dbthreads:options","apop_opts.db_name_column is now [%s]",apop_opts.db_name_column?apop_opts.db_name_column:"NULL");
    if (first&&!db){ int any=0; for (int t=0;t<nthr;t++) for (int k=0;k<nops[t];k++) any|=ops[t][k].kind!=O_FLIP&&ops[t][k].kind!=O_EXISTS&&ops[t][k].kind!=O_DROP; CK(!any,"dbthreads:gone","no database is open"); return; }
    if (onfile&&!flip&&!faulty&&w_choose(2)){ apop_db_close(); CK(!apop_db_open("x.db"),"dbthreads:reopen","the database does not reopen"); }
    CK(sqlite3_get_autocommit(db),"dbthreads:transaction","a transaction is left open");
    read_final();
    for (int t=0;t<nthr;t++){ ns[t]=0; for (int k=0;k<nops[t];k++){ op_ *o=&ops[t][k];
            if (o->kind==O_LOAD){ CK(!o->failed||flip,"dbthreads:load","loading %d rows failed or gave another count",o->k); for (int i=0;i<o->k;i++){ op_ *p=calloc(1,sizeof *p); *p=*o; p->kind=O_LOADROW; p->id[0]=o->id[i]; p->v[0]=o->v[i]; seq[t][ns[t]++]=p; } continue; }
            if (o->kind==O_XTODB){ char q[90]; snprintf(q,90,"select a, b, c from x%d_%d",t,k); int n=0; char *d=q_dump(db,q,&n,NULL); sbuf e={0}; CK(n==4&&d,"dbthreads:crosstab","a crosstab of four cells is written as %d rows",n); sqlite3_stmt *s; sqlite3_prepare_v2(db,q,-1,&s,NULL); for (int i=0;sqlite3_step(s)==SQLITE_ROW;i++){ char want[40]; snprintf(want,40,"r%d c%d %d",i/2,i%2,o->id[0]+i); e.n=0; sb_add(&e,"%s %s %d",sqlite3_column_text(s,0),sqlite3_column_text(s,1),sqlite3_column_int(s,2)); CK(!strcmp(e.s,want),"dbthreads:crosstab","a crosstab's row %d is [%s] instead of [%s]",i,e.s,want); } sqlite3_finalize(s); free(d); continue; }
            seq[t][ns[t]++]=o; } }
    memo=calloc(1u<<18,sizeof *memo); memo_n=0; nodes=0; deepest=0; int pos[6]={0}; why[0]=0;
    CK(search(pos,&start,0),"dbthreads:order","no serial order of the operations explains what the threads saw: %.1500s",why);
    if (nodes<0) sim_probe("serial_order_search_gave_up"); uint64_t h=FNV0; for (int t=0;t<nthr;t++) for (int k=0;k<nops[t];k++) h=sim_hash(ops[t][k].res,strlen(ops[t][k].res),h); sim_state(h); }
