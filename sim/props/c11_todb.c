/* C11: saving data sets as database tables, on a disk and with memory that fail at arbitrary points.  A reference
database gets the same rows by way of bound parameters; the saved table must hold the same cells in the same columns, or
(when the call reported failure) the rows up to some point. */
#include "dbcommon.h"
static sqlite3 *ref; static int onfile,intx;
static long notes(void){ if (apop_opts.log_file) fflush(apop_opts.log_file); return note_len; }
static int use_row(const apop_data *d){ return apop_opts.db_name_column&&*apop_opts.db_name_column&&d->names&&d->names->rowct; }
static int rows_of(const apop_data *d){ size_t r=0; if (d->vector) r=d->vector->size; if (d->matrix&&d->matrix->size1>r) r=d->matrix->size1; if (d->textsize[0]>r) r=d->textsize[0]; if (d->weights&&d->weights->size>r) r=d->weights->size; if (use_row(d)&&d->names->rowct>r) r=d->names->rowct; return r; }
static int cols_of(const apop_data *d){ return use_row(d)+!!d->vector+(d->matrix?d->matrix->size2:0)+d->textsize[1]+!!d->weights; }
static int has_table(sqlite3 *h,const char *t){ char q[200]; snprintf(q,200,"select 1 from sqlite_master where type='table' and name='%s'",t); int r=0; char *d=q_dump(h,q,&r,NULL); free(d); return r; }
static void ref_create(const apop_data *d,const char *t){
    sbuf b={0}; sb_add(&b,"create table %s(",t); const char *c=""; char n[200];
    #define COL(...) { snprintf(n,200,__VA_ARGS__); sb_add(&b,"%s%s",c,n); c=","; }
    if (use_row(d)) COL("%s",apop_opts.db_name_column)
    if (d->vector){ if (d->names->vector) COL("\"%s\"",d->names->vector) else COL("vector numeric") }
    if (d->matrix) for (int j=0;j<d->matrix->size2;j++){ if (j<d->names->colct) COL("\"%s\" numeric",d->names->col[j]) else COL("c%d numeric",j) }
    for (int j=0;j<d->textsize[1];j++){ if (j<d->names->textct) COL("\"%s\"",d->names->text[j]) else COL("tc%d",j) }
    if (d->weights) COL("weights numeric")
    sb_add(&b,")"); ref_exec(ref,b.s); free(b.s); }
static void bind_text(sqlite3_stmt *s,int f,const char *x,int nanable){ if (!x||!*x||(nanable&&apop_opts.nan_string&&!strcasecmp(x,apop_opts.nan_string))) sqlite3_bind_null(s,f); else sqlite3_bind_text(s,f,x,-1,SQLITE_TRANSIENT); }
static void bind_num(sqlite3_stmt *s,int f,const double *x){ if (!x||isnan(*x)) sqlite3_bind_null(s,f); else sqlite3_bind_double(s,f,*x); }
static void ref_row(const apop_data *d,const char *t,int i){
    f_suspended++; int nc=cols_of(d),f=1; sbuf b={0}; sb_add(&b,"insert into %s values(",t); for (int j=0;j<nc;j++) sb_add(&b,j?",?":"?"); sb_add(&b,")"); sqlite3_stmt *s; if (sqlite3_prepare_v2(ref,b.s,-1,&s,NULL)) sim_error("reference: %s",sqlite3_errmsg(ref)); free(b.s);
    if (use_row(d)) bind_text(s,f++,i<d->names->rowct?d->names->row[i]:NULL,0);
    if (d->vector) bind_num(s,f++,i<d->vector->size?gsl_vector_const_ptr(d->vector,i):NULL);
    if (d->matrix) for (int j=0;j<d->matrix->size2;j++) bind_num(s,f++,i<d->matrix->size1?gsl_matrix_const_ptr(d->matrix,i,j):NULL);
    for (int j=0;j<d->textsize[1];j++) bind_text(s,f++,i<d->textsize[0]?d->text[i][j]:NULL,1);
    if (d->weights) bind_num(s,f++,i<d->weights->size?gsl_vector_const_ptr(d->weights,i):NULL);
    if (sqlite3_step(s)!=SQLITE_DONE) sim_error("reference: %s",sqlite3_errmsg(ref)); sqlite3_finalize(s); f_suspended--; }
static int same(char **shown){ char *now=db_dump(db),*want=db_dump(ref); CK(now,"todb:unusable","the database can't be read although nothing fails any more: %s",sqlite3_errmsg(db)); int r=!strcmp(now,want); if (shown&&!r) *shown=strdup(first_diff(now,want)); free(now); free(want); return r; }
static int tcols(const char *t){ char q[100]; int c=-1; sqlite3_stmt *s; snprintf(q,100,"select * from %s",t); f_suspended++; if (!sqlite3_prepare_v2(ref,q,-1,&s,NULL)){ c=sqlite3_column_count(s); sqlite3_finalize(s); } f_suspended--; return c; }
// numerals of at most 15 digits: SQLite's own reading of longer ones in SQL text may be off in the last place
static double wide_num(void){ static const double v[]={123456789.125,-0.0009765625,1e15+1,NAN,INFINITY,-INFINITY,1048577.5}; int k=w_choose(12); return k<7?v[k]:rand_num(0); }
static apop_data *make(void){
    int wide=w_choose(40)==0; apop_data *d;
    if (wide){ d=apop_data_alloc(); int c=990+w_choose(40),r=1+w_choose(2); d->matrix=gsl_matrix_calloc(r,c); for (int k=0;k<6;k++) gsl_matrix_set(d->matrix,w_choose(r),w_choose(c),wide_num()); if (w_choose(2)){ apop_text_alloc(d,r,1+w_choose(8)); for (int i=0;i<r;i++) for (int j=0;j<d->textsize[1];j++) apop_text_set(d,i,j,"%s",rand_text(1)); }
        if (w_choose(2)) for (int i=0;i<r;i++) apop_name_add(d->names,w_choose(3)?"it's a row":"7",'r'); if (w_choose(3)==0){ d->vector=gsl_vector_calloc(r); gsl_vector_set(d->vector,0,wide_num()); } if (w_choose(3)==0){ d->weights=gsl_vector_calloc(r); gsl_vector_set(d->weights,0,wide_num()); } sim_probe("wide"); return d; }
    int r=1+w_choose(10); d=rand_set(r,1,1);
    if (w_choose(5)==0&&d->textsize[0]) apop_text_set(d,w_choose(r),w_choose(d->textsize[1]),"%s",w_choose(2)?"":apop_opts.nan_string?apop_opts.nan_string:"");
    if (w_choose(6)==0){ // parts of different lengths
        int k=w_choose(4); if (k==0&&d->vector&&r>1) d->vector->size=1+w_choose(r-1); else if (k==1&&d->matrix){ gsl_vector_free(d->weights); d->weights=gsl_vector_calloc(r+w_choose(3)); } else if (k==2&&!d->vector){ d->vector=gsl_vector_calloc(r+1+w_choose(3)); gsl_vector_set(d->vector,r,3.25); } else if (k==3&&d->names->rowct>1) { apop_name *n=apop_name_alloc(); for (int i=0;i<d->names->rowct/2;i++) apop_name_add(n,d->names->row[i],'r'); for (int i=0;i<d->names->colct;i++) apop_name_add(n,d->names->col[i],'c'); apop_name_free(d->names); d->names=n; } }
    if (w_choose(8)==0&&d->names->rowct){ int i=w_choose(d->names->rowct); free(d->names->row[i]); d->names->row[i]=strdup(w_choose(2)?"":rand_text(1)); }
    if (w_choose(12)==0&&!d->names->textct&&d->textsize[1]) apop_name_add(d->names,w_choose(2)?"two words":"select",'t');
    if (w_choose(16)==0){ apop_data *e=apop_data_alloc(); e->weights=gsl_vector_calloc(r); return e; }
    return d; }
static void readback(const apop_data *d,const char *t){ // the library's own reading
    char types[3000]; int n=0,c=cols_of(d); if (c>40) return; if (use_row(d)) types[n++]='n'; if (d->vector) types[n++]='v'; if (d->matrix) for (int j=0;j<d->matrix->size2;j++) types[n++]='m'; for (int j=0;j<d->textsize[1];j++) types[n++]='t'; if (d->weights) types[n++]='w'; types[n]=0;
    apop_data *r=apop_query_to_mixed_data(types,"select * from %s",t); int rows=rows_of(d); if (!rows){ CK(!r||!r->error,"todb:readback","an empty table"); return; }
    CK(r&&!r->error,"todb:readback","reading back table %s with types %s fails",t,types);
    #define NEAR(got,want,where,i,j) { double a=(got),b=(want); CK(same_d(a,b)||a==b||fabs(a-b)<=1e-14*fabs(b),"todb:readback","%s (%d,%d) reads back as %.17g, was %.17g",where,i,j,a,b); }
    for (int i=0;i<rows;i++){
        if (use_row(d)){ const char *w=i<d->names->rowct&&*d->names->row[i]?d->names->row[i]:NULL; CK(r->names->rowct>i&&(!w||!strcmp(r->names->row[i],w)),"todb:readback","row name %d reads back as %s, was %s",i,r->names->rowct>i?r->names->row[i]:"nothing",w?w:"NULL"); }
        if (d->vector) NEAR(gsl_vector_get(r->vector,i),i<d->vector->size?gsl_vector_get(d->vector,i):NAN,"vector element",i,0)
        if (d->matrix) for (int j=0;j<d->matrix->size2;j++) NEAR(gsl_matrix_get(r->matrix,i,j),i<d->matrix->size1?gsl_matrix_get(d->matrix,i,j):NAN,"matrix element",i,j)
        for (int j=0;j<d->textsize[1];j++){ const char *w=i<d->textsize[0]?d->text[i][j]:""; if (*w&&!(apop_opts.nan_string&&!strcasecmp(w,apop_opts.nan_string))) CK(!strcmp(r->text[i][j],w),"todb:readback","text (%d,%d) reads back as [%s], was [%s]",i,j,r->text[i][j],w); }
        if (d->weights) NEAR(gsl_vector_get(r->weights,i),i<d->weights->size?gsl_vector_get(d->weights,i):NAN,"weight",i,0) }
    apop_data_free(r); }
void scen_todb(void){
    quiet(); apop_opts.verbose=0; sim_sched_on=0; f_suspended=1; disk_init(); disk_attach(); sim_on_hang("todb:hang"); setenv("APOP_DB_ENGINE","",1);
    apop_opts.db_engine=w_choose(2)?'s':0; apop_opts.nan_string=(char*[]){"NaN","NA","nothing",NULL}[w_choose(4)];
    apop_opts.db_name_column=(char*[]){"row_names","rn","Row_Names","",NULL}[w_choose(5)];
    onfile=w_choose(3)!=0; intx=0; ref=ref_open(); if (onfile) CK(!apop_db_open("x.db"),"todb:setup","the database did not open although nothing is wrong"); else if (w_choose(2)) apop_db_open(NULL);
    if (onfile&&w_choose(3)==0) CK(!apop_query("pragma cache_size=%i",1+(int)w_choose(8)),"todb:setup","pragma failed");
    int faulty=w_choose(3)!=0;
    if (faulty){ double r=(double[]){0.001,0.003,0.01,0.03,0.1}[w_choose(5)]; int bud=1+w_choose(3); if (onfile){ int k[]={FK_DISK_RDERR,FK_DISK_WRERR,FK_DISK_FULL,FK_DISK_SYNCERR,FK_DISK_BUSY}; for (int i=0;i<5;i++) if (w_choose(2)) f_enable(k[i],r,bud); } f_enable(FK_OOM,r/3,bud); }
    int nop=1+w_choose(5); apop_data *last=NULL;
    for (int k=0;k<nop;k++){
        const char *t=w_choose(3)?"t":"u"; int there=has_table(ref,t); apop_data *d= last&&w_choose(2)?last:make(); last=d; int rows=rows_of(d),nc=cols_of(d);
        int how=w_choose(3),app= there? (how==0?0:1): w_choose(2); // how: 0,1 apop_data_print, 2 apop_data_to_db
        if (how==2&&there) app=1; char mode=app?'a':'w'; long n0=notes(); uint64_t f0=f_fired_total()+disk_err_count(); int lock=0;
        if (faulty&&onfile&&w_choose(8)==0){ lock=1+w_choose(4); disk_other_lock("x.db",lock); } if (faulty&&onfile&&w_choose(10)==0){ char *x; size_t l; disk_dump("x.db",&x,&l); disk_set_capacity((long)l+(long)w_choose(6)*700); }
        if (w_choose(6)==0){ const char *q=intx?(w_choose(3)?"commit":"rollback"):"begin"; disk_other_lock("x.db",0); if (!apop_query("%s",q)) { ref_exec(ref,q); intx=!intx; } there=has_table(ref,t); if (!there&&!app) ; lock=0; if (how==2&&there){ app=1; mode='a'; } n0=notes(); }
        apop_data *keep=deep_copy(d); if (w_choose(8)==0&&d->matrix&&!d->textsize[0]&&!d->vector&&!d->weights) ; 
        sim_event("save %d rows of %d columns to %s, mode %c, %s%s",rows,nc,t,mode,how==2?"to_db":"print",intx?", in a transaction":"");
        f_suspended=0; disk_oom=faulty&&w_choose(3)==0; int rc=0; int sub=w_choose(6)==0&&d->matrix&&how!=2;
        apop_data mset={0}; apop_data *eff=d;
        if (sub) { mset.matrix=d->matrix; mset.names=apop_name_alloc(); eff=&mset; apop_matrix_print(d->matrix,.output_name=t,.output_type='d',.output_append=mode); }
        else if (how==2) rc=apop_data_to_db(d,t,mode); else apop_data_print(d,.output_name=t,.output_type='d',.output_append=mode);
        f_suspended=1; disk_oom=0; disk_set_capacity(-1); if (onfile) disk_other_lock("x.db",0);
        rows=rows_of(eff); nc=cols_of(eff);
        int failed=f_fired_total()+disk_err_count()>f0||lock; if (how!=2) rc=notes()>n0?-1:0; if (failed) sim_nontrivial();
        const char *r=data_diff(d,keep,1); CK(!r,"todb:input","saving a data set changed it: %s",r); apop_data_free(keep);
        if (!db){ if (rc){ CK(failed,"todb:spurious","no database is open after a save"); f_suspended=1; apop_db_open(NULL); } CK(db,"todb:gone","a save reports success without a database"); }
        int misfit= there&&mode=='a'&&tcols(t)!=nc; char *df=NULL; CK(rc||!misfit,"todb:misfit","appending a set of %d columns to a table of %d reports success",nc,tcols(t));
        if (!nc) { CK(rc,"todb:empty","saving an empty data set reports success"); CK(mode=='w'||same(&df),"todb:empty","saving an empty data set changes the database: %s",df); if (mode=='w'&&there&&!same(NULL)){ char q[60]; snprintf(q,60,"drop table %s",t); ref_exec(ref,q); CK(same(&df),"todb:empty","saving an empty set: %s",df); } continue; }
        CK(!rc||failed||misfit,"todb:spurious","saving reports failure although nothing failed: %.200s",note_buf+n0);
        if (rc){ sim_probe("save_failed"); if (intx&&sqlite3_get_autocommit(db)){ ref_exec(ref,"rollback"); intx=0; there=has_table(ref,t); sim_probe("transaction_rolled_back_by_failure"); } }
        if (!rc){
            if (mode=='w'&&there){ char q[60]; snprintf(q,60,"drop table %s",t); ref_exec(ref,q); there=0; } if (!there) ref_create(eff,t); for (int i=0;i<rows;i++) ref_row(eff,t,i);
            CK(same(&df),"todb:lost","a save (%d rows, %d columns, mode %c) reports success, and the table is not what was saved: %s",rows,nc,mode,df);
            if (!there) readback(eff,t); sim_probe(there?"appended":"written");
        } else if (!same(&df)) { // some prefix
            int hit=0; if (mode=='w'&&there){ char q[60]; snprintf(q,60,"drop table %s",t); ref_exec(ref,q); there=0; hit=same(&df); } if (!hit&&!there){ ref_create(eff,t); hit=same(&df); } 
            for (int i=0;i<rows&&!hit;i++){ ref_row(eff,t,i); hit=same(&df); } sim_probe("partial");
            CK(hit,"todb:after-failure","a save reports failure, and the table holds neither what it held nor the first rows saved: %s",df); }
        sim_state(data_hash(d)); 
    }
    if (intx){ CK(!apop_query("commit"),"todb:unusable","the transaction does not commit although nothing fails any more"); ref_exec(ref,"commit"); }
    if (onfile){ CK(!apop_db_close(),"todb:close","the database does not close"); CK(!apop_db_open("x.db"),"todb:reopen","the database does not reopen"); }
    if (db){ char *df=NULL; CK(same(&df),"todb:lost","at the end: %s",df); sim_nontrivial(); }
    sim_describe("%s database, %d saves, %d faults",onfile?"file":"memory",nop,(int)f_fired_total());
}
/* a data set as (row, column, value) triples, and back */
static void bind_row(const char *r,const char *c,double v,const char *txt){ sqlite3_stmt *s; sqlite3_prepare_v2(ref,"insert into x values (?,?,?)",-1,&s,NULL); sqlite3_bind_text(s,1,r,-1,SQLITE_TRANSIENT); sqlite3_bind_text(s,2,c,-1,SQLITE_TRANSIENT); if (txt) sqlite3_bind_text(s,3,txt,-1,SQLITE_TRANSIENT); else if (!isnan(v)) sqlite3_bind_double(s,3,v); if (sqlite3_step(s)!=SQLITE_DONE) sim_error("reference insert"); sqlite3_finalize(s); }
static int cmpname(const void *a,const void *b){ return strcmp(*(char**)a,*(char**)b); }
static int posn(char **l,int n,const char *s){ for (int i=0;i<n;i++) if (!strcmp(l[i],s)) return i; return -1; }
void scen_crosstab(void){
    quiet(); apop_opts.verbose=0; sim_sched_on=0; f_suspended=1; disk_init(); disk_attach(); sim_on_hang("crosstab:hang"); setenv("APOP_DB_ENGINE","",1); apop_opts.db_engine=w_choose(2)?'s':0; apop_opts.nan_string="NaN"; apop_opts.db_name_column=(char*[]){"row_names","a","b",NULL}[w_choose(4)]; ref=ref_open(); onfile=w_choose(2);
    if (onfile) CK(!apop_db_open("x.db"),"crosstab:setup","the database did not open"); else if (w_choose(2)) apop_db_open(NULL);
    int r=1+w_choose(w_choose(5)?6:14),c=1+w_choose(w_choose(5)?5:13),tc=w_choose(4)?0:1+w_choose(3); apop_data *d=apop_data_alloc(r,c); for (int i=0;i<r*c;i++) d->matrix->data[i]= w_choose(8)==0?NAN:w_choose(4)?(double)w_choose(50)/4:rand_num(1);
    if (tc){ apop_text_alloc(d,r,tc); for (int i=0;i<r;i++) for (int j=0;j<tc;j++) apop_text_set(d,i,j,"%s",w_choose(3)?rand_text(1):"3.5"); }
    int rn=w_choose(4)?w_choose(2)?r:w_choose(r+1):0,cn=w_choose(4)?w_choose(2)?c:w_choose(c+1):0,tn=tc&&w_choose(2)?tc:0; char b[900];
    for (int i=0;i<rn;i++){ snprintf(b,900,"%s%d",w_choose(3)?"row":w_choose(2)?"it's ":"a\"b%",i); apop_name_add(d->names,b,'r'); } for (int i=0;i<cn;i++){ snprintf(b,900,"%s%d",w_choose(3)?"col":w_choose(2)?"don't ":"",i*3); apop_name_add(d->names,b,'c'); } for (int i=0;i<tn;i++){ snprintf(b,900,"txt%d",i); apop_name_add(d->names,b,'t'); }
    apop_data *keep=deep_copy(d); char *R[20],*C[40]; for (int i=0;i<r;i++){ snprintf(b,900,"r%d",i); R[i]=strdup(i<rn?d->names->row[i]:b); } for (int j=0;j<c+tc;j++){ if (j<c) snprintf(b,900,"c%d",j); else snprintf(b,900,"t%d",j-c); C[j]=strdup(j<c?j<cn?d->names->col[j]:b:j-c<tn?d->names->text[j-c]:b); }
    apop_crosstab_to_db(d,"x","a","b","c"); const char *df=data_diff(d,keep,1); CK(!df,"crosstab:input","saving a crosstab changed it: %s",df);
    ref_exec(ref,"create table x(a character, b character, c numeric)"); for (int i=0;i<r;i++) for (int j=0;j<c;j++) bind_row(R[i],C[j],gsl_matrix_get(d->matrix,i,j),NULL); for (int i=0;i<r;i++) for (int j=0;j<tc;j++) bind_row(R[i],C[c+j],0,d->text[i][j]);
    char *now=q_dump(db,"select * from x",NULL,NULL),*want=q_dump(ref,"select * from x",NULL,NULL); CK(now&&!strcmp(now,want),"crosstab:saved","a %d x %d crosstab with %d text columns is not what was saved: %s",r,c,tc,now?first_diff(now,want):"no table");
    CK(sqlite3_get_autocommit(db),"crosstab:transaction","a transaction is left open");
    /* and back */
    int where=w_choose(3)==0; // part of the table only
    int what=w_choose(4); const char *src=where?"(select * from x where b not like 'c%1%')":"x"; char *SR[20],*SC[40]; int nr=0,nc=0; 
    for (int j=0;j<c+tc;j++) if (!where||sqlite3_strlike("c%1%",C[j],0)) SC[nc++]=C[j]; if (nc) for (int i=0;i<r;i++) SR[nr++]=R[i]; qsort(SR,nr,sizeof(char*),cmpname); qsort(SC,nc,sizeof(char*),cmpname);
    int faulty=w_choose(2); if (faulty){ if (onfile){ apop_query("pragma cache_size=1"); f_enable(FK_DISK_RDERR,0.1,2); f_enable(FK_DISK_BUSY,0.1,1); } f_enable(FK_OOM,0.01,1); disk_oom=1; }
    uint64_t f0=f_fired_total()+disk_err_count(); f_suspended=0; char *nm=apop_opts.db_name_column;
    apop_data *x= what==0?apop_db_to_crosstab((char*)src,"a","b","c"):what==1?apop_db_to_crosstab((char*)src,"a","b"):what==2?apop_db_to_crosstab((char*)src,"a",.data="sum(c)"):apop_db_to_crosstab((char*)src,.col="b",.data="max(c)",.is_aggregate='y');
    f_suspended=1; disk_oom=0; int failed=f_fired_total()+disk_err_count()>f0; CK(apop_opts.db_name_column==nm,"crosstab:options","the name column option is now %s",apop_opts.db_name_column?apop_opts.db_name_column:"NULL");
    if (!x){ CK(failed||!nc,"crosstab:empty","no crosstab although there is data"); sim_nontrivial(); return; } if (x->error){ CK(failed,"crosstab:spurious","a crosstab marked '%c' although nothing failed: %.200s",x->error,note_buf?note_buf:""); sim_probe("crosstab_failed"); sim_nontrivial(); return; }
    int er=what==3?1:nr,ec=what==2?1:nc; CK(x->matrix&&(int)x->matrix->size1==er&&(int)x->matrix->size2==ec,"crosstab:size","a crosstab of %d x %d where %d x %d is due",x->matrix?(int)x->matrix->size1:0,x->matrix?(int)x->matrix->size2:0,er,ec);
    for (int i=0;i<er;i++) CK(i<x->names->rowct&&!strcmp(x->names->row[i],what==3?"1":SR[i]),"crosstab:names","row %d is named [%s] instead of [%s]",i,i<x->names->rowct?x->names->row[i]:"",what==3?"1":SR[i]); for (int j=0;j<ec;j++) CK(j<x->names->colct&&!strcmp(x->names->col[j],what==2?"1":SC[j]),"crosstab:names","column %d is named [%s] instead of [%s]",j,j<x->names->colct?x->names->col[j]:"",what==2?"1":SC[j]);
    for (int i=0;i<er;i++) for (int j=0;j<ec;j++){ char q[1200]; char *qr=sql_quote(what==3?"1":SR[i]),*qc=sql_quote(what==2?"1":SC[j]); snprintf(q,1200,"select %s from %s where %s=%s and %s=%s",what==0?"c":what==1?"count(*)":what==2?"sum(c)":"max(c)",src,what==3?"'1'":"a",qr,what==2?"'1'":"b",qc); sqlite3_stmt *s; if (sqlite3_prepare_v2(ref,q,-1,&s,NULL)) sim_error("%s",sqlite3_errmsg(ref)); double e=0; if (sqlite3_step(s)==SQLITE_ROW){ const char *tx=(const char*)sqlite3_column_text(s,0); e=tx?atof(tx):NAN; } sqlite3_finalize(s); free(qr); free(qc);
        double g=gsl_matrix_get(x->matrix,i,j); CK(close_d(g,e,1e-13),"crosstab:cell","cell (%d,%d) of the crosstab is %g instead of %g",i,j,g,e); }
    sim_state(data_hash(x)); sim_nontrivial(); sim_describe("crosstab %d x %d, %d text columns, read back as %d%s",r,c,tc,what,faulty?", with failures":""); }
