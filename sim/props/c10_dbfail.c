/* C10: queries against a database whose disk, locks and memory fail at arbitrary points.  Every call must either say
that it failed or give exactly what a reference database gives, and the database must remain usable. */
#include "dbcommon.h"
static sqlite3 *ref; static int intx, onfile, isopen; static int tabs[4];
static const char *tn[]={"t0","t1","t2","t3"};
static void both(const char *sql){ ref_exec(ref,sql); CK(!apop_query("%s",sql),"dbfail:setup","a statement failed although nothing is wrong: %.200s",note_buf); }
static char *cellsql(int col){ static char b[4][900]; char *o=b[col&3];
    if (w_choose(9)==0) return "NULL";
    if (col<2) { if (col==1&&w_choose(8)==0) snprintf(o,900,"'%s'",w_choose(2)?"abc":apop_opts.nan_string); else snprintf(o,900,"%g",w_choose(3)?(double)w_choose(40):rand_num(0)); }
    else if (col==2) { char *q=sql_quote(rand_text(1)); snprintf(o,900,"%s",q); free(q); }
    else snprintf(o,900,"'row %u'",w_choose(60)); return o; }
static char *valuesql(void){ sbuf b={0}; sb_add(&b,"("); for (int c=0;c<4;c++){ char *q=cellsql(c); sb_mem(&b,c?",":"",c?1:0); sb_mem(&b,q,strlen(q)); } if (w_choose(6)==0){ b.n=0; int n=200+w_choose(800); char *big=malloc(n+1); memset(big,'a'+w_choose(20),n); big[n]=0; sb_add(&b,"(%d,%g,",(int)w_choose(40),rand_num(0)); sb_add(&b,"'"); sb_mem(&b,big,n); sb_add(&b,"',NULL"); free(big); } sb_add(&b,")"); return b.s; }
static char *dml(void){
    int t=w_choose(4); if (t==3&&!tabs[3]) t=0; sbuf b={0};
    switch (w_choose(7)){
        case 0: case 1: { int k=1+w_choose(4); sb_add(&b,"insert into %s values ",tn[t]); for (int i=0;i<k;i++){ char *v=valuesql(); if (i) sb_add(&b,","); sb_mem(&b,v,strlen(v)); free(v);} break; }
        case 2: sb_add(&b,"update %s set a=a+1, b=b*2",tn[t]); break;
        case 3: sb_add(&b,"delete from %s where a%%4=%d",tn[t],(int)w_choose(4)); break;
        case 4: sb_add(&b,"update %s set s=s||'+' where a>%d",tn[t],(int)w_choose(30)); break;
        case 5: sb_add(&b,"insert into %s select * from %s where a<%d limit 30",tn[t],tn[w_choose(3)],(int)w_choose(40)); break;
        default: if (tabs[3]) sb_add(&b,"drop table t3"); else sb_add(&b,"create table t3(a numeric, b numeric, s, row_names)"); tabs[3]=!tabs[3]; }
    return b.s; }
static char *selectsql(int *nc,int numeric){   // *nc columns
    static char b[400]; const char *t=tn[w_choose(3)]; char w[100]=""; 
    switch (w_choose(6)){ case 0: snprintf(w,100," where a>%d",(int)w_choose(50)); break; case 1: snprintf(w,100," where s like '%%o%%'"); break; case 2: snprintf(w,100," where a<-1000"); break; case 3: snprintf(w,100," limit %d",(int)w_choose(6)); break; default: ; }
    switch (w_choose(numeric?6:9)){
        case 0: snprintf(b,400,"select a, b from %s%s",t,w); *nc=2; break;
        case 1: snprintf(b,400,"select a from %s%s",t,w); *nc=1; break;
        case 2: snprintf(b,400,"select count(*), sum(a), max(b) from %s%s",t,w); *nc=3; break;
        case 3: snprintf(b,400,"select row_names, a, b, a/3.0 as third from %s%s",t,w); *nc=4; break;
        case 4: snprintf(b,400,"select x.a, y.b from %s x, t1 y where x.a=y.a order by x.rowid, y.rowid limit 40",t); *nc=2; break;
        case 5: snprintf(b,400,"select b, row_names, a from %s order by b, rowid",t); *nc=3; break;
        case 6: snprintf(b,400,"select * from %s%s",t,w); *nc=4; break;
        case 7: snprintf(b,400,"select s, row_names from %s%s",t,w); *nc=2; break;
        default: snprintf(b,400,"select name from sqlite_master where type='table' order by name"); *nc=1; } return b; }
static double num(const char *t){ if (!t||!strcmp(t,"NULL")||(apop_opts.nan_string&&!strcasecmp(t,apop_opts.nan_string))) return NAN; return atof(t); }
/* what a query should produce, by way of the reference */
static apop_data *expect(char kind,const char *types,const char *sql,int *bad){
    sqlite3_stmt *s; *bad=0; f_suspended++; int r0=sqlite3_prepare_v2(ref,sql,-1,&s,NULL); if (r0){ *bad=1; f_suspended--; return NULL; }
    int nc=sqlite3_column_count(s),rows=0,rc; apop_data *o=apop_data_alloc(); int nm=-1; if (kind!='x'&&apop_opts.db_name_column) for (int i=nc-1;i>=0;i--) if (!strcasecmp(sqlite3_column_name(s,i),apop_opts.db_name_column)) nm=i;
    char k[8]; for (int i=0;i<nc;i++) k[i]= kind=='x'?types[i]: i==nm?'n': kind; int cm=0,ct=0; for (int i=0;i<nc;i++){ cm+=k[i]=='m'; ct+=k[i]=='t'; }
    gsl_matrix *M=cm?gsl_matrix_alloc(400,cm):NULL; static char *T[400][6]; gsl_vector *V=gsl_vector_alloc(400),*W=gsl_vector_alloc(400); int hv=0,hw=0;
    while ((rc=sqlite3_step(s))==SQLITE_ROW){ int m=0,t=0; if (rows>=400) sim_error("reference result too long"); for (int i=0;i<nc;i++){ const char *x=(const char*)sqlite3_column_text(s,i); const char *cn=sqlite3_column_name(s,i);
            if (k[i]=='n'){ apop_name_add(o->names,x?x:"NaN",'r'); if (kind=='x') apop_name_add(o->names,cn,'h'); }
            else if (k[i]=='m'){ if (!rows) apop_name_add(o->names,cn,'c'); gsl_matrix_set(M,rows,m++,kind=='x'?(x?atof(x):NAN):num(x)); }
            else if (k[i]=='v'){ hv=1; if (!rows) apop_name_add(o->names,cn,'v'); gsl_vector_set(V,rows,x?atof(x):NAN); }
            else if (k[i]=='w'){ hw=1; gsl_vector_set(W,rows,x?atof(x):NAN); }
            else { if (!rows) apop_name_add(o->names,cn,'t'); T[rows][t++]=strdup(x?x:kind=='x'?"NaN":apop_opts.nan_string); } }
        rows++; }
    if (rc!=SQLITE_DONE) *bad=1; sqlite3_finalize(s); f_suspended--;
    if (!rows) return NULL;
    if (cm){ gsl_matrix_view v=gsl_matrix_submatrix(M,0,0,rows,cm); o->matrix=gsl_matrix_alloc(rows,cm); gsl_matrix_memcpy(o->matrix,&v.matrix); }
    if (hv){ o->vector=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(o->vector,i,gsl_vector_get(V,i)); }
    if (hw){ o->weights=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(o->weights,i,gsl_vector_get(W,i)); }
    if (ct){ apop_text_alloc(o,rows,ct); for (int i=0;i<rows;i++) for (int j=0;j<ct;j++) apop_text_set(o,i,j,"%s",T[i][j]); }
    gsl_vector_free(V); gsl_vector_free(W); if (M) gsl_matrix_free(M); return o; }
static void faults(int on){
    if (on){ f_suspended=0; disk_oom=w_choose(4)==0; } else { f_suspended=1; disk_oom=0; disk_set_capacity(-1); if (onfile) disk_other_lock("x.db",0); } }
static void state_is(const char *what,int failed,char **allowed,int n){
    char *now=db_dump(db); CK(now,"dbfail:unusable","after %s the database can't be read although nothing fails any more: %s",what,sqlite3_errmsg(db));
    for (int i=0;i<n;i++) if (allowed[i]&&!strcmp(now,allowed[i])){ free(now); return; }
    sim_fail(failed?"dbfail:after-failure":"dbfail:lost","%s %s, and the database does not hold what it should: %s",what,failed?"reported failure":"reported success",first_diff(now,allowed[0])); }
static void reopen(void){ faults(0); if (!db) { CK(!apop_db_open("x.db"),"dbfail:reopen","the database does not open although nothing fails any more"); } }
static const char *marks(const apop_data *d){ return d->error?"marked":"unmarked"; }
static void after_failure_in_tx(const char *what){ // the engine either kept the transaction or rolled all of it back
    if (!intx) return; if (sqlite3_get_autocommit(db)){ ref_exec(ref,"rollback"); intx=0; sim_probe("transaction_rolled_back_by_failure"); } }
void scen_dbfail(void){
    quiet(); apop_opts.verbose=(int[]){-1,0,1,2}[w_choose(4)]; sim_sched_on=0; f_suspended=1; disk_init(); disk_attach(); sim_on_hang("dbfail:hang");
    apop_opts.db_engine=w_choose(2)?'s':0; apop_opts.nan_string=(char*[]){"NaN","NA","nothing"}[w_choose(3)];
    apop_opts.db_name_column=(char*[]){"row_names","Row_Names","s","",NULL}[w_choose(5)];
    onfile=w_choose(4)!=0; ref=ref_open(); intx=0; memset(tabs,0,sizeof tabs); setenv("APOP_DB_ENGINE","",1);
    if (onfile) CK(!apop_db_open("x.db"),"dbfail:setup","the database did not open although nothing is wrong"); else if (w_choose(2)) apop_db_open(NULL);
    if (w_choose(2)) CK(!apop_query("pragma cache_size=%i",1+(int)w_choose(8)),"dbfail:setup","pragma failed");
    for (int t=0;t<3;t++){ char q[100]; snprintf(q,100,"create table %s(a numeric, b numeric, s, row_names)",tn[t]); both(q); int k=w_choose(12); if (w_choose(3)==0) k*=2;
        for (int i=0;i<k;i++){ char *v=valuesql(); sbuf b={0}; sb_add(&b,"insert into %s values ",tn[t]); sb_mem(&b,v,strlen(v)); both(b.s); free(v); free(b.s);} }
    if (w_choose(6)) { double r=(double[]){0.003,0.01,0.03,0.1,0.3}[w_choose(5)]; int bud=1+w_choose(4);
        if (onfile){ int k[]={FK_DISK_RDERR,FK_DISK_WRERR,FK_DISK_FULL,FK_DISK_SYNCERR,FK_DISK_BUSY,FK_DISK_OPENERR}; for (int i=0;i<6;i++) if (w_choose(3)==0) f_enable(k[i],r,bud); }
        f_enable(FK_OOM,r/3,bud); }
    int nop=1+w_choose(8);
    for (int k=0;k<nop;k++){
        int kind=w_choose(23); char what[200]; uint64_t f0=f_fired_total()+disk_err_count(); int lock=0;
        if (onfile && w_choose(7)==0){ lock=1+w_choose(4); disk_other_lock("x.db",lock); } 
        if (onfile && w_choose(12)==0){ char *d; size_t l; disk_dump("x.db",&d,&l); disk_set_capacity((long)l+(long)w_choose(6)*700); }
        char *before=db_dump(ref);
        if (kind<5){ int tv=tabs[3]; char *q=dml(); snprintf(what,200,"query [%.120s]",q); sim_event("%s",what); faults(1); int rc=apop_query("%s",q); faults(0);
            if (!rc){ ref_exec(ref,q); char *a=db_dump(ref); state_is(what,0,(char*[]){a},1); } else { sim_probe("query_failed"); tabs[3]=tv; after_failure_in_tx(what); char *a=db_dump(ref); if (!intx) { char *n=db_dump(ref); (void)n; } state_is(what,1,(char*[]){a},1); if (!intx){ int t3=0; t3=strstr(a,"t3:")!=NULL; tabs[3]=t3; } }
            CK(!rc||f_fired_total()+disk_err_count()>f0||lock,"dbfail:spurious","%s reports failure although nothing failed: %.200s",what,note_buf?note_buf:""); }
        else if (kind==5||kind==6){ int n=2+w_choose(3); char *q[5]; sbuf b={0}; for (int i=0;i<n;i++){ q[i]=dml(); sb_mem(&b,q[i],strlen(q[i])); sb_add(&b,";%s",w_choose(2)?"\n":" "); } int badat=-1;
            if (w_choose(4)==0){ badat=n; sb_add(&b,"insert into no_such_table values(3);"); }
            snprintf(what,200,"%d statements [%.100s]",n,b.s); for (char*c=what;*c;c++) if (*c=='\n') *c=' '; sim_event("%s",what); faults(1); int rc=apop_query("%s",b.s); faults(0);
            CK(rc||badat<0,"dbfail:bad-sql","a sequence of statements with an invalid one at its end reports success");
            if (!rc) { for (int i=0;i<n;i++) ref_exec(ref,q[i]); char *a=db_dump(ref); state_is(what,0,(char*[]){a},1); }
            else { sim_probe("multi_query_failed"); int wasin=intx; if (intx&&sqlite3_get_autocommit(db)) after_failure_in_tx(what); else wasin=0;
                char *al[6]; int m=0; al[m++]=db_dump(ref); int hit=0; char *now=db_dump(db); CK(now,"dbfail:unusable","after a failure the database can't be read"); hit=!strcmp(now,al[0]);
                /* statements after a roll-back of the transaction do not run: exec stops at the first error */
                if (!wasin) for (int i=0;i<n&&!hit;i++){ ref_exec(ref,q[i]); al[0]=db_dump(ref); hit=!strcmp(now,al[0]); }
                CK(hit,"dbfail:after-failure","%s reported failure, and the database holds no state in between: %s",what,first_diff(now,al[0])); }
            char *a=db_dump(ref); tabs[3]=strstr(a,"t3:")!=NULL; free(a); }
        else if (kind==7){ const char *q= intx? (w_choose(3)?"commit":"rollback"):(w_choose(2)?"begin":"begin immediate"); snprintf(what,200,"%s",q); sim_event("%s",what); faults(1); int rc=apop_query("%s",q); faults(0);
            if (!rc){ ref_exec(ref,q); intx=!intx; char *a=db_dump(ref); state_is(what,0,(char*[]){a},1); tabs[3]=strstr(a,"t3:")!=NULL; free(a); } else { sim_probe("transaction_statement_failed"); after_failure_in_tx(what); char *a=db_dump(ref); state_is(what,1,(char*[]){a},1); tabs[3]=strstr(a,"t3:")!=NULL; free(a); } }
        else if (kind<17){ int nc,bad; char fk="mmttxvf"[w_choose(7)]; char *q=selectsql(&nc,fk=='m'||fk=='v'||fk=='f'); int hopeless=w_choose(12)==0; static char bq[500]; if (hopeless) snprintf(bq,500,w_choose(2)?"select nosuchcol from t0":"selecct 1"); else snprintf(bq,500,"%s",q);
            char types[8]=""; if (fk=='x'){ const char *pool="nvmmttw"; int used[128]={0}; for (int i=0;i<nc;i++){ char c; int tries=0; do c=pool[(w_choose(7)+tries)%7]; while (used[(int)c]&&strchr("nvw",c)&&++tries<7); used[(int)c]=1; types[i]=c; } types[nc]=0; if (w_choose(10)==0&&nc>1) types[nc-1]=0; else if (w_choose(12)==0) { types[nc]='m'; types[nc+1]=0; } }
            snprintf(what,200,"%s query %s[%.120s]",fk=='m'?"data":fk=='t'?"text":fk=='x'?"mixed":fk=='v'?"vector":"scalar",types,bq); sim_event("%s",what);
            apop_data *want=expect(fk=='m'||fk=='v'||fk=='f'?'m':fk,types[0]&&strlen(types)!=nc?"mmmmmm":types,bq,&bad); int misfit=fk=='x'&&(int)strlen(types)!=nc&&want;
            int badmode=bad; faults(1); apop_data *d=NULL; gsl_vector *v=NULL; double x=0; int style=w_choose(2)||strchr(bq,'%');
            if (fk=='m') d=style?apop_query_to_data("%s",bq):apop_query_to_data(bq); else if (fk=='t') d=style?apop_query_to_text("%s",bq):apop_query_to_text(bq); else if (fk=='x') d=apop_query_to_mixed_data(types,"%s",bq); else if (fk=='v') v=apop_query_to_vector("%s",bq); else x=apop_query_to_float("%s",bq); faults(0);
            int failed=f_fired_total()+disk_err_count()>f0||lock; if (failed) sim_nontrivial();
            if (strchr("mtx",fk)){
                if (d&&d->error) { sim_probe("select_marked"); CK(failed||badmode||misfit,"dbfail:spurious","%s is marked as failed ('%c') although nothing failed: %.200s",what,d->error,note_buf?note_buf:""); }
                else { CK(!badmode,"dbfail:bad-sql","%s gives %s without an error mark",what,d?"a data set":"nothing"); CK(!misfit,"dbfail:misfit","%s gives %s without an error mark, although the types don't fit the columns",what,d?"a data set":"nothing");
                    const char *r=data_diff(d,want,2); CK(!r,"dbfail:wrong","%s gives an unmarked result that differs from the database (%s): %s",what,failed?"a failure was injected":"no failure",r); } }
            else if (fk=='v'){ int none=badmode||!want||!want->matrix; 
                if (none) CK(!v,"dbfail:bad-sql","%s has no answer but gives a vector",what);
                else if (v){ gsl_vector *c=gsl_vector_alloc(want->matrix->size1); gsl_matrix_get_col(c,want->matrix,0); const char *r=vec_diff(v,c); CK(!r,"dbfail:wrong","%s gives a vector that differs from the database: %s",what,r); }
                else CK(failed,"dbfail:spurious","%s gives NULL although nothing failed",what); }
            else { double w= badmode||!want||!want->matrix?NAN:gsl_matrix_get(want->matrix,0,0); CK(same_d(x,w)||(isnan(x)&&failed),"dbfail:wrong","%s gives %g instead of %g",what,x,w); }
            if (d){ sim_state(data_hash(d)); apop_data_free(d); } if (v) gsl_vector_free(v); (void)marks;
            after_failure_in_tx(what); char *a=db_dump(ref); state_is(what,0,(char*[]){a},1); free(a); }
        else if (kind==17){ int t=w_choose(4),del=w_choose(2); const char *n=w_choose(5)?tn[t]:"no_such"; int is= n!=tn[t]?0: t<3?1:tabs[3]; snprintf(what,200,"table_exists(%s,%c)",n,del?'d':'n'); sim_event("%s",what);
            if (del&&t<3&&n==tn[t]){ n="no_such"; is=0; } faults(1); int rc= del? apop_table_exists(n,'d') : apop_table_exists(n); faults(0);
            int failed=f_fired_total()+disk_err_count()>f0||lock; 
            if (rc==-1){ CK(failed,"dbfail:spurious","%s reports a processing error although nothing failed",what); sim_probe("exists_failed"); after_failure_in_tx(what); }
            else { CK(rc==is,"dbfail:wrong","%s gives %d, should be %d",what,rc,is); if (rc&&del){ ref_exec(ref,"drop table t3"); tabs[3]=0; } }
            char *a=db_dump(ref); state_is(what,rc==-1,(char*[]){a},1); tabs[3]=strstr(a,"t3:")!=NULL; free(a); }
        else if (kind==18){ /* aggregates against a direct computation */
            static const char *fn[]={"var","stddev","var_pop","stddev_pop","skew","kurt","var_samp","kurtosis","stddev_samp","std","variance"}; int f=w_choose(11); char w[60]; int cut=w_choose(45); snprintf(w,60,"a is not null and a<%d",cut); int t=w_choose(3);
            snprintf(what,200,"select %s(a) from %s where %s",fn[f],tn[t],w); sim_event("%s",what); char q[200]; snprintf(q,200,"select a from %s where %s",tn[t],w); int bad; apop_data *d=expect('m',"",q,&bad); faults(1); double x=apop_query_to_float("%s",what); faults(0);
            double want=NAN; int n=d&&d->matrix?d->matrix->size1:0; if (n==1) want=0; if (n>1){ long double m=0,s2=0,s3=0,s4=0; for (int i=0;i<n;i++) m+=gsl_matrix_get(d->matrix,i,0); m/=n; for (int i=0;i<n;i++){ long double z=gsl_matrix_get(d->matrix,i,0)-m; s2+=z*z; s3+=z*z*z; s4+=z*z*z*z; }
                if (!strcmp(fn[f],"var")||!strcmp(fn[f],"var_samp")) want=s2/(n-1); else if (!strcmp(fn[f],"var_pop")||!strcmp(fn[f],"variance")) want=s2/n; else if (!strcmp(fn[f],"stddev")||!strcmp(fn[f],"stddev_samp")) want=sqrtl(s2/(n-1)); else if (!strcmp(fn[f],"stddev_pop")||!strcmp(fn[f],"std")) want=sqrtl(s2/n);
                else if (f==4) want= n>2? s3*n/((n-1.L)*(n-2)) : x; else { long double k=s4/n, v=s2/n; long double c0=(long double)n*n/((long double)n*n*n*((long double)n*n-3*n+3)); want=c0*((n*(n-1.L)*(n-1)+(6*n-9))*k+n*(6.L*n-9)*v*v); } }
            int failed=f_fired_total()+disk_err_count()>f0||lock; CK((isnan(x)&&failed)||same_d(x,want)||fabs(x-want)<=1e-7*(1+fabs(want))+ (n>1?1e-6:0)|| (isnan(x)&&fabs(want)<1e-6),"dbfail:aggregate","%s over %d rows gives %.12g instead of %.12g",what,n,x,want);
            after_failure_in_tx(what); }
        else if (kind==20){ /* an engine that is not compiled in: every use is a failure, and has to say so */
            static const char *un[]={"apop_query","apop_query_to_data","apop_query_to_text","apop_query_to_mixed_data","apop_query_to_vector","apop_query_to_float","apop_table_exists","apop_data_to_db","apop_db_open","apop_db_close","apop_text_to_db","apop_db_to_crosstab"}; int f=w_choose(12); snprintf(what,200,"%s for an engine that is not there",un[f]); sim_event("%s",what);
            faults(0); char eng=apop_opts.db_engine; apop_opts.db_engine='m'; apop_data *d=NULL; gsl_vector *v=NULL; int ok=0;
            switch (f){ case 0: ok=!apop_query("delete from t0"); break; case 1: d=apop_query_to_data("select a from t0"); ok=!d||!d->error; break; case 2: d=apop_query_to_text("select a from t0"); ok=!d||!d->error; break; case 3: d=apop_query_to_mixed_data("mm","select a, b from t0"); ok=!d||!d->error; break;
                case 4: v=apop_query_to_vector("select a from t0"); ok=v!=NULL; break; case 5: ok=!isnan(apop_query_to_float("select count(*) from t0")); break; case 6: ok=apop_table_exists("t0")!=-1; break; case 7: { apop_data *z=apop_data_alloc(2,2); ok=!apop_data_to_db(z,"t0",'a'); apop_data_free(z); break; } case 8: ok=!apop_db_open("y.db"); break; case 9: ok=!apop_db_close(); break;
                case 10: io_put("some.txt","1,2\n3,4\n",8); ok=apop_text_to_db("some.txt","t0",.has_col_names='n',.if_table_exists='a')>=0; break; default: d=apop_db_to_crosstab("t0","a","b"); ok=!d||!d->error; }
            apop_opts.db_engine=eng; CK(!ok,"dbfail:no-engine","%s reports success",what); if (d) apop_data_free(d); if (v) gsl_vector_free(v); char *a=db_dump(ref); state_is(what,1,(char*[]){a},1); free(a); }
        else if (kind==21||kind==22){ /* tables built from several queries: what comes back unmarked is what comes back when nothing fails */
            const char *t=tn[w_choose(3)], *g[]={"s","row_names","a","b"}; int g1=w_choose(3),g2=w_choose(4),two=w_choose(2); snprintf(what,200,kind==21?"anova of b in %s by %s%s%s":"crosstab of %s by %s and %s%s",t,g[g1],kind==22||two?g[g2]:"",kind==21&&two?" too":""); sim_event("%s",what); apop_data *d[2];
            faults(1); for (int i=0;i<2;i++){ d[i]= kind==22? (two?apop_db_to_crosstab((char*)t,(char*)g[g1],(char*)g[g2]):apop_db_to_crosstab((char*)t,(char*)g[g1],(char*)g[g2],"sum(b)")) : two?apop_anova((char*)t,"b",(char*)g[g1],(char*)g[g2]):apop_anova((char*)t,"b",(char*)g[g1]); if (!i){ faults(0); lock|=f_fired_total()+disk_err_count()>f0; after_failure_in_tx(what); } }
            if (d[0]&&d[0]->error) CK(lock||(d[1]&&d[1]->error),"dbfail:spurious","%s is marked as failed ('%c') although nothing failed",what,d[0]->error);
            else { if (!d[1]||!d[1]->error) { const char *r=data_diff(d[0],d[1],2); CK(!r||(!d[0]&&kind==21),"dbfail:wrong","%s gives an unmarked result that is not the one it gives when nothing fails: %s",what,r); } else CK(!d[0],"dbfail:wrong","%s gives an unmarked result although there is none",what); }
            for (int i=0;i<2;i++) if (d[i]) apop_data_free(d[i]); char *a=db_dump(ref); state_is(what,0,(char*[]){a},1); free(a); }
        else if (onfile&&!intx){ int vac=w_choose(2); snprintf(what,200,"close%s and reopen",vac?" with vacuum":""); sim_event("%s",what); faults(1); int rc= vac?apop_db_close('v'):apop_db_close(); int rc2=0; if (!db) rc2=apop_db_open("x.db"); 
            int failed=f_fired_total()+disk_err_count()>f0||lock; CK((!rc&&!rc2)||failed,"dbfail:spurious","%s fails although nothing failed",what); if (rc2) { sim_probe("open_failed"); CK(!db,"dbfail:half-open","a failed open leaves a database handle behind"); } CK(rc2||db,"dbfail:open","the open reports success but there is no open database");
            faults(0); reopen(); if (vac&&!rc) CK(apop_query_to_float("pragma freelist_count")==0,"dbfail:vacuum","%s reports success, and the file still has free pages",what); char *a=db_dump(ref); state_is(what,rc||rc2,(char*[]){a},1); free(a); }
        free(before); faults(0);
        if (f_fired_total()+disk_err_count()>f0||lock) sim_nontrivial();
        CK(db,"dbfail:gone","after %s the connection is gone",what);
        double c=apop_query_to_float("select count(*) from t0"); int bad; apop_data *e=expect('m',"","select count(*) from t0",&bad); CK(same_d(c,gsl_matrix_get(e->matrix,0,0)),"dbfail:unusable","after %s, counting rows gives %g",what,c); apop_data_free(e);
    }
    if (intx){ CK(!apop_query("commit"),"dbfail:unusable","the transaction does not commit although nothing fails any more"); ref_exec(ref,"commit"); char *a=db_dump(ref); state_is("commit",0,(char*[]){a},1); }
    if (onfile){ CK(!apop_db_close(),"dbfail:close","the database does not close"); CK(!apop_db_open("x.db"),"dbfail:reopen","the database does not reopen"); char *a=db_dump(ref); state_is("reopening at the end",0,(char*[]){a},1); }
    sim_describe("%s database, %d operations, %d faults",onfile?"file":"memory",nop,(int)f_fired_total());
}
