/* C09: a program that works with a database file through the library loses power (or is killed) at an arbitrary I/O
operation; what is on the disk afterwards is compared with a reference database that ran the same statements. */
#include "dbcommon.h"
#include <stdarg.h>
#define MAXOP 10
#define MAXSTEP 64
enum { Q_ONE, Q_MULTI, TX_COMMIT, TX_ROLLBACK, PRINT, LOAD, DROP, REOPEN, READ, Q_BIG, SCALAR, TX_PRINT, XTAB };
typedef struct { int kind, parts, how; char *sql[6]; apop_data *d; char tab[12], file[12]; char *step[MAXSTEP]; int nstep; } op;
static op ops[MAXOP]; static int nops, inmem;
static int *started,*done,*epoch_ops; static char *notice;
static int have[3];     // does t0,t1,t2 exist at this point of the program
static void step(op *o,char *sql){ if (o->nstep>=MAXSTEP) sim_error("too many steps"); o->step[o->nstep++]=sql; }
static char *fmt(const char *f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return strdup(b); }
static char *dml(void){ // one statement that changes an existing plain table, or creates it
    int t=w_choose(3); if (!have[t]){ have[t]=1; return fmt("create table t%d(a numeric, b numeric, s)",t); }
    switch (w_choose(6)){
        case 0: { sbuf b={0}; int k=1+w_choose(3); sb_add(&b,"insert into t%d values",t); for (int i=0;i<k;i++) sb_add(&b,"%s(%d,%g,'%s')",i?",":"",(int)w_choose(100),rand_num(0),rand_text(0)); return b.s; }
        case 1: return fmt("update t%d set a=a+1",t);
        case 2: return fmt("delete from t%d where a%%3=%d",t,(int)w_choose(3));
        case 3: return fmt("update t%d set s='%s' where a>%d",t,rand_text(0),(int)w_choose(100));
        case 4: return fmt("insert into t%d select a+1,b,s||'+' from t%d where a<%d",t,t,(int)w_choose(100));
        default: return fmt("insert into t%d values(%d,%g,'%s')",t,(int)w_choose(100),rand_num(0),rand_text(0)); } }
static void mkop(op *o){
    memset(o,0,sizeof *o); int k=w_choose(16);
    if (k<3){ o->kind=Q_ONE; o->sql[0]=dml(); step(o,o->sql[0]); }
    else if (k==3){ o->kind=Q_MULTI; o->parts=2+w_choose(3); for (int i=0;i<o->parts;i++){ o->sql[i]=dml(); step(o,o->sql[i]); } }
    else if (k==4||k==5){ int h[3]; memcpy(h,have,sizeof h); o->kind=k==4||w_chance(1,2)?TX_COMMIT:TX_ROLLBACK; o->parts=1+w_choose(4); sbuf b={0}; for (int i=0;i<o->parts;i++){ o->sql[i]=dml(); sb_add(&b,"%s; ",o->sql[i]); } if (o->kind==TX_COMMIT) step(o,b.s); else memcpy(have,h,sizeof h); }
    else if (k==6||k==7||k==8){ o->kind=k==8?TX_PRINT:PRINT; snprintf(o->tab,12,"d%d",(int)w_choose(2)); static int shape[2]; o->how=w_choose(2)?'a':'w'; // 'a' needs the same columns, so every set for d0 has two columns and d1 has a vector and text
        int rows=1+w_choose(5); int first=o->tab[1]=='0'; (void)shape; o->d= first? apop_data_alloc(rows,2):apop_data_alloc(rows); if (!first) apop_text_alloc(o->d,rows,1);
        sbuf all={0}; char *q=fmt("%s",""); if (o->how=='w') { q=fmt("drop table if exists %s",o->tab); if (k==8) sb_add(&all,"%s; ",q); else step(o,q); }
        q= first? fmt("create table if not exists %s(c0 numeric, c1 numeric)",o->tab):fmt("create table if not exists %s(vector numeric, tc0)",o->tab); if (k==8) sb_add(&all,"%s; ",q); else step(o,q);
        for (int i=0;i<rows;i++){ if (first){ double x=rand_num(0),y=rand_num(0); gsl_matrix_set(o->d->matrix,i,0,x); gsl_matrix_set(o->d->matrix,i,1,y); q=fmt("insert into %s values(%.17g,%.17g)",o->tab,x,y); }
            else { double x=rand_num(0); const char *t=rand_text(0); gsl_vector_set(o->d->vector,i,x); apop_text_set(o->d,i,0,"%s",t); q=fmt("insert into %s values(%.17g,'%s')",o->tab,x,t); }
            if (k==8) sb_add(&all,"%s; ",q); else step(o,q); }
        if (k==8) step(o,all.s); }
    else if (k==9||k==10){ o->kind=LOAD; snprintf(o->tab,12,"f%d",(int)w_choose(2)); o->how="ado"[w_choose(3)]; static int nf; snprintf(o->file,12,"in%d",nf++%20); int rows=1+w_choose(5); sbuf b={0}; sb_add(&b,"u,v,w\n");
        if (o->how=='o') step(o,fmt("drop table if exists %s",o->tab)); if (o->how=='d') step(o,fmt("create table if not exists %s(u numeric, v numeric, w numeric); delete from %s",o->tab,o->tab)); step(o,fmt("create table if not exists %s(u numeric, v numeric, w numeric)",o->tab));
        for (int i=0;i<rows;i++){ int a=w_choose(50); double v=rand_num(0); const char *t=rand_text(0); sb_add(&b,"%d,%g,%s\n",a,v,t); step(o,fmt("insert into %s values(%d,%g,'%s')",o->tab,a,v,t)); }
        io_put(o->file,b.s,b.n); }
    else if (k==11){ int t=w_choose(3); o->kind=DROP; snprintf(o->tab,12,"t%d",t); if (have[t]) step(o,fmt("drop table t%d",t)); have[t]=0; }
    else if (k==12){ o->kind=REOPEN; o->how=w_choose(3)==0?'v':'q'; }
    else if (k>=14){ static int nx; o->kind=XTAB; snprintf(o->tab,12,"x%d",nx++); int rows=1+w_choose(3),cols=w_choose(4),tc=cols?w_choose(3):1; step(o,fmt("create table %s(r character,c character,v numeric)",o->tab)); // the cells appear together
        o->d=cols?apop_data_alloc(rows,cols):apop_data_alloc(); if (tc) apop_text_alloc(o->d,rows,tc); sbuf b={0}; sb_add(&b,"%s"," ");
        for (int i=0;i<rows;i++) for (int j=0;j<cols;j++){ double x=rand_num(0); gsl_matrix_set(o->d->matrix,i,j,x); sb_add(&b,"insert into %s values('r%d','c%d',%.17g); ",o->tab,i,j,x); }
        for (int i=0;i<rows;i++) for (int j=0;j<tc;j++){ const char *t=rand_text(0); apop_text_set(o->d,i,j,"%s",t); sb_add(&b,"insert into %s values('r%d','t%d','%s'); ",o->tab,i,j,t); }
        step(o,b.s); }
    else { int t=w_choose(3); if (!have[t]||w_chance(1,2)){ o->kind=READ; } else { o->kind=Q_BIG; o->sql[0]=fmt("insert into t%d select a, b, hex(zeroblob(%d)) from t%d limit 12",t,100+(int)w_choose(700),t); step(o,o->sql[0]); } }
}
static const char *kname[]={"query","multi-query","transaction","rollback","print","load","drop","reopen","read","big insert","scalar","print in transaction","crosstab"};
static int first_op,last_op;
static void work(void *v){ (void)v;
    quiet(); apop_opts.verbose=-1; sim_sched_on=0; disk_attach(); apop_opts.db_engine='s'; apop_opts.db_name_column="row_names";
    CK(!apop_db_open("x.db"),"durable:error","the database file did not open although nothing failed");
    for (int i=first_op;i<last_op;i++){ op *o=&ops[i]; int r=0; *started=i+1; sim_event("op %d %s",i,kname[o->kind]);
        switch (o->kind){
            case Q_ONE: case Q_BIG: r=apop_query("%s",o->sql[0]); break;
            case Q_MULTI: { sbuf b={0}; for (int k=0;k<o->parts;k++) sb_add(&b,"%s; ",o->sql[k]); r=apop_query("%s",b.s); free(b.s); break; }
            case TX_COMMIT: case TX_ROLLBACK: r|=apop_query("begin"); for (int k=0;k<o->parts;k++) r|=apop_query("%s",o->sql[k]); r|=apop_query(o->kind==TX_COMMIT?"commit":"rollback"); break;
            case TX_PRINT: case PRINT: if (o->kind==TX_PRINT) r|=apop_query("begin;"); apop_data_print(o->d,.output_name=o->tab,.output_type='d',.output_append=o->how); if (o->kind==TX_PRINT) r|=apop_query("commit;"); break;
            case LOAD: r= apop_text_to_db(o->file,o->tab,.has_col_names='y',.if_table_exists=o->how)<0; break;
            case XTAB: apop_crosstab_to_db(o->d,o->tab,"r","c","v"); break;
            case DROP: r= apop_table_exists(o->tab,'d')<0; break;
            case REOPEN: if (o->how=='v') r=apop_db_close('v'); else r=apop_db_close(); r|=apop_db_open("x.db"); break;
            case READ: { apop_data *d=apop_query_to_text("select name from sqlite_master"); apop_data_free(d); apop_query_to_float("select count(*) from sqlite_master"); break; } }
        CK(!r,"durable:error","operation %d (%s) reports failure %d although nothing failed: %.300s",i,kname[o->kind],r,note_buf?note_buf:"");
        *done=i+1; }
}
static char *state; static int integ;
static void look(void *v){ (void)v; f_suspended=1; disk_attach(); sqlite3 *h=raw_open("x.db"); char *c=q_dump(h,"pragma integrity_check",NULL,NULL); 
    if (!c||!strstr(c,"'ok'")) { strcpy(state,"?"); return; }
    char *d=db_dump(h); if (!d||strlen(d)>900000){ strcpy(state,"?"); return; } strcpy(state,d); sqlite3_close(h); }
static void step_ref(sqlite3 *ref,const char *s){ ref_exec(ref,"begin"); ref_exec(ref,s); ref_exec(ref,"commit"); }
void scen_durable(void){
    sim_on_hang("durable:hang"); quiet();
    started=sim_shared(64); done=started+1; state=sim_shared(1<<20); (void)notice; (void)epoch_ops; (void)integ; (void)inmem;
    disk_init(); disk_attach();
    nops=1+w_choose(MAXOP-1); memset(have,0,sizeof have); for (int i=0;i<nops;i++) mkop(&ops[i]);
    sqlite3 *ref=ref_open(); int at=0, lossy, epochs=0;
    sim_describe("%d operations:",nops); for (int i=0;i<nops;i++) sim_describe(" %s",kname[ops[i].kind]);
    while (at<nops){
        first_op=at; last_op=nops; if (w_chance(1,3)) last_op=at+1+w_choose(nops-at);
        int crash=w_choose(8)!=0; uint32_t n= w_chance(1,2)?1+w_choose(40):1+w_choose(300); lossy=w_choose(4)!=0;
        if (crash) disk_crash_at(n);
        *started=*done=at; int died=sim_process(work,NULL); 
        if (died) { sim_nontrivial(); sim_describe(" | %s in operation %d (%s)",lossy?"power loss":"killed",*started-1,*started>*done?kname[ops[*started-1].kind]:"between"); }
        f_enable(FK_CRASH_LOST,0.35,60); f_enable(FK_CRASH_TORN,0.3,30); disk_restart(lossy); f_enable(FK_CRASH_LOST,0,0); f_enable(FK_CRASH_TORN,0,0);
        sim_process(look,NULL);
        CK(state[0]!='?',"durable:corrupt","after the %s the database does not read back cleanly",lossy?"power loss":"kill");
        for (;at<*done;at++) for (int k=0;k<ops[at].nstep;k++) step_ref(ref,ops[at].step[k]);
        char *want=db_dump(ref); int ok=!strcmp(want,state);
        char why[300]; snprintf(why,300,"%s",first_diff(state,want));
        if (!ok && *started>*done){ op *o=&ops[*started-1]; for (int k=0;k<o->nstep&&!ok;k++){ step_ref(ref,o->step[k]); free(want); want=db_dump(ref); ok=!strcmp(want,state); if (ok){ sim_probe("crash_inside_an_operation"); } } }
        free(want);
        CK(ok,"durable:contents","after %d operations reported as done and a %s%s%s, the database holds no state the program can explain: %s",*done,lossy?"power loss":"kill",*started>*done?" during a ":"",*started>*done?kname[ops[*started-1].kind]:"",why);
        sim_state(sim_hash(state,strlen(state),FNV0));
        if (*started>*done){ // the interrupted operation is not retried; tables that later operations expect may be missing, so stop unless it was complete
            break; }
        if (++epochs>3) break;
        at=*done;
    }
}
