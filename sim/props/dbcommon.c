#define _GNU_SOURCE
#include "dbcommon.h"
#include <stdarg.h>
void sb_mem(sbuf *b,const void *p,size_t n){ if (b->n+n+1>b->cap){ b->cap=(b->n+n+1)*2+64; b->s=realloc(b->s,b->cap);} memcpy(b->s+b->n,p,n); b->n+=n; b->s[b->n]=0; }
void sb_add(sbuf *b,const char *f,...){ char t[4096]; va_list a; va_start(a,f); int n=vsnprintf(t,sizeof t,f,a); va_end(a); if (n>=(int)sizeof t) n=sizeof t-1; sb_mem(b,t,n); }
static void must(int rc,sqlite3 *h,const char *what){ if (rc!=SQLITE_OK&&rc!=SQLITE_DONE) sim_error("reference database: %s: %s",what,sqlite3_errmsg(h)); }
sqlite3 *ref_open(void){ sqlite3 *h; f_suspended++; must(sqlite3_open(":memory:",&h),h,"open"); f_suspended--; return h; }
sqlite3 *raw_open(const char *file){ sqlite3 *h; f_suspended++; int rc=sqlite3_open(file,&h); f_suspended--; if (rc) sim_error("cannot open %s",file); return h; }
int ref_exec(sqlite3 *h,const char *sql){ char *e=NULL; f_suspended++; int rc=sqlite3_exec(h,sql,NULL,NULL,&e); f_suspended--; if (rc) sim_error("reference database: %s: %s",sql,e?e:"?"); return rc; }
void ref_copy(sqlite3 *from,sqlite3 *to){ f_suspended++; sqlite3_backup *b=sqlite3_backup_init(to,"main",from,"main"); if (!b) sim_error("reference database: backup"); sqlite3_backup_step(b,-1); must(sqlite3_backup_finish(b),to,"backup"); f_suspended--; }
void sb_num(sbuf *b,double v){ if (isnan(v)) sb_add(b,"-"); else sb_add(b,"%.17g",v==0?0.0:v); }
void sb_cell(sbuf *b,sqlite3_stmt *s,int i){
    switch (sqlite3_column_type(s,i)){ case SQLITE_NULL: sb_add(b,"-"); break; case SQLITE_INTEGER: case SQLITE_FLOAT: sb_num(b,sqlite3_column_double(s,i)); break;
        default: sb_add(b,"'"); sb_mem(b,sqlite3_column_text(s,i),sqlite3_column_bytes(s,i)); sb_add(b,"'"); } }
char *q_dump(sqlite3 *h,const char *sql,int *rows,int *cols){
    sqlite3_stmt *s; sbuf b={0}; int rc,nr=0; f_suspended++;
    if (sqlite3_prepare_v2(h,sql,-1,&s,NULL)!=SQLITE_OK){ f_suspended--; return NULL; }
    int nc=sqlite3_column_count(s); for (int i=0;i<nc;i++) sb_add(&b,"%s%s",i?",":"[",sqlite3_column_name(s,i)); sb_add(&b,"]\n");
    while ((rc=sqlite3_step(s))==SQLITE_ROW){ nr++; for (int i=0;i<nc;i++){ if (i) sb_add(&b,","); sb_cell(&b,s,i);} sb_add(&b,"\n"); }
    sqlite3_finalize(s); f_suspended--; if (rc!=SQLITE_DONE){ free(b.s); return NULL; }
    if (rows)*rows=nr; if (cols)*cols=nc; return b.s; }
char *db_dump(sqlite3 *h){
    sbuf b={0}; sqlite3_stmt *s; int rc; f_suspended++; sb_mem(&b,"",0);
    if (sqlite3_prepare_v2(h,"select name from sqlite_master where type='table' order by name",-1,&s,NULL)!=SQLITE_OK){ f_suspended--; return NULL; }
    while ((rc=sqlite3_step(s))==SQLITE_ROW){ const char *n=(const char*)sqlite3_column_text(s,0); sb_add(&b,"%s:",n); char *q=sqlite3_mprintf("select * from \"%w\" order by rowid",n); char *d=q_dump(h,q,NULL,NULL); sqlite3_free(q); if (!d){ rc=1; break; } sb_mem(&b,d,strlen(d)); free(d); }
    sqlite3_finalize(s); f_suspended--; if (rc!=SQLITE_DONE){ free(b.s); return NULL; } return b.s; }
const char *first_diff(const char *a,const char *b){ static char r[300]; if (!a||!b){ snprintf(r,300,"%s vs %s",a?"contents":"nothing",b?"contents":"nothing"); return r; } size_t i=0; while (a[i]&&a[i]==b[i]) i++; size_t k=i>20?i-20:0; snprintf(r,300,"...%.60s... instead of ...%.60s...",a+k,b+k); for (char *c=r;*c;c++) if (*c=='\n') *c=';'; return r; }
char *sql_quote(const char *s){ sbuf b={0}; sb_add(&b,"'"); for (;*s;s++){ if (*s=='\'') sb_add(&b,"'"); sb_mem(&b,s,1); } sb_add(&b,"'"); return b.s; }
double rand_num(int wild){
    if (!wild) return ((int)w_choose(201)-100)/8.0;
    switch (w_choose(10)){ case 0: return 0; case 1: return NAN; case 2: return w_chance(1,2)?INFINITY:-INFINITY; case 3: return 1e300*w_unit(); case 4: return 1e-300*w_unit(); case 5: return w_unit()-0.5; case 6: return 123456789+w_unit(); case 7: return -(double)w_choose(1000000000); case 8: return 1e15+w_choose(1000); default: return ((int)w_choose(201)-100)/8.0; } }
const char *rand_text(int wild){
    static const char *t[]={"abc","x","two words","r2d2","Zed","plain","it_is","mid-dle"}; static const char *w[]={"it's","say \"hi\"","both ' and \"","comma, pipe|","semi;colon--","007","3.50","-1e3","\xc3\xa9\xe2\x82\xac","%s%n%d",".5","null","NULL","drop table t0","#hash","back\\slash","line\nbreak"," padded ","inf","0x10"};
    if (wild && w_chance(1,2)) return w[w_choose(20)]; return t[w_choose(8)]; }
apop_data *rand_set(int rows,int names,int wild){
    apop_data *d=apop_data_alloc(); int what=1+w_choose(7);
    if (what&1){ int c=1+w_choose(3); d->matrix=gsl_matrix_alloc(rows,c); for (int i=0;i<rows;i++) for (int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,rand_num(wild)); if (names&&w_chance(1,2)) for (int j=0;j<c;j++){ char n[20]; sprintf(n,"m%d",j); apop_name_add(d->names,n,'c'); } }
    if (what&2){ d->vector=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(d->vector,i,rand_num(wild)); if (names&&w_chance(1,2)) apop_name_add(d->names,"vec",'v'); }
    if (what&4){ int c=1+w_choose(2); apop_text_alloc(d,rows,c); for (int i=0;i<rows;i++) for (int j=0;j<c;j++) apop_text_set(d,i,j,"%s",rand_text(wild)); if (names&&w_chance(1,2)) for (int j=0;j<c;j++){ char n[20]; sprintf(n,"s%d",j); apop_name_add(d->names,n,'t'); } }
    if (w_chance(1,4)){ d->weights=gsl_vector_alloc(rows); for (int i=0;i<rows;i++) gsl_vector_set(d->weights,i,rand_num(0)); }
    if (names&&w_chance(1,3)) for (int i=0;i<rows;i++){ char n[20]; sprintf(n,"r%d",i); apop_name_add(d->names,n,'r'); }
    return d; }
