/* C12, C13: reading text into data sets and into database tables.  The text comes from a generator that knows which
fields are there; reads come in pieces, end early or fail; the disk under the database fails. */
#include "textgen.h"
static char *fname="in/some.dir/file.one.csv";
static int open_as_stdin;
static const char *the_file(void){ if (!open_as_stdin) return fname; stdin=sim_pipe(fname,"r"); return "-"; }
static double cellnum(const char *s){ char *e; double v=strtod(s,&e); return e==s?NAN:v; }
static int first_whole_line(const textgen *t,size_t n){ int k=0; while (k<t->rows&&t->lineend[k]<n) k++; return k; } // lines that end before byte n
/* the data set that the first k lines make */
static void check_rows(const textgen *t,const apop_data *d,int k,int exact,const char *what){
    int got=d->matrix?d->matrix->size1:0,cols=t->cols-t->hasrows;
    CK(exact?got==k:got==k||got==k+1,"text:rows","%s: %d rows, and the text has %d lines",what,got,k);
    CK(!k||!cols||(d->matrix&&d->matrix->size2==cols),"text:columns","%s: %zu columns, and the text has %d",what,d->matrix?d->matrix->size2:0,cols);
    if (t->hasrows) CK(d->names->rowct==got,"text:names","%s: %d row names for %d rows",what,d->names->rowct,got); else CK(!d->names->rowct,"text:names","%s: there are row names",what);
    for (int i=0;i<k;i++){
        if (t->hasrows) CK(!strcmp(d->names->row[i],t->cell[i][0]),"text:names","%s: row name %d is [%s] instead of [%s]",what,i,d->names->row[i],t->cell[i][0]);
        for (int j=0;j<cols;j++){ double a=gsl_matrix_get(d->matrix,i,j),b=cellnum(t->cell[i][j+t->hasrows]); CK(same_d(a,b),"text:cell","%s: cell (%d,%d), from [%s], is %.17g",what,i,j,t->cell[i][j+t->hasrows],a); } }
    if (t->names&&k){ CK(d->names->colct==t->names,"text:names","%s: %d column names instead of %d",what,d->names->colct,t->names); for (int j=0;j<t->names;j++) CK(!strcmp(d->names->col[j],t->name[j]),"text:names","%s: column name %d is [%s] instead of [%s]",what,j,d->names->col[j],t->name[j]); } }
static apop_data *read_it(const textgen *t){
    apop_opts.input_delimiters[0]=0; strcpy(apop_opts.input_delimiters,t->usedefault?t->delim:"|,\t");
    return t->usedefault? apop_text_to_data(the_file(),.has_row_names=t->hasrows?'y':'n',.has_col_names=t->hascols?'y':'n',.field_ends=t->fixed?t->ends:NULL)
                        : apop_text_to_data(the_file(),.has_row_names=t->hasrows,.has_col_names=t->hascols?'Y':'n',.field_ends=t->fixed?t->ends:NULL,.delimiters=t->delim); }
static void fuzz_text(sbuf *b){ int n=w_choose(60); sb_mem(b,"",0); for (int i=0;i<n;i++){ const char *p[]={"a","1","2.5",",",",","\n","\n","\"","\\","#"," ","\t","\r","|","\xff","é","-"}; int k=w_choose(18); if (k==17) sb_mem(b,"\0",1); else sb_mem(b,p[k],strlen(p[k])); } }
void scen_text2data(void){
    quiet(); apop_opts.verbose=(int[]){0,1,2,-1}[w_choose(4)]; sim_sched_on=0; f_suspended=1; mem_fill_pattern(w_choose(2)?0x3f:0xc1); sim_on_hang("text:hang"); sim_work_limit(40000000); apop_opts.nan_string="NaN";
    if (w_choose(6)==0){ // any bytes at all: the answer may not depend on how they arrive, or on where the text stops other than by its contents
        sbuf b={0}; fuzz_text(&b); textgen t={.overlong=-1}; t.hascols=w_choose(2); t.hasrows=w_choose(2); t.fixed=w_choose(4)==0; for (int i=0;i<14;i++) t.ends[i]=i<6?(i+1)*3:0; strcpy(t.delim,(char*[]){",","|,\t"," ","\t "}[w_choose(4)]); io_put(fname,b.s,b.n);
        if (t.fixed) for (int i=0,col=0;i<b.n;i++){ col=b.s[i]=='\n'?0:col+1; if (col>18) sim_skip("line longer than the field ends given"); }
        apop_data *first=read_it(&t); io_read_chunk(2); apop_data *second=read_it(&t); io_read_chunk(0); CK(first&&second,"text:null","reading gives NULL"); const char *r=data_diff(first,second,1); CK(!r&&first->error==second->error,"text:chunks","reading byte by byte gives another data set: %s",r?r:"error mark");
        f_suspended=0; f_enable(FK_RD_SHORT,0.5,50); if (w_choose(2)) f_enable(FK_RD_TRUNC,0.1,1); if (w_choose(2)) f_enable(FK_RD_ERR,0.1,1); apop_data *third=read_it(&t); f_suspended=1;
        if (io_read_failed) CK(!third||third->error,"text:unmarked","a read error, and a data set without an error mark"); else if (!io_truncated){ r=data_diff(first,third,1); CK(!r,"text:chunks","short reads give another data set: %s",r); }
        if (first->matrix) for (int i=0;i<first->matrix->size1;i++) for (int j=0;j<first->matrix->size2;j++) sim_state(dbl_hash(gsl_matrix_get(first->matrix,i,j),i*31+j));
        apop_data_free(first); apop_data_free(second); if (third) apop_data_free(third); sim_nontrivial(); sim_describe("arbitrary bytes"); CK(!io_open_streams(),"text:streams","%d streams are left open",io_open_streams()); return; }
    textgen *t=text_gen(0); io_put(fname,t->text.s,t->text.n); open_as_stdin=w_choose(6)==0;
    int mode=w_choose(6); char what[100]; snprintf(what,100,"%s text, %d lines of %d fields, delimiters [%s]",t->fixed?"fixed-width":"delimited",t->rows,t->cols,t->delim); for (char*c=what;*c;c++) if (*c=='\t') *c='T';
    sim_event("%s mode %d",what,mode); int k=t->overlong>=0?t->overlong:t->rows;
    io_read_chunk(mode==1?2:0); f_suspended=0; size_t len=t->text.n;
    if (mode==2) f_enable(FK_RD_SHORT,0.6,100); if (mode==3) f_enable(FK_RD_ERR,0.5,1),f_enable(FK_RD_SHORT,0.5,3); if (mode==4) f_enable(FK_RD_TRUNC,0.6,1),f_enable(FK_RD_SHORT,0.5,3); if (mode==5) f_enable(FK_OPEN_FAIL,0.5,1);
    apop_data *d; uint64_t f0=f_fired(FK_OPEN_FAIL); int nofile=mode==5&&w_choose(3)==0; if (nofile) d=apop_text_to_data("no/such/file",.delimiters=","); else d=read_it(t); f_suspended=1;
    if (nofile||f_fired(FK_OPEN_FAIL)>f0){ CK(!d||d->error,"text:unmarked","a file that can't be opened gives a data set without an error mark"); sim_nontrivial(); sim_probe("open_failed"); if (d) apop_data_free(d); sim_describe("%s",what); CK(!io_open_streams(),"text:streams","streams are left open"); return; }
    if (io_read_failed){ sim_nontrivial(); sim_probe("read_failed"); CK(!d||d->error,"text:unmarked","%s: a read error, and a data set without an error mark",what); if (d&&d->matrix) CK(d->matrix->size1<=t->rows+1,"text:rows","%s: after a read error there are %zu rows",what,d->matrix->size1); if (d) apop_data_free(d); CK(!io_open_streams()||open_as_stdin,"text:streams","streams are left open after a failed read"); sim_describe("%s",what); 
        // the error is over: reading again must work
        open_as_stdin=0; io_read_chunk(0); d=read_it(t); check_rows(t,d,k,1,"reading again after a failed read"); return; }
    CK(d,"text:null","%s: reading gives NULL",what);
    if (io_truncated){ sim_nontrivial(); sim_probe("truncated"); // what was read is unknown here; find it by elimination: it is what the file cut at some byte gives
        int got=d->matrix?d->matrix->size1:0; CK(!d->error||t->overlong>=0,"text:marked","%s: a stream that ends early gives an error mark: %.300s",what,note_buf?note_buf:""); 
        CK(got<=k+1,"text:rows","%s: more rows (%d) than lines after the stream ended early",what,got);
        if (got>1) { textgen c=*t; c.rows=got-1; if (d->matrix->size2==t->cols-t->hasrows) check_rows(&c,d,got-1,0,what); else CK(got<=1,"text:columns","%s: %zu columns after the stream ended early",what,d->matrix->size2); }
        if (d->matrix&&got&&got<=t->rows&&d->matrix->size2<=(size_t)t->cols) for (int j=0;j<d->matrix->size2;j++) (void)gsl_matrix_get(d->matrix,got-1,j);
    } else {
        if (t->overlong>=0){ CK(d->error,"text:unmarked","%s: line %d has more fields than the first, and there is no error mark",what,t->overlong); sim_probe("overlong_line"); }
        else CK(!d->error,"text:marked","%s: there is an error mark '%c' although nothing failed: %.200s",what,d->error,note_buf?note_buf:"");
        check_rows(t,d,k,1,what); CK(!d->vector&&!d->weights&&!d->textsize[0],"text:parts","%s: there are parts other than the matrix",what); 
        if (!t->rows){ CK(!d->matrix||!d->matrix->size1,"text:rows","%s: rows from a text without data",what); sim_probe("no_data_lines"); }
        if (mode==1||mode==2||!t->rows) sim_nontrivial(); }
    if (!open_as_stdin) CK(!io_open_streams(),"text:streams","%s: %d streams are left open",what,io_open_streams());
    sim_state(data_hash(d)); apop_data_free(d); sim_nontrivial(); (void)len; (void)first_whole_line; sim_describe("%s",what); }

/* ---------------- C13 ---------------- */
static int is_null_cell(const char *s){ if (!*s||(apop_opts.nan_string&&!strcasecmp(s,apop_opts.nan_string))) return 1; char *e; double v=strtod(s,&e); return !*e&&isnan(v); }
/* SQLite's own conversion of numerals in SQL text may be off in the last place */
static int num_ok(double a,double b){ return same_d(a,b)||fabs(a-b)<=2e-15*fabs(b); }
static int cell_ok(sqlite3_stmt *s,int j,const char *want){
    if (is_null_cell(want)) return sqlite3_column_type(s,j)==SQLITE_NULL;
    if (sqlite3_column_type(s,j)==SQLITE_NULL) return 0;
    const char *x=(const char*)sqlite3_column_text(s,j); if (!strcmp(x,want)) return 1;
    char *e; double v=strtod(want,&e); if (!*e) return num_ok(sqlite3_column_double(s,j),v)||num_ok(atof(x),v);
    char *f; while (*e==' '||*e=='\t'||*e=='\n') e++; double u=strtod(x,&f); return !*e&&!*f&&u==v; } // a padded number, stored as the number
/* after a failure, a cell that could not be bound may be NULL: the failure is what was promised */
static int row_part_ok(sqlite3_stmt *s,const textgen *t,int i,int nc){ for (int j=0;j<nc;j++) if (sqlite3_column_type(s,j)!=SQLITE_NULL&&!cell_ok(s,j,j<t->cols?t->cell[i][j]:"")) return 0; return 1; }
static int row_ok(sqlite3_stmt *s,const textgen *t,int i,int nc){ for (int j=0;j<nc;j++) if (!cell_ok(s,j,j<t->cols?t->cell[i][j]:"")) return 0; return 1; }
static char *show_row(sqlite3_stmt *s,int nc){ static char b[400]; int n=0; for (int j=0;j<nc&&n<300;j++) n+=snprintf(b+n,400-n,"%s[%.40s]",j?",":"",sqlite3_column_type(s,j)==SQLITE_NULL?"NULL":(const char*)sqlite3_column_text(s,j)); return b; }
static int table_cols(const char *tab){ char q[200]; sqlite3_stmt *s; snprintf(q,200,"select * from '%s'",tab); if (sqlite3_prepare_v2(db,q,-1,&s,NULL)) return -1; int c=sqlite3_column_count(s); sqlite3_finalize(s); return c; }
/* the table holds `prior` rows of p, then the lines of t: all of them, or (part) some of them in order.  Returns NULL or what is wrong. */
static const char *table_is(const char *tab,const textgen *p,int prior,const textgen *t,int part){
    static char b[900]; char q[200]; sqlite3_stmt *s; snprintf(q,200,"select * from '%s' order by rowid",tab); if (sqlite3_prepare_v2(db,q,-1,&s,NULL)) { snprintf(b,900,"there is no table %s: %s",tab,sqlite3_errmsg(db)); return b; }
    int nc=sqlite3_column_count(s),n=0,at=0,rc; const char *bad=NULL;
    while (!bad&&(rc=sqlite3_step(s))==SQLITE_ROW){
        if (n<prior){ if (!row_ok(s,p,n,nc)){ snprintf(b,900,"row %d, there before, is now %s",n,show_row(s,nc)); bad=b; } }
        else if (part){ while (at<t->rows&&!row_part_ok(s,t,at,nc)) at++; if (at==t->rows){ snprintf(b,900,"row %d is no line of the text: %s",n,show_row(s,nc)); if (!io_read_failed||sqlite3_step(s)==SQLITE_ROW) bad=b; else break; } at++; }
        else if (at>=t->rows){ snprintf(b,900,"there are more rows than lines: %s",show_row(s,nc)); bad=b; }
        else { if (!row_ok(s,t,at,nc)){ int j=0; while (j<nc&&cell_ok(s,j,j<t->cols?t->cell[at][j]:"")) j++; snprintf(b,900,"line %d (field %d is [%.60s]) is stored as %s",at,j,t->cell[at][j],show_row(s,nc)); bad=b; } at++; }
        n++; }
    if (!bad&&n<prior){ snprintf(b,900,"of %d rows that were there, %d are left",prior,n); bad=b; }
    if (!bad&&!part&&at<t->rows){ snprintf(b,900,"of %d lines, %d are stored",t->rows,at); bad=b; }
    sqlite3_finalize(s); return bad; }
static int load(const textgen *t,const char *tab,char mode,apop_data *fp,char *tp,char **fields,int named){
    strcpy(apop_opts.input_delimiters,t->usedefault?t->delim:"|,\t"); const char *dl=t->usedefault?NULL:t->delim; const int *fe=t->fixed?t->ends:NULL; int hc=t->hascols?'y':'n',hr=t->hasrows?'y':'n';
    if (!named) return dl? apop_text_to_db(the_file(),.has_row_names=hr,.has_col_names=hc,.field_names=fields,.field_ends=fe,.field_params=fp,.table_params=tp,.delimiters=dl,.if_table_exists=mode) : apop_text_to_db(the_file(),.has_row_names=hr,.has_col_names=hc,.field_names=fields,.field_ends=fe,.field_params=fp,.table_params=tp,.if_table_exists=mode);
    return dl? apop_text_to_db(the_file(),(char*)tab,hr,hc,fields,fe,fp,tp,dl,mode) : apop_text_to_db(the_file(),.tabname=(char*)tab,.has_row_names=t->hasrows,.has_col_names=t->hascols?1:'N',.field_names=fields,.field_ends=fe,.field_params=fp,.table_params=tp,.if_table_exists=mode); }
#include <regex.h>
static int fits_first(const char *name){ regex_t r; if (regcomp(&r,"v0|^.1$",REG_EXTENDED|REG_ICASE)) return 0; int m=!regexec(&r,name,0,NULL,0); regfree(&r); return m; }
void scen_text2db(void){
    quiet(); apop_opts.verbose=(int[]){0,1,-1}[w_choose(3)]; sim_sched_on=0; f_suspended=1; disk_init(); disk_attach(); mem_fill_pattern(0x3f); sim_on_hang("text2db:hang"); sim_work_limit(80000000); setenv("APOP_DB_ENGINE","",1);
    apop_opts.db_engine=w_choose(2)?'s':0; apop_opts.nan_string=(char*[]){"NaN","abc","x",NULL}[w_choose(4)]; int onfile=w_choose(3)!=0; 
    if (onfile) CK(!apop_db_open("x.db"),"text2db:setup","the database did not open although nothing is wrong"); else if (w_choose(2)) apop_db_open(NULL);
    if (w_choose(8)==0){ // any bytes: as with data sets, how they arrive doesn't matter
        sbuf b={0}; fuzz_text(&b); textgen t={.overlong=-1}; t.hascols=w_choose(2); t.hasrows=w_choose(2); strcpy(t.delim,(char*[]){",","|,\t"," ","\t "}[w_choose(4)]); io_put(fname,b.s,b.n);
        int r1=load(&t,"one",'n',NULL,NULL,NULL,1); io_read_chunk(2); int r2=load(&t,"two",'n',NULL,NULL,NULL,1); io_read_chunk(0); int n1=-1,n2=-1,c; char *d1=db?q_dump(db,"select * from one",&n1,&c):NULL,*d2=db?q_dump(db,"select * from two",&n2,&c):NULL;
        CK(r1==r2&&(!d1)==(!d2)&&(!d1||!strcmp(d1,d2)),"text2db:chunks","reading byte by byte gives another table: %d and %d rows, %s",r1,r2,first_diff(d2,d1)); CK(r1==-1||r1==n1,"text2db:count","%d rows, and %d are reported",n1,r1); if (d1) sim_state(sim_hash(d1,strlen(d1),FNV0)); sim_nontrivial(); sim_describe("arbitrary bytes"); CK(!io_open_streams(),"text2db:streams","%d streams are left open",io_open_streams()); return; }
    textgen *t=text_gen(TG_DB|TG_WIDE); io_put(fname,t->text.s,t->text.n); int named=w_choose(4)!=0; open_as_stdin=named&&w_choose(8)==0; const char *tab=named?"tab":"file";
    char what[140]; snprintf(what,140,"%s text, %d lines of %d fields, delimiters [%s]",t->fixed?"fixed-width":"delimited",t->rows,t->cols,t->delim); for (char*c=what;*c;c++) if (*c=='\t') *c='T'; 
    apop_data *fp=NULL; if (w_choose(3)==0){ fp=apop_text_alloc(NULL,2,2); apop_text_set(fp,0,0,"%s","v0|^.1$"); apop_text_set(fp,0,1,"%s",w_choose(2)?"text":"real"); apop_text_set(fp,1,0,"%s",".*"); apop_text_set(fp,1,1,"%s",(char*[]){"numeric","text",""}[w_choose(3)]); } char *tp=w_choose(5)==0?"check (1=1)":NULL;
    char **fields=NULL; char fb[30][12]; char *fl[30]; if (!t->hascols&&t->cols<30&&w_choose(3)==0){ for (int j=0;j<t->cols;j++){ sprintf(fb[j],"f%d",j); fl[j]=fb[j]; } fields=fl; }
    int prior=0,mode='n'; sim_event("%s",what);
    if (t->rows&&t->overlong<0&&w_choose(2)){ int sv=open_as_stdin; open_as_stdin=0; int rc=load(t,tab,w_choose(2)?'n':'a',fp,tp,fields,named); open_as_stdin=sv; CK(rc==t->rows,"text2db:count","%s: %d is reported although nothing failed: %.200s",what,rc,note_buf?note_buf:""); const char *r=table_is(tab,NULL,0,t,0); CK(!r,"text2db:stored","%s: %s",what,r); prior=t->rows; mode="ndoa"[w_choose(4)];
        /* column names */ char q[100]; sqlite3_stmt *s; snprintf(q,100,"select * from %s",tab); sqlite3_prepare_v2(db,q,-1,&s,NULL); CK(sqlite3_column_count(s)==t->cols,"text2db:columns","%s: the table has %d columns",what,sqlite3_column_count(s)); for (int j=0;j<t->cols;j++){ char e[80]; int k=j-t->hasrows; if (k<0) strcpy(e,"row_names"); else if (t->hascols) snprintf(e,80,"%s",t->name[k]); else if (fields) strcpy(e,fl[k]); else sprintf(e,"col_%d",k); CK(!strcmp(e,sqlite3_column_name(s,j)),"text2db:columns","%s: column %d is named [%s] instead of [%s]",what,j,sqlite3_column_name(s,j),e);
            if (k>=0&&!strchr(e,'\n')){ const char *want="numeric",*got=sqlite3_column_decltype(s,j); if (fp){ want= fits_first(e)?fp->text[0][1]:fp->text[1][1]; } CK(!strcasecmp(got?got:"",want),"text2db:types","%s: column %d (%s) is declared as [%s] instead of [%s]",what,j,e,got?got:"",want); } } sqlite3_finalize(s); }
    int how=w_choose(8); int lock=0,intx=0; if (db&&w_choose(5)==0) intx=!apop_query("begin");
    io_read_chunk(how==1?2:0);
    if (how==2) f_enable(FK_RD_SHORT,0.6,100); if (how==3) f_enable(FK_RD_ERR,0.5,1),f_enable(FK_RD_SHORT,0.5,3); if (how==4) f_enable(FK_RD_TRUNC,0.6,1),f_enable(FK_RD_SHORT,0.5,3); if (how==5) f_enable(FK_OPEN_FAIL,0.5,1);
    if (how>=6){ double r=(double[]){0.001,0.003,0.01,0.03,0.1}[w_choose(5)]; int bud=1+w_choose(3); if (onfile){ int k[]={FK_DISK_RDERR,FK_DISK_WRERR,FK_DISK_FULL,FK_DISK_SYNCERR,FK_DISK_BUSY}; for (int i=0;i<5;i++) if (w_choose(2)) f_enable(k[i],r,bud); if (w_choose(6)==0){ lock=1+w_choose(4); disk_other_lock("x.db",lock); } if (w_choose(5)==0){ char *x; size_t l; disk_dump("x.db",&x,&l); disk_set_capacity((long)l+(long)w_choose(6)*700); } } f_enable(FK_OOM,r/3,bud); disk_oom=w_choose(3)==0; }
    f_suspended=0; uint64_t f0=f_fired_total()+disk_err_count()-f_fired(FK_RD_SHORT); int rc=load(t,tab,mode,fp,tp,fields,named); f_suspended=1; disk_oom=0; disk_set_capacity(-1); if (onfile) disk_other_lock("x.db",0);
    int failed=f_fired_total()+disk_err_count()-f_fired(FK_RD_SHORT)>f0||lock; sim_event("mode %c how %d -> %d",mode,how,rc);
    CK(db||rc==-1,"text2db:gone","%d rows are reported without a database",rc); if (!db){ CK(failed||!t->rows,"text2db:spurious","no database"); sim_describe("%s",what); return; }
    if (!open_as_stdin) CK(!io_open_streams(),"text2db:streams","%s: %d streams are left open",what,io_open_streams());
    if (intx&&sqlite3_get_autocommit(db)) intx=0;
    if (f_fired(FK_OPEN_FAIL)||io_read_failed) CK(rc==-1,"text2db:unreported","%s: the file could not be read, and %d rows are reported",what,rc);
    if (prior&&mode=='n'){ CK(rc==-1,"text2db:exists","%s: the table is there already, and %d is returned",what,rc); const char *r=table_is(tab,t,prior,t,1); int only=0; char q[90]; snprintf(q,90,"select * from %s",tab); char *d=q_dump(db,q,&only,NULL); CK(d&&only==prior,"text2db:exists","%s: the table was to be left alone, and now has %d rows instead of %d",what,only,prior); (void)r; free(d); }
    else if (!t->rows){ CK(rc<=0,"text2db:count","%d rows from a text without data lines",rc); sim_probe("no_data_lines"); }
    else if (io_truncated){ sim_nontrivial(); sim_probe("truncated"); int n=0; char q[90]; snprintf(q,90,"select * from %s",tab); char *d=q_dump(db,q,&n,NULL); int base=mode=='a'?prior:0; 
        if (rc>=0){ CK(d&&n==base+rc,"text2db:count","%s: the stream ended early; %d rows are reported, and the table has %d more",what,rc,n-base); CK(rc<=t->rows,"text2db:count","%s: more rows than lines",what); if (rc>1&&table_cols(tab)==t->cols){ textgen c=*t; c.rows=rc-1; snprintf(q,90,"delete from %s where rowid=(select max(rowid) from %s)",tab,tab); sqlite3_exec(db,q,NULL,NULL,NULL); const char *r=table_is(tab,t,base,&c,0); CK(!r,"text2db:stored","%s: the stream ended early: %s",what,r); } } free(d); }
    else if (rc>=0){
        CK(t->overlong<0,"text2db:unreported","%s: line %d has more fields than the table, and %d rows are reported",what,t->overlong,rc);
        CK(rc==t->rows,"text2db:count","%s: %d rows are reported",what,rc); const char *r=table_is(tab,t,mode=='a'?prior:0,t,0); CK(!r,"text2db:stored","%s: success (%d rows) is reported%s: %s",what,rc,failed?" after a failure":"",r); if (failed) sim_nontrivial(); if (how<=2) sim_nontrivial(); if (intx&&w_choose(2)){ CK(!apop_query("rollback"),"text2db:unusable","rollback fails"); intx=0; if (prior){ r=table_is(tab,t,prior,&(textgen){.cols=t->cols},0); CK(!r,"text2db:stored","after a rollback: %s",r); } } }
    else { CK(failed||t->overlong>=0,"text2db:spurious","%s: failure is reported although nothing failed: %.300s",what,note_buf?note_buf:""); sim_probe(t->overlong>=0?"overlong_line":"load_failed"); sim_nontrivial();
        if (table_cols(tab)<0) CK(!prior||mode=='o',"text2db:lost","the table is gone");
        else { const char *r=prior&&mode!='a'?table_is(tab,t,0,t,1):table_is(tab,t,prior,t,1); if (r&&prior&&mode!='a') r=table_is(tab,t,prior,t,1); CK(!r,"text2db:after-failure","%s: after a reported failure, %s",what,r); } }
    if (intx) CK(!apop_query("commit"),"text2db:unusable","the transaction does not commit although nothing fails any more");
    // the database remains usable: load once more, in full
    io_read_chunk(0); open_as_stdin=0; if (t->rows&&t->overlong<0){ rc=load(t,tab,'o',fp,tp,fields,named); CK(rc==t->rows,"text2db:unusable","%s: afterwards, loading into a new table gives %d: %.200s",what,rc,note_buf?note_buf:""); const char *r=table_is(tab,NULL,0,t,0); CK(!r,"text2db:stored","%s: afterwards, %s",what,r); }
    if (onfile){ CK(!apop_db_close(),"text2db:close","the database does not close"); CK(!apop_db_open("x.db"),"text2db:reopen","the database does not reopen"); if (t->rows&&t->overlong<0){ const char *r=table_is(tab,NULL,0,t,0); CK(!r,"text2db:stored","%s: after closing and opening, %s",what,r); } }
    { char q[90]; snprintf(q,90,"select * from %s",tab); char *d=q_dump(db,q,NULL,NULL); if (d) sim_state(sim_hash(d,strlen(d),FNV0+mode)); } sim_describe("%s, mode %c",what,mode); }
