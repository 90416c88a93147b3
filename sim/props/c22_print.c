/* C22: printing data sets to files, pipes and the screen.  Everything that is printed is parsed again, independently of
the library's reader, and compared with what was to be printed, in order; plain sets are also read back by the library. */
#include "dbcommon.h"
enum { T_A,T_B,T_PIPE,T_OUT,NTGT }; static const char *tgt[]={"a.txt","b.txt","p.txt","o.txt"};
typedef struct { int kind,num; double v; char *s; } fld;     // kind 0 blank, 1 number, 2 text
typedef struct { int loose,n; fld *f; char *raw; } lin;      // loose: only the nonblank fields count; raw: compared without white space
typedef struct { lin *l; int n,cap,dirty; } want_; static __thread want_ *W; static want_ wants[4][NTGT]; 
static lin *newline_(want_ *w,int loose){ if (w->n==w->cap){ w->cap=w->cap*2+20; w->l=realloc(w->l,w->cap*sizeof(lin)); } lin *l=&w->l[w->n++]; *l=(lin){.loose=loose,.f=calloc(48,sizeof(fld))}; return l; }
static void fnum(lin *l,double v){ l->f[l->n++]=(fld){.kind=1,.v=v}; } static void ftxt(lin *l,const char *s){ l->f[l->n++]=(fld){.kind=*s?2:0,.s=strdup(s)}; } static void fblank(lin *l){ l->f[l->n++]=(fld){0}; }
static int maxi(int a,int b){ return a>b?a:b; }
static int nrows(const apop_data *d){ int r=0; if (d->vector) r=maxi(r,d->vector->size); if (d->matrix) r=maxi(r,d->matrix->size1); if (d->weights) r=maxi(r,d->weights->size); r=maxi(r,d->textsize[0]); if (d->names) r=maxi(r,d->names->rowct); return r; }
static void want_page(want_ *w,const apop_data *d,int screen){
    lin *l; if (!d){ l=newline_(w,1); ftxt(l,"NULL"); return; }
    apop_name *n=d->names; if (n&&n->title&&*n->title){ l=newline_(w,1); ftxt(l,n->title); newline_(w,1); }
    if (n&&(n->vector||n->colct||n->textct)){ l=newline_(w,1); sbuf b={0}; sb_mem(&b,"",0); int apart= *apop_opts.output_delimiter!='\n'; // the headers: each one a field of its own
        #define HD(s) { if (strstr(s,apop_opts.output_delimiter)) apart=0; sb_add(&b,"%s",s); ftxt(l,s); }
        if (d->vector&&n->vector) HD(n->vector) if (d->matrix) for (int i=0;i<n->colct;i++) HD(n->col[i]) if (d->textsize[1]) for (int i=0;i<n->textct;i++) HD(n->text[i]) if (!apart) l->raw=b.s; else { free(b.s); if (!screen&&!strpbrk(apop_opts.output_delimiter," \t")) l->loose=2; } }
    int rows=nrows(d); for (int i=0;i<rows;i++){ l=newline_(w,screen);
        if (n&&n->rowct){ if (i<n->rowct) ftxt(l,n->row[i]); else fblank(l); }
        if (d->vector){ if (i<d->vector->size) fnum(l,gsl_vector_get(d->vector,i)); else fblank(l); if (d->matrix) l->f[l->n++]=(fld){.kind=3}; }
        if (d->matrix) for (int j=0;j<d->matrix->size2;j++) if (i<d->matrix->size1) fnum(l,gsl_matrix_get(d->matrix,i,j)); else fblank(l);
        for (int j=0;j<d->textsize[1];j++) if (i<d->textsize[0]) ftxt(l,d->text[i][j]); else fblank(l);
        if (d->weights&&i<d->weights->size) fnum(l,gsl_vector_get(d->weights,i)); } }
static void want_vec(want_ *w,const gsl_vector *v,int screen){ lin *l=newline_(w,screen); if (!v) ftxt(l,"NULL"); else if (!strcmp(apop_opts.output_delimiter,"\n")){ w->n--; for (size_t i=0;i<v->size;i++){ l=newline_(w,screen); fnum(l,gsl_vector_get(v,i)); } } else for (size_t i=0;i<v->size;i++) fnum(l,gsl_vector_get(v,i)); }
static void raw_num(sbuf *b,double v){ sb_add(b,"%g",v); }
static void want_show(want_ *w,const apop_data *d){ // apop_data_show
    lin *l; if (!d){ l=newline_(w,1); ftxt(l,"NULL"); return; } apop_name *n=d->names; if (n&&n->title&&*n->title){ l=newline_(w,1); ftxt(l,n->title); newline_(w,1); }
    if (n->vector||n->colct||n->textct){ sbuf b={0}; sb_mem(&b,"",0); if (d->vector&&n->vector) sb_add(&b,"%s",n->vector); if (d->matrix) for (int i=0;i<n->colct;i++) sb_add(&b,"%s",n->col[i]); if (d->textsize[1]) for (int i=0;i<n->textct;i++) sb_add(&b,"%s",n->text[i]); if (d->weights) sb_add(&b,"Weights"); newline_(w,1)->raw=b.s; }
    int rows=nrows(d); for (int i=0;i<rows;i++){ sbuf b={0}; sb_mem(&b,"",0); if (i<n->rowct) sb_add(&b,"%s",n->row[i]); if (d->vector&&i<d->vector->size) raw_num(&b,gsl_vector_get(d->vector,i)); if (d->matrix&&i<d->matrix->size1) for (int j=0;j<d->matrix->size2;j++) raw_num(&b,gsl_matrix_get(d->matrix,i,j)); if (i<d->textsize[0]) for (int j=0;j<d->textsize[1];j++) sb_add(&b,"%s",d->text[i][j]); if (d->weights&&i<d->weights->size) raw_num(&b,gsl_vector_get(d->weights,i)); newline_(w,1)->raw=b.s; }
    if (d->more){ newline_(w,1); want_show(w,d->more); } }
/* ---- parsing what is there */
static char *trim(char *s){ while (*s==' '||*s=='\t') s++; int n=strlen(s); while (n&&(s[n-1]==' '||s[n-1]=='\t')) s[--n]=0; return s; }
static void squeeze(char *s){ char *o=s; const char *d=apop_opts.output_delimiter; for (;*s;s++) if (!strchr(" \t|",*s)&&!strchr(d,*s)) *o++=*s; *o=0; }
static int fits(const fld *f,char *t){ t=trim(t); if (f->kind==0) return !*t; if (f->kind==2){ char *s=strdup(f->s); int r=!strcmp(t,trim(s)); free(s); return r; } char *e; double v=strtod(t,&e); if (*e||!*t) return 0; if (isnan(f->v)||isnan(v)) return isnan(f->v)&&isnan(v); if (isinf(f->v)||isinf(v)) return f->v==v; return fabs(v-f->v)<=5.001e-7+2e-16*fabs(f->v); }
static void vs(const fld *f,char *o,int n){ if (f->kind==1) snprintf(o,n,"%.9g",f->v); else snprintf(o,n,"%s",f->kind==2?f->s:""); }
static void check(const char *name,want_ *w,int finished){
    if (w->dirty) return; simfile *f=io_file(name,0); size_t n=f?f->len:0; char *all=malloc(n+1); memcpy(all,f?f->data:"",n); all[n]=0; char *p=all; const char *D=apop_opts.output_delimiter; size_t dl=strlen(D); char vn[100]; (void)finished;
    for (int i=0;i<w->n;i++){ lin *l=&w->l[i]; CK(p<all+n,"print:missing","%s: the text ends after %d of %d lines",name,i,w->n); char *e=strchr(p,'\n'); CK(e,"print:missing","%s: line %d has no end",name,i); *e=0; char *line=strdup(p); char *q=p; p=e+1;
        if (l->raw){ char *a=strdup(q),*b=strdup(l->raw); squeeze(a); squeeze(b); CK(!strcmp(a,b),"print:line","%s: line %d is [%.300s], and holds [%.300s] instead of [%.300s]",name,i,line,a,b); free(a); free(b); free(line); continue; }
        char *tok[200]; int nt=0; for (;;){ char *c=dl?strstr(q,D):NULL; if (l->loose&&strstr(q," | ")&&(!c||strstr(q," | ")<c)) { c=strstr(q," | "); *c=0; tok[nt++]=q; q=c+3; continue; } if (!c){ tok[nt++]=q; break; } *c=0; tok[nt++]=q; q=c+dl; if (nt>190) break; }
        if (l->loose==2){ int a=0; while (a<nt&&!*trim(tok[a])) a++; for (int b=a;b<nt;b++) CK(*trim(tok[b]),"print:field","%s: line %d is [%.300s]: an empty header has come in at %d",name,i,line,b); }
        int t=0; for (int k=0;k<l->n;k++){ fld *x=&l->f[k]; if (l->loose){ if (x->kind==0||x->kind==3) continue; while (t<nt&&!*trim(tok[t])) t++; } else if (x->kind==3){ if (t<nt&&!*trim(tok[t])) t++; continue; } vs(x,vn,100); CK(t<nt,"print:missing","%s: line %d is [%.300s]: field %d (%s) is missing",name,i,line,k,vn); CK(fits(x,tok[t]),"print:field","%s: line %d is [%.300s]: field %d is [%.60s] instead of [%s]",name,i,line,k,tok[t],vn); t++; }
        for (;t<nt;t++) CK(!*trim(tok[t])&&(l->loose||l->n<=1||1),"print:extra","%s: line %d is [%.300s]: there is more than was printed: [%.60s]",name,i,line,tok[t]); free(line); }
    CK(p>=all+n,"print:extra","%s: after the %d lines that were printed there is more: [%.200s]",name,w->n,p); free(all); }
/* ---- workload */
static const char *words[]={"abc","two words","x","it's","%s%d","\"quoted\"","#5","end","12abc","\xc3\xa9t\xc3\xa9","longer than all of the others are"};
static double num(void){ switch (w_choose(8)){ case 0: return (int)w_choose(2000)-1000; case 1: return w_unit(); case 2: return (w_unit()-0.5)*pow(10,(int)w_choose(12)); case 3: return w_choose(3)?NAN:w_choose(2)?INFINITY:-INFINITY; case 4: return (double)w_choose(100)*1e9; case 5: return ((int)w_choose(401)-200)/8.0; case 6: return -0.0000004*w_choose(4); default: return w_choose(10); } }
static apop_data *page(int last){
    apop_data *d=apop_data_alloc(); int rows=1+w_choose(w_choose(6)?5:40); int what=w_choose(16); if (!what) what=1+w_choose(15); int rag=w_choose(8)==0;
    #define R (rag&&w_choose(3)==0?1+(int)w_choose(rows+2):rows)
    if (w_choose(30)==0) what=0;
    if (what&1){ int c=1+w_choose(4); d->matrix=gsl_matrix_alloc(R,c); for (size_t i=0;i<d->matrix->size1*c;i++) d->matrix->data[i]=num(); if (w_choose(3)==0) for (int j=0,k=1+(w_choose(4)?c-1:w_choose(c));j<k;j++){ char b[50]; snprintf(b,50,"%s%d",words[w_choose(9)],j); apop_name_add(d->names,b,'c'); } }
    if (what&2){ d->vector=gsl_vector_alloc(R); for (size_t i=0;i<d->vector->size;i++) gsl_vector_set(d->vector,i,num()); if (w_choose(3)==0) apop_name_add(d->names,"vec",'v'); }
    if (what&4){ int c=1+w_choose(3),r=R; apop_text_alloc(d,r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) apop_text_set(d,i,j,"%s",w_choose(8)?words[w_choose(11)]:""); if (w_choose(3)==0) for (int j=0;j<c;j++){ char b[50]; snprintf(b,50,"t%d",j); apop_name_add(d->names,b,'t'); } }
    if (what&8){ d->weights=gsl_vector_alloc(R); for (size_t i=0;i<d->weights->size;i++) gsl_vector_set(d->weights,i,num()); }
    if (what&&w_choose(3)==0) for (int i=0,k=rag?1+w_choose(rows):rows;i<k;i++){ char b[80]; snprintf(b,80,"%s %d",words[w_choose(11)],i); apop_name_add(d->names,b,'r'); }
    if (w_choose(6)==0) apop_name_add(d->names,"A title of sorts",'h');
    if (!last){ d->more=page(w_choose(2)); if (!d->more->names->title) apop_name_add(d->more->names,"page",'h'); }
    return d; }
typedef struct { int kind,t,typ; char app; apop_data *d; int nul; } pop; static pop P[4][8]; static int np[4]; static FILE *pipes[4]; static int faulty; static char nm[4][NTGT][20];
static int hasmsg(size_t n0){ return note_len>n0||(note_buf&&strlen(note_buf)>n0); }
static size_t notes_(void){ extern FILE *stderr; fflush(NULL); return note_buf?strlen(note_buf):0; }
static int tabrows[2];
static void db_op(pop *o){ // the same functions with the database as their target: one table row per row
    char name[10]; int k=o->nul%2; snprintf(name,10,"tab%d",k); char app=o->app; apop_data *d=o->d; int what=0,rows=0;
    if (d->vector&&w_choose(2)) what=2,rows=d->vector->size; else if (d->matrix) what=1,rows=d->matrix->size1; else return;
    int had=apop_table_exists(name); sim_event("table %s: %d rows, %c%s",name,rows,app,had?", there is one":"");
    double w=NAN; int shape= what==2?1:d->matrix->size2; static int shapes[2]; if (!had) tabrows[k]=0; else if (app=='a'&&shapes[k]!=shape) return; 
    int pre= had&&app=='a'?tabrows[k]:0; if (what==2) apop_vector_print(d->vector,.output_name=name,.output_type='d',.output_append=app); else apop_matrix_print(d->matrix,.output_name=name,.output_type='d',.output_append=app);
    CK(apop_table_exists(name),"print:table","%d rows were printed to table %s, and there is no such table",rows,name); w=apop_query_to_float("select count(*) from %s",name); CK(w==pre+rows,"print:table","%d rows were printed to table %s after %d, and it has %g",rows,name,pre,w); tabrows[k]=pre+rows; shapes[k]=shape;
    apop_data *all=apop_query_to_data("select * from %s order by rowid",name); CK(all&&all->matrix&&(int)all->matrix->size2==shape,"print:table","table %s has not %d columns",name,shape);
    for (int i=0;i<rows;i++) for (int j=0;j<shape;j++){ double e= what==2?gsl_vector_get(d->vector,i):gsl_matrix_get(d->matrix,i,j),g=gsl_matrix_get(all->matrix,pre+i,j); CK(e==g||(isnan(e)&&isnan(g))||fabs(e-g)<=1e-14*fabs(e),"print:table","number (%d,%d) is %.17g and table %s has %.17g",i,j,e,name,g); } apop_data_free(all); sim_probe("printed_to_table"); }
static void do_op(int me,pop *o){
    if (o->kind==7){ db_op(o); return; }
    want_ *w=&wants[me][o->t]; const char *name=nm[me][o->t]; apop_data *d=o->nul?NULL:o->d; FILE *f= o->t==T_PIPE?pipes[me]:NULL; char typ=o->typ; int screen= o->t==T_OUT&&typ!='p'; char app=o->app;
    int file=o->t<=T_B; size_t n0=faulty?notes_():0; uint64_t of0=f_fired(FK_OPEN_FAIL); uint64_t we0=f_fired(FK_WR_ERR); int os0=io_open_streams(); sim_event("t%d %d to %s %c%c",me,o->kind,name,typ?typ:'-',app?app:'-');
    char *before=NULL; size_t bl=0; if (faulty&&file){ simfile *s=io_file(name,0); if (s&&s->exists){ bl=s->len; before=malloc(bl+1); memcpy(before,s->data,bl); } }
    switch (o->kind){
        case 0: if (file) apop_data_print(d,.output_name=name,.output_type=typ,.output_append=app); else if (f) apop_data_print(d,.output_pipe=f,.output_type=typ,.output_append=app); else if (typ) apop_data_print(d,.output_type=typ); else apop_data_print(d); break;
        case 1: { gsl_matrix *m=d?d->matrix:NULL; if (file) apop_matrix_print(m,.output_name=name,.output_type=typ,.output_append=app); else if (f) apop_matrix_print(m,.output_pipe=f,.output_type=typ,.output_append=app); else if (typ) apop_matrix_print(m,.output_type=typ); else apop_matrix_print(m); break; }
        case 2: { gsl_vector *v=d?d->vector:NULL; if (file) apop_vector_print(v,.output_name=name,.output_type=typ,.output_append=app); else if (f) apop_vector_print(v,.output_pipe=f,.output_type=typ,.output_append=app); else if (typ) apop_vector_print(v,.output_type=typ); else apop_vector_print(v); break; }
        case 3: if (f) fprintf(f,"mark %d\n",o->nul); else if (!file) printf("mark %d\n",o->nul); else { FILE *g=sim_pipe(name,app=='a'?"a":"w"); fprintf(g,"mark %d\n",o->nul); fclose(g); } break;
        case 4: apop_data_show(d); break; case 5: { void apop_matrix_show(const gsl_matrix*); if (d&&d->matrix) apop_matrix_show(d->matrix); break; } case 6: { void apop_vector_show(const gsl_vector*); apop_vector_show(d?d->vector:NULL); break; } }
    CK(io_open_streams()<=os0||!file||wants[1][0].l||np[1],"print:streams","%d streams are left open",io_open_streams()-os0);
    if (f_fired(FK_OPEN_FAIL)>of0){ sim_probe("open_failed"); CK(notes_()>n0,"print:unreported","the file did not open, and nothing is said"); simfile *s=io_file(name,0); CK((s&&s->exists)==!!before&&(!before||(s->len==bl&&!memcmp(s->data,before,bl))),"print:damaged","the file did not open, and its contents changed"); free(before); return; }
    free(before); if (file&&app!='a'){ w->n=0; w->dirty=0; }
    switch (o->kind){ case 0: for (const apop_data *q=d;;q=q->more){ want_page(w,q,screen); if (!q||!q->more) break; } break;
        case 1: want_page(w,d&&d->matrix?&(apop_data){.matrix=d->matrix}:NULL,screen); break; case 2: want_vec(w,d?d->vector:NULL,screen); break; case 3: { char b[40]; snprintf(b,40,"mark %d",o->nul); ftxt(newline_(w,1),b); break; }
        case 4: want_show(w,d); break; case 5: if (d&&d->matrix) want_page(w,&(apop_data){.matrix=d->matrix},1); break; case 6: want_vec(w,d?d->vector:NULL,1); break; }
    if (file&&faulty&&f_fired(FK_WR_ERR)){ if (f_fired(FK_WR_ERR)>we0){ w->dirty=1; sim_probe("write_failed"); CK(o->kind==3||notes_()>n0,"print:unreported","writing failed, and nothing is said"); } }
    if (file) check(name,w,1); }
static void body(int me,void *v){ (void)v; for (int k=0;k<np[me];k++) do_op(me,&P[me][k]); }
static void readback(apop_data *d){ // numeric grids, by the library's own reader
    if (!d||d->textsize[1]||(d->vector&&d->matrix)||(!d->vector&&!d->matrix&&!d->weights)||d->more||(d->names->title)||strlen(apop_opts.output_delimiter)!=1||strchr("\n",apop_opts.output_delimiter[0])) return; int rows=nrows(d); 
    int hn=d->names->rowct>0, hc=d->names->colct||d->names->vector||d->names->textct; if (d->names->rowct&&d->names->rowct<rows) return; if (d->matrix&&d->matrix->size1<rows) return; if (d->vector&&d->vector->size<rows) return; if (d->weights&&d->weights->size<rows) return; if (hc) return; 
    if (hn) for (int i=0;i<rows;i++) if (strpbrk(d->names->row[i],"\"#")) return;
    int c=(d->vector?1:0)+(d->matrix?d->matrix->size2:0)+!!d->weights; apop_data_print(d,.output_name="r.txt",.output_append='w'); apop_data *r=apop_text_to_data("r.txt",.has_row_names=hn?'y':'n',.has_col_names='n',.delimiters=apop_opts.output_delimiter);
    CK(r&&!r->error&&r->matrix&&(int)r->matrix->size1==rows&&(int)r->matrix->size2==c,"print:readback","%d x %d numbers print as text that reads back as %d x %d",rows,c,r&&r->matrix?(int)r->matrix->size1:0,r&&r->matrix?(int)r->matrix->size2:0);
    for (int i=0;i<rows;i++) for (int j=0;j<c;j++){ double e= d->vector&&j==0?gsl_vector_get(d->vector,i): d->matrix&&j<d->matrix->size2?gsl_matrix_get(d->matrix,i,j):gsl_vector_get(d->weights,i), g=gsl_matrix_get(r->matrix,i,j); CK((isnan(e)&&isnan(g))||e==g||fabs(e-g)<=5.001e-7+2e-16*fabs(e),"print:readback","number (%d,%d) is %.9g, prints, and reads back as %.9g",i,j,e,g); }
    if (hn) for (int i=0;i<rows;i++){ CK(i<r->names->rowct&&!strcmp(r->names->row[i],d->names->row[i]),"print:readback","row name %d is [%s], prints, and reads back as [%s]",i,d->names->row[i],i<r->names->rowct?r->names->row[i]:""); }
    sim_probe("read_back"); apop_data_free(r); }
void scen_print(void){
    quiet(); apop_opts.verbose=0; f_suspended=1; sim_sched_on=0; sim_on_hang("print:hang"); memset(wants,0,sizeof wants); memset(np,0,sizeof np);
    apop_opts.db_name_column=(char*[]){"row_names","head","",NULL}[w_choose(4)]; strcpy(apop_opts.output_delimiter,(char*[]){"\t",",","|",";",", "," | ","::","\n"}[w_choose(40)==0?7:w_choose(7)]);
    int nthr=w_choose(5)==0?2+w_choose(2):1; faulty=nthr==1&&w_choose(3)==0; int newl=!strcmp(apop_opts.output_delimiter,"\n"); int total=0,multi=0;
    for (int t=0;t<nthr;t++){ for (int g=0;g<NTGT;g++) snprintf(nm[t][g],20,"%d%s",t,tgt[g]); np[t]=1+w_choose(6); apop_data *prev=NULL;
        for (int k=0;k<np[t];k++,total++){ pop *o=&P[t][k]; memset(o,0,sizeof *o); o->t= faulty?w_choose(2):nthr>1?w_choose(3):w_choose(4); o->kind=w_choose(10)<6?0:1+w_choose(3); if (o->t==T_OUT&&w_choose(3)==0) o->kind=4+w_choose(3); if (newl) o->kind=2; if (nthr==1&&!faulty&&w_choose(8)==0) o->kind=7; o->typ=w_choose(3)?0: o->t<=T_B?'f':o->t==T_PIPE?'p':w_choose(2)?'p':'s'; o->app= w_choose(3)?'a':'w'; 
            o->d=prev&&w_choose(4)==0?prev:page(w_choose(3)!=0); prev=o->d; o->nul= o->kind==7?w_choose(2):w_choose(20)==0; if (o->d->more) multi=1; } 
        pipes[t]=sim_pipe(nm[t][T_PIPE],"w"); if (w_choose(2)) setvbuf(pipes[t],NULL,w_choose(2)?_IONBF:_IOLBF,0); }
    FILE *real=stdout; FILE *so=sim_pipe(nm[0][T_OUT],"w"); fflush(real); stdout=so;
    apop_data *keep[4][8]; for (int t=0;t<nthr;t++) for (int k=0;k<np[t];k++) keep[t][k]=deep_copy(P[t][k].d);
    if (faulty){ f_enable(FK_OPEN_FAIL,0.15,1+w_choose(2)); f_enable(FK_WR_ERR,0.1,1+w_choose(2)); f_suspended=0; }
    if (nthr>1){ sim_sched_on=1; sim_callers(nthr,body,NULL); sim_sched_on=0; } else body(0,NULL);
    f_suspended=1; stdout=real; fclose(so); for (int t=0;t<nthr;t++) fclose(pipes[t]);
    for (int t=0;t<nthr;t++) for (int g=0;g<NTGT;g++) if (g!=T_OUT||!t) check(nm[t][g],&wants[t][g],1);
    for (int t=0;t<nthr;t++) for (int k=0;k<np[t];k++){ const char *r=data_diff_pages(P[t][k].d,keep[t][k],1); CK(!r,"print:input","printing changed the data: %s",r); if (k<2&&!faulty) readback(P[t][k].d); }
    uint64_t h=FNV0; for (int t=0;t<nthr;t++) for (int k=0;k<np[t];k++) h=data_hash(P[t][k].d)^(h*31+P[t][k].kind*5+P[t][k].t); sim_state(h); if (total>1||multi||faulty) sim_nontrivial(); sim_describe("%d threads, %d prints%s, delimiter [%s]",nthr,total,faulty?", files fail":"",newl?"newline":apop_opts.output_delimiter[0]=='\t'?"tab":apop_opts.output_delimiter); }
