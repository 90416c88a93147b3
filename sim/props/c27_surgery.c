/* C27: histories of surgery on data sets (split, stack, sort, select, transpose, pack, pages, factors, ...) by one to three
threads, each with sets of its own; in some histories allocations fail, and the operation is repeated.  After every
operation the set is compared, cell by cell, with one that the harness put together from a list of rows and columns. */
#define _GNU_SOURCE
#include "common.h"
enum { MAXN=400 };
typedef struct { apop_data *d; const char *op; uint64_t h; int names; } world;
static world Wd[3]; static int faulty,nthr,nops;
#define FAIL(cls,...) sim_fail("cells:" cls,__VA_ARGS__)
#define OKAY(c,cls,...) CK(c,"cells:" cls,__VA_ARGS__)
static uint64_t f0;
static void on(void){ f0=f_fired(FK_OOM); if (faulty){ mem_oom_scope=1; f_suspended=0; } }
static int off(void){ if (faulty){ f_suspended=1; mem_oom_scope=0; } return f_fired(FK_OOM)>f0; }
#define CALL(h,stmt) do { on(); stmt; h=off(); } while(0)
/* ---- the harness' own selections */
static int height(const apop_data *d){ int n=d->vector?d->vector->size:0; if (d->matrix&&(int)d->matrix->size1>n) n=d->matrix->size1; if (d->weights&&(int)d->weights->size>n) n=d->weights->size; if ((int)d->textsize[0]>n) n=d->textsize[0]; return n; }
static int width(const apop_data *d){ return d->matrix?d->matrix->size2:0; }
static void addn(char ***l,int *ct,const char *s){ *l=realloc(*l,(*ct+1)*sizeof(char*)); (*l)[(*ct)++]=strdup(s); }
static void put_text(apop_data *e,int i,int j,const char *s){ free(e->text[i][j]); e->text[i][j]=strdup(s); }
static void text_grid(apop_data *e,int r,int c){ if (!r||!c) return; e->text=calloc(r,sizeof *e->text); for (int i=0;i<r;i++){ e->text[i]=calloc(c,sizeof **e->text); for (int j=0;j<c;j++) e->text[i][j]=strdup(""); } e->textsize[0]=r; e->textsize[1]=c; }
static apop_data *empty(void){ apop_data *e=apop_data_alloc(); OKAY(e&&!e->error,"harness","no memory"); return e; }
enum { TITLE=1, VNAME=2, TEXT=4, VECTOR=8, WEIGHTS=16, ROWN=32, ALL=63 };
/* rows r[0..nr) (NULL: all) and columns c[0..nc) (NULL: all) of the first page */
static apop_data *sub(const apop_data *in,const int *r,int nr,const int *c,int nc,int what){
    int all[MAXN],allc[MAXN]; if (!r){ nr=height(in); OKAY(nr<=MAXN,"harness","too high"); for (int i=0;i<nr;i++) all[i]=i; r=all; } if (!c){ nc=width(in); for (int i=0;i<nc;i++) allc[i]=i; c=allc; }
    apop_data *e=empty(); 
    if ((what&TITLE)&&in->names->title) e->names->title=strdup(in->names->title); if ((what&VNAME)&&in->names->vector) e->names->vector=strdup(in->names->vector);
    if (nr&&(what&VECTOR)&&in->vector){ e->vector=gsl_vector_alloc(nr); for (int i=0;i<nr;i++) gsl_vector_set(e->vector,i,gsl_vector_get(in->vector,r[i])); }
    if (nr&&(what&WEIGHTS)&&in->weights){ e->weights=gsl_vector_alloc(nr); for (int i=0;i<nr;i++) gsl_vector_set(e->weights,i,gsl_vector_get(in->weights,r[i])); }
    if (nr&&nc&&in->matrix){ e->matrix=gsl_matrix_alloc(nr,nc); for (int i=0;i<nr;i++) for (int j=0;j<nc;j++) gsl_matrix_set(e->matrix,i,j,gsl_matrix_get(in->matrix,r[i],c[j])); }
    if (nr&&(what&TEXT)&&in->textsize[0]){ text_grid(e,nr,in->textsize[1]); for (int i=0;i<nr;i++) for (int j=0;j<(int)in->textsize[1];j++) put_text(e,i,j,in->text[r[i]][j]); }
    if (what&TEXT) for (int j=0;j<in->names->textct;j++) addn(&e->names->text,&e->names->textct,in->names->text[j]);
    if (what&ROWN) for (int i=0;i<nr;i++) if (r[i]<in->names->rowct) addn(&e->names->row,&e->names->rowct,in->names->row[r[i]]);
    for (int j=0;j<nc;j++) if (c[j]<in->names->colct) addn(&e->names->col,&e->names->colct,in->names->col[c[j]]);
    return e; }
static apop_data *with_pages(apop_data *e,const apop_data *in){ e->more=deep_copy(in->more); return e; }
/* ---- random sets: cells repeat, so that sorting meets ties; every part has the same height */
static const char *words[]={"a","bb","B","BB","A","a longer word, with a comma","","x y","%d%s","b"};
static double cell(void){ return w_choose(3)? (double)w_choose(4) : w_choose(4000)/16.-50; }
static const char *colnames[]={"price","Price","size","siz","x","Row","","sum of x","PRICE","col"};
static apop_data *make(world *w,int n,int parts,int cols){
    apop_data *d=empty(); char b[60];
    if (parts&1){ d->vector=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->vector,i,cell()); }
    if (cols){ d->matrix=gsl_matrix_alloc(n,cols); for (int i=0;i<n;i++) for (int j=0;j<cols;j++) gsl_matrix_set(d->matrix,i,j,cell()); }
    if (parts&2){ d->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(d->weights,i,w_choose(5)/2.); }
    if (parts&4){ int c=1+w_choose(3); text_grid(d,n,c); for (int i=0;i<n;i++) for (int j=0;j<c;j++) put_text(d,i,j,words[w_choose(10)]); if (parts&8) for (int j=0;j<c;j++){ snprintf(b,60,"text %d",j); apop_name_add(d->names,b,'t'); } }
    if (parts&16) for (int i=0;i<n;i++){ snprintf(b,60,"%s%d",i%3?"row ":"R",w->names++); apop_name_add(d->names,w_choose(8)==7?"again":b,'r'); }
    if (parts&32) for (int j=0;j<cols;j++) apop_name_add(d->names,colnames[w_choose(10)],'c');
    if ((parts&64)&&(parts&1)) apop_name_add(d->names,"the vector",'v'); if (parts&128) apop_name_add(d->names,"a title",'h');
    return d; }
static apop_data *some(world *w){ int n=1+w_choose(6); if (w_choose(8)==7) n+=w_choose(30); int parts=w_choose(256),cols=w_choose(6); if (!cols&&!(parts&5)) cols=1;
    apop_data *d=make(w,n,parts,cols),*p=d; int k=w_choose(6); k=k>2?k-2:0; 
    for (int i=0;i<k;i++){ static const char *t[]={"second","<Info>","<Covariance>","Second","third page"}; p=p->more=make(w,1+w_choose(3),w_choose(64),1+w_choose(2)); p->names->title=strdup(t[w_choose(5)]); } return d; }
static void same(world *w,apop_data *got,apop_data *want){ OKAY(got||!want,"lost","%s gives nothing",w->op); const char *r=data_diff_pages(got,want,2); OKAY(!r,"differ","%s gives a set that is not what it should be: %s",w->op,r); for (apop_data *g=got;g;g=g->more) OKAY(!g->error,"marked","%s marks its result '%c'",w->op,g->error); apop_data_free(want); }
static int bad(apop_data *d){ return !d||d->error; }
static void replace(world *w,apop_data *d){ if (d!=w->d){ apop_data_free(w->d); w->d=d; } }
static int perm(int n,int *p){ for (int i=0;i<n;i++) p[i]=i; for (int i=0;i<n-1;i++){ int j=i+w_choose(n-i),t=p[i]; p[i]=p[j]; p[j]=t; } return n; }
/* ---- operations; was: a copy of the set before */
static void op_split(world *w,apop_data *was){
    int n=height(was),m=width(was); char by="rcRC"[w_choose(4)]; int byrow=by=='r'||by=='R'; if (!byrow&&!was->matrix){ by='r'; byrow=1; } int at=(int)w_choose((byrow?n:m)+4)-2; int rows[MAXN]; for (int i=0;i<MAXN;i++) rows[i]=i; apop_data *e[2]={NULL,NULL};
    w->op=byrow?"apop_data_split by rows":"apop_data_split by columns"; int whole=0;
    if (byrow){ if (at<=0) e[1]=deep_copy(was),whole=1; else if (at>=n) e[0]=deep_copy(was),whole=1; else { e[0]=sub(was,rows,at,NULL,0,ALL&~TITLE); e[1]=sub(was,rows+at,n-at,NULL,0,ALL&~TITLE); } }
    else { if (at<=-1) e[1]=deep_copy(was),whole=1; else if (at>=m) e[0]=deep_copy(was),whole=1; else { e[0]=sub(was,NULL,0,rows,at,WEIGHTS|VECTOR|ROWN|(was->vector?VNAME:0)); int cols[MAXN]; for (int j=at;j<m;j++) cols[j-at]=j; e[1]=sub(was,NULL,0,cols,m-at,WEIGHTS|ROWN); } }
    apop_data **o; int h; for (int t=0;t<2;t++){ if (t){ o=apop_data_split(w->d,at,by); h=0; } else CALL(h,o=apop_data_split(w->d,at,by)); if (h&&(!o||(o[0]&&o[0]->error)||(o[1]&&o[1]->error))){ if (o){ apop_data_free(o[0]); apop_data_free(o[1]); free(o); } continue; } break; }
    OKAY(o,"lost","%s gives NULL",w->op); for (int k=0;k<2;k++){ OKAY(!o[k]==!e[k],"differ","%s at %d of a %d x %d set: part %d is%s NULL",w->op,at,n,m,k,o[k]?" not":""); if (e[k]) same(w,o[k],e[k]); }
    same(w,w->d,deep_copy(was));
    if (!whole&&w_choose(2)){ w->op=byrow?"stacking what a split by rows gave":"stacking what a split by columns gave"; int inplace=w_choose(2); apop_data *s=apop_data_stack(o[0],o[1],byrow?'r':'c',.inplace=inplace?'y':'n'); apop_data *x=sub(was,NULL,0,NULL,0,byrow?ALL&~TITLE:WEIGHTS|VECTOR|ROWN|(was->vector?VNAME:0)); same(w,s,x); if (!inplace) apop_data_free(o[0]); apop_data_free(o[1]); free(o); replace(w,s); return; }
    apop_data_free(o[0]); apop_data_free(o[1]); free(o); }
static double textrank(const char *s){ return !*s||!strcasecmp(s,"NaN")?NAN:atof(s); }
typedef struct { double rank; int pos,kind,col; } key;
static int keycmp(const void *a,const void *b){ const key *x=a,*y=b; return x->rank<y->rank?-1:x->rank>y->rank?1:x->pos-y->pos; }
static int rowcmp(apop_data *d,key *k,int i,int j){ double a,b; switch(k->kind){ case 0: a=gsl_vector_get(d->vector,i); b=gsl_vector_get(d->vector,j); break; case 1: a=gsl_matrix_get(d->matrix,i,k->col); b=gsl_matrix_get(d->matrix,j,k->col); break; case 2: return strcasecmp(d->text[i][k->col],d->text[j][k->col]); case 3: a=gsl_vector_get(d->weights,i); b=gsl_vector_get(d->weights,j); break; default: return strcasecmp(d->names->row[i],d->names->row[j]); } return (a>b)-(a<b); }
static int samerow(apop_data *a,int i,apop_data *b,int j){ if (a->vector&&gsl_vector_get(a->vector,i)!=gsl_vector_get(b->vector,j)) return 0; if (a->weights&&gsl_vector_get(a->weights,i)!=gsl_vector_get(b->weights,j)) return 0; for (int c=0;c<width(a);c++) if (gsl_matrix_get(a->matrix,i,c)!=gsl_matrix_get(b->matrix,j,c)) return 0; for (int c=0;a->textsize[0]&&c<(int)a->textsize[1];c++) if (strcmp(a->text[i][c],b->text[j][c])) return 0; if (a->names->rowct&&strcmp(a->names->row[i],b->names->row[j])) return 0; return 1; }
static void op_sort(world *w,apop_data *was){
    int n=height(was); key k[40]; int nk=0,pos=0; apop_data *so=NULL; int ordered=w_choose(3)!=0; static const double ranks[]={1,2,3,1,-4.5,NAN,NAN}; static const char *tranks[]={"1","2","3","","NaN","1.5","nan"}; char asc="adAD"[w_choose(4)]; int desc=asc=='d'||asc=='D',inplace=w_choose(2);
    if (ordered){ so=empty(); if (was->vector&&w_choose(4)){ so->vector=gsl_vector_alloc(1); gsl_vector_set(so->vector,0,ranks[w_choose(7)]); } if (was->matrix&&w_choose(6)){ so->matrix=gsl_matrix_alloc(1,width(was)); for (int j=0;j<width(was);j++) gsl_matrix_set(so->matrix,0,j,ranks[w_choose(7)]); } if (was->weights&&w_choose(3)==0){ so->weights=gsl_vector_alloc(1); gsl_vector_set(so->weights,0,ranks[w_choose(7)]); } if (was->textsize[0]&&w_choose(4)){ text_grid(so,1,was->textsize[1]); for (int j=0;j<(int)was->textsize[1];j++) put_text(so,0,j,tranks[w_choose(7)]); } if (was->names->rowct&&w_choose(2)) apop_name_add(so->names,tranks[w_choose(7)],'r'); }
#define KEY(there,r,knd,c) do { if (there){ double r_=(r); if (!isnan(r_)){ k[nk].rank=r_; k[nk].pos=pos; k[nk].kind=knd; k[nk++].col=c; } pos++; } } while(0)
    apop_data *s=ordered?so:was; KEY(s->vector,ordered?gsl_vector_get(so->vector,0):0,0,0); for (int j=0;j<width(s);j++) KEY(1,ordered?gsl_matrix_get(so->matrix,0,j):0,1,j); for (int j=0;s->textsize[0]&&j<(int)s->textsize[1];j++) KEY(1,ordered?textrank(so->text[0][j]):0,2,j); KEY(s->weights,ordered?gsl_vector_get(so->weights,0):0,3,0); KEY(s->names->rowct,ordered?textrank(so->names->row[0]):0,4,0);
    qsort(k,nk,sizeof *k,keycmp); w->op=inplace?"apop_data_sort in place":"apop_data_sort";
    apop_data *o; int h; CALL(h,o=apop_data_sort(w->d,so,.asc=asc,.inplace=inplace?'y':'n')); if (h&&bad(o)){ if (inplace){ apop_data_free(w->d); w->d=deep_copy(was); } else apop_data_free(o); o=apop_data_sort(w->d,so,.asc=asc,.inplace=inplace?'y':'n'); }
    OKAY(o&&height(o)==n&&width(o)==width(was)&&!o->vector==!was->vector&&!o->weights==!was->weights&&o->textsize[0]==was->textsize[0]&&o->names->rowct==was->names->rowct,"differ","%s gives a set of another shape",w->op); OKAY((o==w->d)==inplace,"differ","%s: wrong place",w->op);
    int p[MAXN],used[MAXN]={0}; for (int i=0;i<n;i++){ p[i]=-1; for (int j=0;j<n;j++) if (!used[j]&&samerow(o,i,was,j)){ p[i]=j; used[j]=1; break; } OKAY(p[i]>=0,"row-lost","%s with %d keys: row %d of the result is not a row of the input",w->op,nk,i); }
    same(w,o,with_pages(sub(was,p,n,NULL,0,ALL),was));
    for (int i=1;i<n;i++){ int c=0,q; for (q=0;q<nk&&!c;q++) c=rowcmp(o,k+q,i-1,i); OKAY(desc?c>=0:c<=0,"unsorted","%s by %d keys, %s: row %d and %d are in the wrong order by key %d",w->op,nk,desc?"descending":"ascending",i-1,i,q-1); }
    if (!inplace) same(w,w->d,deep_copy(was)); apop_data_free(so); replace(w,o); }
static int drop_if(apop_data *one,void *p){ int *x=p; int k=x[0]; if (k==0) return one->vector&&gsl_vector_get(one->vector,0)==x[1]; if (k==1) return one->matrix&&gsl_matrix_get(one->matrix,0,0)==x[1]; if (k==2) return one->textsize[0]&&!strcmp(one->text[0][0],words[x[1]]); return one->weights&&gsl_vector_get(one->weights,0)==x[1]/2.; }
static int would_drop(apop_data *d,int i,int *x){ int k=x[0]; if (k==0) return d->vector&&gsl_vector_get(d->vector,i)==x[1]; if (k==1) return d->matrix&&gsl_matrix_get(d->matrix,i,0)==x[1]; if (k==2) return d->textsize[0]&&!strcmp(d->text[i][0],words[x[1]]); return d->weights&&gsl_vector_get(d->weights,i)==x[1]/2.; }
static void op_rm_rows(world *w,apop_data *was){
    int n=height(was),drop[MAXN]={0},how=w_choose(3),x[2]={w_choose(4),w_choose(4)},p[MAXN],k=0,rate=1+w_choose(3); if (how!=1) for (int i=0;i<n;i++) drop[i]=w_choose(4)<rate?2*w_choose(2)-1:0;
    for (int i=0;i<n;i++) if (!((how!=1&&drop[i])||(how!=0&&would_drop(was,i,x)))) p[k++]=i;
    w->op="apop_data_rm_rows"; apop_data *o; int h; CALL(h,o=apop_data_rm_rows(w->d,how!=1?drop:NULL,how!=0?drop_if:NULL,how!=0?x:NULL)); if (h&&bad(o)){ apop_data_free(w->d); w->d=deep_copy(was); o=apop_data_rm_rows(w->d,how!=1?drop:NULL,how!=0?drop_if:NULL,how!=0?x:NULL); }
    OKAY(o==w->d,"differ","%s gives another set",w->op); same(w,o,with_pages(sub(was,p,k,NULL,0,ALL),was)); if (!k) replace(w,deep_copy(was)); }
static void op_columns(world *w,apop_data *was){
    if (!was->matrix) return; int m=width(was),c[MAXN],k=0,all[MAXN]; for (int i=0;i<height(was);i++) all[i]=i;
    if (w_choose(2)||!was->names->colct){ int drop[MAXN]={0}; for (int j=0;j<m;j++){ drop[j]=w_choose(3)?0:1; if (!drop[j]) c[k++]=j; } w->op="apop_data_rm_columns"; int h; CALL(h,apop_data_rm_columns(w->d,drop)); if (h&&w->d->error){ w->d->error=0; apop_data_rm_columns(w->d,drop); } }
    else { char *list[8]; int used[8]={0},nl=1+w_choose(5); for (int i=0;i<nl;i++) list[i]=(char*)colnames[w_choose(10)]; list[nl]=NULL; for (int j=0;j<m&&j<was->names->colct;j++){ int keep=0; for (int i=0;i<nl&&!keep;i++) if (!used[i]&&!strcasecmp(list[i],was->names->col[j])) keep=used[i]=1; if (keep) c[k++]=j; } w->op="apop_data_prune_columns"; apop_data *o=apop_data_prune_columns_base(w->d,list); OKAY(o==w->d,"differ","%s gives another set",w->op); }
    apop_data *e=k?sub(was,NULL,0,c,k,ALL):NULL; if (!e){ gsl_matrix *t=was->matrix; was->matrix=NULL; int ct=was->names->colct; was->names->colct=0; e=sub(was,all,t->size1,c,0,ALL); was->matrix=t; was->names->colct=ct; }
    same(w,w->d,with_pages(e,was)); if (!k) replace(w,deep_copy(was)); }
static void op_transpose(world *w,apop_data *was){
    if (!was->matrix||was->names->textct||(int)was->matrix->size1>15) return; w->op="transposing twice"; apop_data *a,*b; int h; CALL(h,a=apop_data_transpose(w->d,.inplace='n')); if (h&&bad(a)){ apop_data_free(a); a=apop_data_transpose(w->d,.inplace='n'); }
    OKAY(a&&a->matrix&&(int)a->matrix->size1==width(was)&&a->matrix->size2==was->matrix->size1,"differ","transposing gives a set of another shape"); for (int i=0;i<(int)was->matrix->size1;i++) for (int j=0;j<width(was);j++) OKAY(gsl_matrix_get(a->matrix,j,i)==gsl_matrix_get(was->matrix,i,j),"differ","transposed cell %d,%d",j,i);
    CALL(h,b=apop_data_transpose(a,.inplace='n')); if (h&&bad(b)){ apop_data_free(b); b=apop_data_transpose(a,.inplace='n'); } same(w,w->d,deep_copy(was)); apop_data *e=sub(was,NULL,0,NULL,0,TEXT|ROWN); same(w,b,e); apop_data_free(a); if (w_choose(2)) replace(w,b); else apop_data_free(b); }
static int info(apop_data *d){ const char *t=d->names->title; int l=t?strlen(t):0; return l>1&&t[0]=='<'&&t[l-1]=='>'; }
static void scramble(apop_data *d){ if (d->vector) gsl_vector_set_all(d->vector,-1); if (d->weights) gsl_vector_set_all(d->weights,-1); if (d->matrix) gsl_matrix_set_all(d->matrix,-1); }
static void op_pack(world *w,apop_data *was){
    int inf=w_choose(2),given=w_choose(3)==0; double b[4000]; int n=0; for (apop_data *p=was;p;p=p->more){ if (p!=was&&!inf&&info(p)) continue; if (p->vector) for (size_t i=0;i<p->vector->size;i++) b[n++]=gsl_vector_get(p->vector,i); for (int i=0;i<(p->matrix?(int)p->matrix->size1:0);i++) for (int j=0;j<width(p);j++) b[n++]=gsl_matrix_get(p->matrix,i,j); if (p->weights) for (size_t i=0;i<p->weights->size;i++) b[n++]=gsl_vector_get(p->weights,i); OKAY(n<3500,"harness","too much"); }
    if (!n) return; w->op="apop_data_pack"; gsl_vector *v=given?gsl_vector_alloc(n):NULL,*o; int h; CALL(h,o=apop_data_pack(w->d,v,.use_info_pages=inf?'y':'n')); if (h&&!o) o=apop_data_pack(w->d,v,.use_info_pages=inf?'y':'n');
    OKAY(o&&(int)o->size==n&&(!v||o==v),"differ","%s gives %d numbers instead of %d",w->op,o?(int)o->size:0,n); for (int i=0;i<n;i++) OKAY(gsl_vector_get(o,i)==b[i],"differ","%s: number %d of %d is %g instead of %g",w->op,i,n,gsl_vector_get(o,i),b[i]); same(w,w->d,deep_copy(was));
    apop_data *to=deep_copy(was),*e=deep_copy(was); for (apop_data *p=to;p;p=p->more) scramble(p); for (apop_data *p=e;p;p=p->more) if (p!=e&&!inf&&info(p)) scramble(p); w->op="unpacking what was packed"; apop_data_unpack(o,to,.use_info_pages=inf?'y':'n'); same(w,to,e); apop_data_free(to); gsl_vector_free(o); }
static void op_rows(world *w,apop_data *was){
    int n=height(was),p[MAXN]; w->op="copies of rows, stacked"; perm(n,p); int k=1+w_choose(n); if (w_choose(2)) for (int i=0;i<k;i++) p[i]=w_choose(n); apop_data *view=Apop_r(w->d,p[0]),*o; o=apop_data_copy(view); 
    for (int i=1;i<k;i++){ apop_data *x=Apop_r(w->d,p[i]); int h; if (w_choose(2)){ apop_data *b; CALL(h,b=apop_data_stack(o,x,'r')); if (h&&bad(b)){ apop_data_free(b); b=apop_data_stack(o,x,'r'); } apop_data_free(o); o=b; } else apop_data_stack(o,x,'r',.inplace='y'); }
    same(w,o,sub(was,p,k,NULL,0,ALL)); same(w,w->d,deep_copy(was)); if (w_choose(2)) replace(w,o); else apop_data_free(o); }
static void op_listwise(world *w,apop_data *was){
    int n=height(was),nan[MAXN]={0},k=w_choose(4),p[MAXN],np=0,inplace=w_choose(2); if (!(was->vector||was->matrix||was->textsize[0])) return; if (w_choose(6)==5) k=n*3;
    for (int q=0;q<k;q++){ int i=w_choose(n),part=w_choose(4); nan[i]=1; apop_data *both[2]={w->d,was}; int c=w_choose(6); for (int z=0;z<2;z++){ apop_data *d=both[z]; if (part==0&&d->vector) gsl_vector_set(d->vector,i,NAN); else if (part==1&&d->weights) gsl_vector_set(d->weights,i,NAN); else if (part==2&&d->textsize[0]) put_text(d,i,c%d->textsize[1],c%2?"nan":"NaN"); else if (d->matrix) gsl_matrix_set(d->matrix,i,c%d->matrix->size2,NAN); else if (d->vector) gsl_vector_set(d->vector,i,NAN); else if (d->textsize[0]) put_text(d,i,c%d->textsize[1],"NaN"); } }
    for (int i=0;i<n;i++) if (!nan[i]) p[np++]=i; w->op=inplace?"apop_data_listwise_delete in place":"apop_data_listwise_delete"; apop_data *o; int h; CALL(h,o=apop_data_listwise_delete(w->d,.inplace=inplace?'y':'n'));
    if (h&&o&&o->error){ if (o!=w->d) apop_data_free(o); else { apop_data_free(w->d); w->d=deep_copy(was); } o=apop_data_listwise_delete(w->d,.inplace=inplace?'y':'n'); } else if (h&&!o&&np) o=apop_data_listwise_delete(w->d,.inplace=inplace?'y':'n');
    if (!np) OKAY(!o,"differ","%s gives a set although no row is complete",w->op); else same(w,o,with_pages(sub(was,p,np,NULL,0,ALL),was)); if (!inplace) same(w,w->d,deep_copy(was)); else if (!np) same(w,w->d,with_pages(sub(was,p,0,NULL,0,ALL),was)); else OKAY(o==w->d,"differ","%s gives another set",w->op);
    if (o) replace(w,o); else replace(w,some(w)); 
    // rows with a NaN are gone; sets that still have one are not used further
}
static void op_pages(world *w,apop_data *was){
    static const char *t[]={"<extra>","Second","second","SECOND","other"}; const char *name=t[w_choose(5)]; apop_data *pg=make(w,1+w_choose(3),w_choose(64),1+w_choose(2)),*e=deep_copy(was),*x=deep_copy(pg),*l=e; free(x->names->title); x->names->title=strdup(name); while (l->more) l=l->more; l->more=x;
    w->op="apop_data_add_page"; apop_data *o=apop_data_add_page(w->d,pg,name); OKAY(o==pg,"differ","%s gives another page",w->op); same(w,w->d,deep_copy(e));
    const char *q=t[w_choose(5)]; char how="cer"[w_choose(3)]; apop_data *g=apop_data_get_page(w->d,q,.match=how),*want=NULL,*a=w->d; for (apop_data *m=e;m&&!want;m=m->more,a=a->more) if (m->names->title&&(how=='e'?!strcmp(m->names->title,q):how=='c'?!strcasecmp(m->names->title,q):strcasestr(m->names->title,q)!=NULL)) want=a; OKAY(g==want,"page","apop_data_get_page(\"%s\", '%c') finds %s",q,how,g?g->names->title:"nothing");
    q=t[w_choose(5)]; int fr=w_choose(2); apop_data **pp=&e->more; while (*pp&&strcasecmp((*pp)->names->title,q)) pp=&(*pp)->more; apop_data *gone=*pp; if (gone){ *pp=gone->more; gone->more=NULL; } w->op="apop_data_rm_page"; apop_data *r=apop_data_rm_page(w->d,q,.free_p=fr?'y':'n'); OKAY(!r==(fr||!gone),"page","%s(\"%s\") gives %s",w->op,q,r?"a page":"NULL"); if (r){ same(w,r,deep_copy(gone)); apop_data_free(r); } apop_data_free(gone); same(w,w->d,e); }
/* the first of that name; -9 if another one, in other letters, comes before it */
static int first(char **l,int ct,const char *s){ for (int i=0;i<ct;i++) if (!strcasecmp(l[i],s)) return strcmp(l[i],s)?-9:i; return -1; }
static void op_cells(world *w,apop_data *was){
    apop_data *pg=was,*real=w->d; const char *title=NULL; if (was->more&&w_choose(2)){ pg=was->more; real=w->d->more; if (w_choose(2)&&pg->more){ pg=pg->more; real=real->more; } title=pg->names->title; for (apop_data *q=was,*r=w->d;q!=pg;q=q->more,r=r->more) if (q->names->title&&!strcasecmp(q->names->title,title)){ pg=q; real=r; break; } }
    int n=pg->matrix?(int)pg->matrix->size1:pg->vector?(int)pg->vector->size:0; if (!n) return; int i=w_choose(n),j=pg->matrix?(int)w_choose(width(pg)+(pg->vector?1:0))-(pg->vector?1:0):-1; const char *rn=NULL,*cn=NULL; int ri=i,ci=j; if (pg->names->rowct>i&&w_choose(2)){ rn=pg->names->row[i]; ri=first(pg->names->row,pg->names->rowct,rn); if (ri<0) rn=NULL,ri=i; } if (j>=0&&pg->names->colct>j&&w_choose(2)){ cn=pg->names->col[j]; ci=first(pg->names->col,pg->names->colct,cn); if (ci<0) cn=NULL,ci=j; }
    if (cn&&!*cn) cn=NULL,ci=j; if (j==-1&&pg->names->vector&&w_choose(2)&&first(pg->names->col,pg->names->colct,pg->names->vector)==-1) cn=pg->names->vector; w->op="a cell"; double v=cell(),was_v=ci<0?gsl_vector_get(pg->vector,ri):gsl_matrix_get(pg->matrix,ri,ci);
    double g=apop_data_get(w->d,.row=rn?0:i,.col=cn?0:j,.rowname=rn,.colname=cn,.page=title); OKAY(g==was_v,"cell","apop_data_get of row %d%s%s, column %d%s%s is %g instead of %g",i,rn?" by its name ":"",rn?rn:"",j,cn?" by its name ":"",cn?cn:"",g,was_v);
    double *p=apop_data_ptr(w->d,.row=rn?0:i,.col=cn?0:j,.rowname=rn,.colname=cn,.page=title); OKAY(p==(ci<0?gsl_vector_ptr(real->vector,ri):gsl_matrix_ptr(real->matrix,ri,ci)),"cell","apop_data_ptr points elsewhere");
    if (w_choose(2)) OKAY(!apop_data_set(w->d,.row=rn?0:i,.col=cn?0:j,.val=v,.rowname=rn,.colname=cn,.page=title),"cell","apop_data_set fails"); else *p=v; if (ci<0) gsl_vector_set(pg->vector,ri,v); else gsl_matrix_set(pg->matrix,ri,ci,v);
    OKAY(apop_data_set(w->d,.row=n,.col=j,.val=3,.page=title)==-1&&apop_data_set(w->d,.rowname="no such row",.col=j,.val=3,.page=title)==-1&&apop_data_set(w->d,.colname="no such column",.val=3,.page=title)==-1,"cell","apop_data_set outside of the set does not fail"); OKAY(isnan(apop_data_get(w->d,.rowname="no such row",.col=j,.page=title))&&isnan(apop_data_get(w->d,.colname="no such column",.page=title)),"cell","apop_data_get outside of the set is a number"); OKAY(!apop_data_ptr(w->d,.rowname="no such row",.col=j,.page=title)&&!apop_data_ptr(w->d,.colname="no such column",.page=title)&&!apop_data_ptr(w->d,.page="no such page"),"cell","apop_data_ptr outside of the set is not NULL"); if (!pg->vector) OKAY(apop_data_set(w->d,.col=-1,.val=3,.page=title)==-1&&isnan(apop_data_get(w->d,.col=-1,.page=title))&&!apop_data_ptr(w->d,.col=-1,.page=title),"cell","there is no vector, but it can be written or read"); if (!pg->matrix) OKAY(apop_data_set(w->d,.col=2,.val=3,.page=title)==-1&&isnan(apop_data_get(w->d,.col=2,.page=title)),"cell","there is no matrix, but it can be written or read"); OKAY(apop_data_set(w->d,.val=2,.page="no such page")==-1&&isnan(apop_data_get(w->d,.page="no such page")),"cell","there is no such page, but it can be written or read"); if (pg->matrix) OKAY(apop_data_set(w->d,.row=0,.col=width(pg),.val=3,.page=title)==-1,"cell","a column outside of the set can be written"); same(w,w->d,deep_copy(was)); }
static int sorted_unique(apop_data *u){ for (int i=1;i<(int)u->textsize[0];i++) if (strcmp(u->text[i-1][0],u->text[i][0])>=0) return 0; return 1; }
static void op_factors(world *w,apop_data *was){
    int t=was->textsize[0]&&w_choose(2); if (!t&&!was->matrix&&!was->vector) return; int n=height(was); int in= t?(int)w_choose(was->textsize[1]): !was->matrix?-1:(int)w_choose(width(was)+(was->vector?1:0))-(was->vector?1:0); 
    const char *base= t?(was->names->textct>in?was->names->text[in]:NULL):in<0?was->names->vector:was->names->colct>in?was->names->col[in]:NULL; char b[200],page[240]; if (base) snprintf(b,200,"%s",base); else if (t) snprintf(b,200,"text column %d",in); else if (in<0) snprintf(b,200,"vector"); else snprintf(b,200,"column %d",in); snprintf(page,240,"<categories for %s>",b); for (apop_data *q=was;q;q=q->more) if (q->names->title&&!strcmp(q->names->title,page)) return; // made before, for other values perhaps
    int dummies=w_choose(2);
    if (!dummies){ int out= was->matrix&&w_choose(3)?(int)w_choose(width(was)):w_choose(2)?-1:0; if (out>=width(was)) out=was->matrix?width(was)-1:w_choose(3); 
        w->op="apop_data_to_factors"; apop_data *f=apop_data_to_factors(w->d,t?'t':'d',in,out); OKAY(f&&!f->error,"lost","%s gives nothing",w->op); OKAY(f==apop_data_get_factor_names(w->d,in,t?'t':'d')||(!t&&in==out)||1,"factor","the factor names are not found"); apop_data *l=w->d; while (l->more) l=l->more; OKAY(l==f&&!strcmp(f->names->title,page),"factor","the list of factors is not the last page, '%s'",page);
        OKAY((int)f->vector->size==(int)f->textsize[0]&&f->textsize[1]==1&&(!t||sorted_unique(f)),"factor","the list of factors is not sorted, or has duplicates");
        if (out<0) OKAY(w->d->vector&&(int)w->d->vector->size==n,"factor","%s: the new vector has height %d instead of %d",w->op,w->d->vector?(int)w->d->vector->size:0,n); else OKAY(w->d->matrix&&(int)w->d->matrix->size1==n,"factor","%s: the new matrix has height %d instead of %d",w->op,w->d->matrix?(int)w->d->matrix->size1:0,n);
        apop_data *e=deep_copy(was); if (out<0&&!e->vector) e->vector=gsl_vector_alloc(n); if (out>=0&&!e->matrix) e->matrix=gsl_matrix_calloc(n,out+1);
        for (int i=0;i<n;i++){ double c= out<0?gsl_vector_get(w->d->vector,i):gsl_matrix_get(w->d->matrix,i,out); OKAY(c==(int)c&&c>=0&&c<(int)f->vector->size,"factor","%s: row %d has category %g of %d",w->op,i,c,(int)f->vector->size); int ok= t? !strcmp(f->text[(int)c][0],was->text[i][in]) && gsl_vector_get(f->vector,(int)c)==c : gsl_vector_get(f->vector,(int)c)==(in<0?gsl_vector_get(was->vector,i):gsl_matrix_get(was->matrix,i,in)); OKAY(ok,"factor","%s: category %g of row %d is another value than the row's",w->op,c,i); if (out<0) gsl_vector_set(e->vector,i,c); else gsl_matrix_set(e->matrix,i,out,c); }
        if (!t) for (int i=1;i<(int)f->vector->size;i++) OKAY(gsl_vector_get(f->vector,i-1)<gsl_vector_get(f->vector,i),"factor","the list of factors is not sorted");
        l=e; while (l->more) l=l->more; apop_data fv=*f; fv.more=NULL; l->more=deep_copy(&fv); same(w,w->d,e); return; }
    int keep=w_choose(2); char app="nyei"[w_choose(4)],rm=!t&&w_choose(2)?'y':'n'; w->op="apop_data_to_dummies"; apop_data *o=apop_data_to_dummies(w->d,in,t?'t':'d',keep?'y':'n',.append=app,.remove=rm); OKAY(o&&!o->error,"lost","%s gives nothing",w->op); OKAY((o==w->d)==(app!='n'),"differ","%s: wrong place",w->op);
    apop_data *f=w->d; while (f->more&&strcmp(f->names->title?f->names->title:"",page)) f=f->more; OKAY(f->names->title&&!strcmp(f->names->title,page),"factor","%s: there is no page '%s'",w->op,page); int k=f->vector->size,dc=k-!keep; apop_data fv=*f; fv.more=NULL; OKAY(k==(int)f->textsize[0],"factor","%s: names and values of the categories",w->op);
    // expected: the columns before, the dummies, the columns after
    apop_data *e=deep_copy(was),*l=e; int m=width(was),ins= app=='n'?0: app=='i'&&!t? in+1 : m,rmc=rm=='y'?in:-9; double dv[MAXN*2]; char **nm=NULL; int nn=0; (void)dv;
    gsl_matrix *x=NULL; apop_data *ex=app=='n'?empty():NULL; int tot=(app=='n'?0:m-(rmc>=0))+dc; if (tot) x=gsl_matrix_alloc(n,tot); int named= app=='n'||dc>0||was->names->colct;
    int at=0; for (int j=0;j<=(app=='n'?0:m);j++){
        if (j==ins) for (int q=!keep;q<k;q++){ for (int i=0;i<n;i++){ int is= t? !strcmp(f->text[q][0],was->text[i][in]) : gsl_vector_get(f->vector,q)==(in<0?gsl_vector_get(was->vector,i):gsl_matrix_get(was->matrix,i,in)); gsl_matrix_set(x,i,at,is); } char s[300]; if (t) snprintf(s,300,"%s",f->text[q][0]); else snprintf(s,300,"%s dummy %g",b,gsl_vector_get(f->vector,q)); addn(&nm,&nn,s); at++; }
        if (app!='n'&&j<m&&j!=rmc){ for (int i=0;i<n;i++) gsl_matrix_set(x,i,at,gsl_matrix_get(was->matrix,i,j)); if (j<was->names->colct) addn(&nm,&nn,was->names->col[j]); else if (j<ins&&(dc||(app=='i'&&!t))) addn(&nm,&nn,""); at++; } }
    (void)named; apop_data *target=app=='n'?ex:e; if (target->matrix) gsl_matrix_free(target->matrix); target->matrix=x; target->names->col=nm; target->names->colct=nn; if (app!='n'&&rm=='y'&&in<0){ gsl_vector_free(e->vector); e->vector=NULL; }
    if (app=='n'&&rm=='y'){ if (in<0){ gsl_vector_free(e->vector); e->vector=NULL; } else { apop_data *y=NULL; int c[MAXN],q=0; for (int j=0;j<m;j++) if (j!=in) c[q++]=j; y=q?sub(was,NULL,0,c,q,ALL):NULL; if (!y){ gsl_matrix *tm=was->matrix; int ct=was->names->colct,all[MAXN]; for (int i=0;i<n;i++) all[i]=i; was->matrix=NULL; was->names->colct=0; y=sub(was,all,n,c,0,ALL); was->matrix=tm; was->names->colct=ct; } with_pages(y,was); apop_data_free(e); e=y; } }
    l=e; while (l->more) l=l->more; l->more=deep_copy(&fv); same(w,w->d,e); if (ex){ same(w,o,ex); apop_data_free(o); }
    if (!w->d->vector&&!w->d->matrix&&!w->d->textsize[0]) replace(w,some(w)); }
/* a list of categories made from one set, used for another that has further ones */
static void op_later(world *w){
    int t=w_choose(2),n=1+w_choose(8),k0=1+w_choose(3),dum=w_choose(2),keep=w_choose(2); char longname[1500]; memset(longname,'x',1499); longname[1499]=0; const char *cat[]={"m","c","x","a","k",w_choose(6)==5?longname:"z","b"}; static const double num[]={3,-1,8,0.5,2,100,7};
    apop_data *a=empty(),*b=empty(); int val[9]; if (t){ text_grid(a,k0,1); text_grid(b,n,1); b->matrix=gsl_matrix_calloc(n,1); } else { a->matrix=gsl_matrix_alloc(k0,1); b->matrix=gsl_matrix_alloc(n,1); }
    for (int i=0;i<k0;i++){ int v=w_choose(7); if (t) put_text(a,i,0,cat[v]); else gsl_matrix_set(a->matrix,i,0,num[v]); } for (int i=0;i<n;i++){ val[i]=w_choose(7); if (t) put_text(b,i,0,cat[val[i]]); else gsl_matrix_set(b->matrix,i,0,num[val[i]]); }
    w->op="apop_data_to_factors"; apop_data *f=apop_data_to_factors(a,t?'t':'d',0,t?-1:0); OKAY(f&&f->vector,"lost","%s gives nothing",w->op); int known=f->vector->size; b->more=deep_copy(f); apop_data *o,*g=b->more; w->op=dum?"apop_data_to_dummies with categories from another set":"apop_data_to_factors with categories from another set";
    if (dum) o=apop_data_to_dummies(b,0,t?'t':'d',keep?'y':'n'); else o=apop_data_to_factors(b,t?'t':'d',0,0); OKAY(o&&!o->error&&(dum||o==g)&&!g->more,"lost","%s gives nothing, or makes another list",w->op); int k=g->vector->size; OKAY(k==(int)g->textsize[0]&&k>=known&&(int)b->matrix->size1==n&&b->matrix->size2==1,"factor","%s: %d categories, %d names; the data is %d x %d",w->op,k,(int)g->textsize[0],(int)b->matrix->size1,(int)b->matrix->size2);
    for (int i=0;i<k;i++){ if (i<known) OKAY(!strcmp(g->text[i][0],f->text[i][0])&&gsl_vector_get(g->vector,i)==gsl_vector_get(f->vector,i),"factor","%s: known category %d changes",w->op,i); for (int j=0;j<i;j++) OKAY(strcmp(g->text[i][0],g->text[j][0]),"factor","%s: category '%.20s' is there twice",w->op,g->text[i][0]); }
    int dc=k-!keep; if (dum) OKAY((o->matrix?(int)o->matrix->size2:0)==dc&&o->names->colct==dc,"factor","%s: %d columns with %d names for %d categories",w->op,o->matrix?(int)o->matrix->size2:0,o->names->colct,k);
    for (int i=0;i<n;i++){ int want=-1; for (int j=0;j<k;j++) if (t?!strcmp(g->text[j][0],cat[val[i]]):gsl_vector_get(g->vector,j)==num[val[i]]) want=j; OKAY(want>=0,"factor","%s: the value of row %d is not a category",w->op,i); if (!dum) OKAY(gsl_matrix_get(b->matrix,i,0)==want,"factor","%s: row %d has category %g instead of %d",w->op,i,gsl_matrix_get(b->matrix,i,0),want); else for (int q=0;q<dc;q++) OKAY(gsl_matrix_get(o->matrix,i,q)==(q+!keep==want),"factor","%s: row %d, dummy %d",w->op,i,q); }
    if (dum) for (int q=0;q<dc;q++){ char s[100]; snprintf(s,100,"column 0 dummy %g",gsl_vector_get(g->vector,q+!keep)); OKAY(!strcmp(o->names->col[q],t?g->text[q+!keep][0]:s),"factor","%s: dummy %d is named %.20s",w->op,q,o->names->col[q]); }
    if (dum) apop_data_free(o); apop_data_free(a); apop_data_free(b); }
static void op_unique(world *w,apop_data *was){
    if (was->textsize[0]){ int c=w_choose(was->textsize[1]); w->op="apop_text_unique_elements"; apop_data *u; int h; CALL(h,u=apop_text_unique_elements(w->d,c)); if (h&&bad(u)){ apop_data_free(u); u=apop_text_unique_elements(w->d,c); } OKAY(u&&u->textsize[1]==1&&sorted_unique(u),"unique","%s: not sorted, or duplicates",w->op); for (int i=0;i<(int)was->textsize[0];i++){ int in=0; for (int j=0;j<(int)u->textsize[0];j++) in|=!strcmp(u->text[j][0],was->text[i][c]); OKAY(in,"unique","%s: '%s' is missing",w->op,was->text[i][c]); } for (int j=0;j<(int)u->textsize[0];j++){ int in=0; for (int i=0;i<(int)was->textsize[0];i++) in|=!strcmp(u->text[j][0],was->text[i][c]); OKAY(in,"unique","%s: '%s' is not in the data",w->op,u->text[j][0]); } apop_data_free(u); }
    if (was->matrix){ int c=w_choose(width(was)); w->op="apop_vector_unique_elements"; gsl_vector *col=Apop_cv(w->d,c); gsl_vector *u; int h; CALL(h,u=apop_vector_unique_elements(col)); if (h&&!u) u=apop_vector_unique_elements(col); OKAY(u,"lost","%s gives nothing",w->op); for (int i=1;i<(int)u->size;i++) OKAY(gsl_vector_get(u,i-1)<gsl_vector_get(u,i),"unique","%s: not sorted, or duplicates",w->op); for (int i=0;i<(int)was->matrix->size1;i++){ int in=0; for (int j=0;j<(int)u->size;j++) in|=gsl_vector_get(u,j)==gsl_matrix_get(was->matrix,i,c); OKAY(in,"unique","%s: a value is missing",w->op); } OKAY(u->size<=was->matrix->size1,"unique","%s: too many",w->op); gsl_vector_free(u); }
    same(w,w->d,deep_copy(was)); }
static void op_ranks(world *w){
    int n=1+w_choose(12),c[12]={0},max=0,bins=w_choose(2)?w_choose(11):0,parts=1+w_choose(3); apop_data *d=empty(); if (parts&1) d->vector=gsl_vector_alloc(n); if (parts&2) d->matrix=gsl_matrix_alloc(1+n/3,2); w->op="apop_data_rank_compress";
    for (int i=0;d->vector&&i<n;i++){ int x=w_choose(6); if (x>max) max=x; c[x]++; gsl_vector_set(d->vector,i,x); } for (int i=0;d->matrix&&i<1+n/3;i++) for (int j=0;j<2;j++){ int x=w_choose(9); if (x>max) max=x; c[x]++; gsl_matrix_set(d->matrix,i,j,x); } int want=GSL_MAX(max,bins)+1;
    apop_data *r=apop_data_rank_compress(d,.min_bins=bins); OKAY(r&&r->matrix&&r->matrix->size1==1&&(int)r->matrix->size2==want,"ranks","%s gives %d bins instead of %d",w->op,r&&r->matrix?(int)r->matrix->size2:0,want); int tot=0; for (int j=0;j<want;j++){ int x=j<12?c[j]:0; tot+=x; OKAY(gsl_matrix_get(r->matrix,0,j)==x,"ranks","%s: %g observations of %d instead of %d",w->op,gsl_matrix_get(r->matrix,0,j),j,x); }
    if (w_choose(2)){ r->vector=gsl_vector_alloc(1); gsl_vector_set(r->vector,0,7); } apop_data *x=apop_data_rank_expand(r); OKAY(x&&x->vector&&(int)x->vector->size==tot,"ranks","apop_data_rank_expand gives %d observations instead of %d",x&&x->vector?(int)x->vector->size:0,tot); for (int i=0,j=0,left=c[0];i<tot;i++){ while (!left) left=c[++j]; left--; OKAY(gsl_vector_get(x->vector,i)==j,"ranks","apop_data_rank_expand: observation %d",i); } apop_data_free(x); apop_data_free(r); apop_data_free(d); }
static void op_rowcopy(world *w,apop_data *was){
    int n=height(was),i=w_choose(n),j=w_choose(n),p[MAXN]; if (i==j) return; w->op="apop_data_memcpy of a row"; apop_data *to=Apop_r(w->d,i),*from=Apop_r(w->d,j); int h; CALL(h,apop_data_memcpy(to,from)); if (h&&to->error){ to->error=0; apop_data_memcpy(to,from); } OKAY(!to->error,"marked","%s marks the row '%c'",w->op,to->error); for (int k=0;k<n;k++) p[k]=k==i?j:k; same(w,w->d,with_pages(sub(was,p,n,NULL,0,ALL),was)); }
static void op_fill(world *w,apop_data *was){
    double b[4000]; int n=height(was),m=width(was),k=0; if ((was->vector||m)&&w_choose(2)){ if (n*(m+1)>3900) return; w->op="apop_data_fill"; for (int i=0;i<n;i++){ if (was->vector){ b[k]=cell(); gsl_vector_set(was->vector,i,b[k++]); } for (int j=0;j<m;j++){ b[k]=cell(); gsl_matrix_set(was->matrix,i,j,b[k++]); } } OKAY(apop_data_fill_base(w->d,b)==w->d,"differ","%s gives another set",w->op); }
    else if (was->textsize[0]){ char *t[600]; int c=was->textsize[1]; if (n*c>590) return; w->op="apop_text_fill"; for (int i=0;i<n;i++) for (int j=0;j<c;j++){ t[k]=(char*)words[w_choose(10)]; put_text(was,i,j,t[k++]); } t[k]=NULL; OKAY(apop_text_fill_base(w->d,t)==w->d,"differ","%s gives another set",w->op); }
    same(w,w->d,deep_copy(was)); }
static void op(world *w){
    if (height(w->d)>60||width(w->d)>14||!height(w->d)) replace(w,some(w)); apop_data *was=deep_copy(w->d); int pages=0; for (apop_data *p=w->d;p;p=p->more) pages++; if (pages>6){ apop_data_free(w->d->more); w->d->more=NULL; apop_data_free(was->more); was->more=NULL; }
    switch(w_choose(17)){
        case 0: case 1: op_split(w,was); break; case 2: case 3: case 4: op_sort(w,was); break; case 5: op_rm_rows(w,was); break; case 6: op_columns(w,was); break; case 7: op_transpose(w,was); break; case 8: op_pack(w,was); break; case 9: op_rows(w,was); break; case 10: op_listwise(w,was); break; case 11: op_pages(w,was); break; case 12: op_cells(w,was); break; case 13: case 14: if (faulty) op_cells(w,was); else if (w_choose(4)==3) op_later(w); else op_factors(w,was); break; case 15: if (w_choose(2)) op_unique(w,was); else op_rowcopy(w,was); break; default: if (w_choose(2)) op_ranks(w); else op_fill(w,was); }
    apop_data_free(was); w->h=w->h*31+data_hash(w->d); sim_point(); }
static void history(world *w){ w->d=some(w); for (int i=0;i<nops;i++) op(w); apop_data_free(w->d); }
static void caller(int t,void *v){ (void)v; sim_point(); history(&Wd[t]); }
void scen_surgery(void){
    quiet(); apop_opts.verbose=w_choose(2); sim_on_hang("cells:hang"); f_suspended=1; memset(Wd,0,sizeof Wd); for (int i=0;i<3;i++) Wd[i].op="nothing";
    nops=1+w_choose(10); nthr=(int[]){1,1,2,3}[w_choose(4)]; faulty=nthr==1&&w_choose(3)==2; sim_describe("%d operations on data sets in each of %d threads%s",nops,nthr,faulty?", allocations fail":""); sim_sched_on=nthr>1; 
    if (faulty) f_enable(FK_OOM,(double[]){0.05,0.01,0.2}[w_choose(3)],1+w_choose(4));
    if (nthr==1) history(&Wd[0]); else sim_callers(nthr,caller,NULL);
    uint64_t h=FNV0; for (int i=0;i<nthr;i++){ sim_event("thread %d: last %s, %llx",i,Wd[i].op,(unsigned long long)Wd[i].h); h=h*31+Wd[i].h; } sim_nontrivial(); sim_state(h); }
