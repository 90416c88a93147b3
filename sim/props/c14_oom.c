/* C14: histories of operations on a few data sets, during which allocations fail.  Each call is given memory that runs out
at points the simulator picks, then is repeated with memory available; a small model of the data sets says what to expect. */
#define _GNU_SOURCE
#include "common.h"
enum { NS=3 };
static apop_data *P[NS];
static double oom_rate; static int oom_budget, faulty, handler, noted_gsl; static const char *opname; static int hits;
static void my_handler(const char *r,const char *f,int l,int e){ (void)r; (void)f; (void)l; (void)e; noted_gsl++; }
static uint64_t f0;
static void on(void){ f0=f_fired(FK_OOM); if (!faulty) return; mem_oom_scope=1; f_suspended=0; }
static int off(void){ f_suspended=1; mem_oom_scope=0; int h=f_fired(FK_OOM)>f0; hits+=h;
    gsl_error_handler_t *now=gsl_set_error_handler(handler==2?my_handler:NULL); if (handler==1) gsl_set_error_handler_off();
    if (handler==2) CK(now==my_handler,"oom:handler","%s leaves the GSL with another error handler",opname); else if (handler==0) CK(now==NULL,"oom:handler","%s leaves the GSL with another error handler",opname); 
    return h; }
/* CALL(stmt): with failures possible; then h says whether there were any */
#define CALL(h,stmt) do { on(); stmt; h=off(); } while(0)
static const char *words[]={"a","bb","","a longer name than the others","NaN","x y","%d%s","Row","ROW","bb"};
static char *word(void){ return (char*)words[w_choose(10)]; }
/* ---- data sets */
typedef struct { int v,r,c,w,tr,tc,rn,cn,tn,names; } shape;
static apop_data *gen(shape s){
    apop_data *d=apop_data_alloc(); CK(d&&!d->error,"oom:harness","alloc");
    if (s.v){ d->vector=gsl_vector_alloc(s.v); for (int i=0;i<s.v;i++) gsl_vector_set(d->vector,i,w_choose(2000)/8.); }
    if (s.r&&s.c){ d->matrix=gsl_matrix_alloc(s.r,s.c); for (int i=0;i<s.r;i++) for (int j=0;j<s.c;j++) gsl_matrix_set(d->matrix,i,j,w_choose(2000)/8.); }
    if (s.w){ d->weights=gsl_vector_alloc(s.w); for (int i=0;i<s.w;i++) gsl_vector_set(d->weights,i,w_choose(2000)/8.); }
    if (s.tr&&s.tc){ apop_text_alloc(d,s.tr,s.tc); for (int i=0;i<s.tr;i++) for (int j=0;j<s.tc;j++) if (w_choose(4)) apop_text_set(d,i,j,"%s",word()); }
    char b[40]; for (int i=0;i<s.rn;i++){ snprintf(b,40,"%s%d",i%3?"row ":"R",w_choose(50)); apop_name_add(d->names,b,'r'); } for (int i=0;i<s.cn;i++){ snprintf(b,40,"%s%d",i%2?"col ":"C",w_choose(50)); apop_name_add(d->names,b,'c'); } for (int i=0;i<s.tn;i++){ snprintf(b,40,"t%d",w_choose(50)); apop_name_add(d->names,b,'t'); }
    if (s.names&1) apop_name_add(d->names,word(),'h'); if (s.names&2) apop_name_add(d->names,word(),'v');
    return d; }
static shape pick_shape(void){ shape s={0}; int n=1+w_choose(5); int parts=w_choose(16); s.c=1+w_choose(4); if (!(parts&1)){ s.r=n; } else s.c=0; if (parts&2) s.v=n; if (parts&4) s.w=n; if (parts&8){ s.tr=n; s.tc=1+w_choose(3); } if (w_choose(2)) s.rn=n; if (s.r&&w_choose(2)) s.cn=s.c; if (s.tr&&w_choose(2)) s.tn=s.tc; s.names=w_choose(4); return s; }
static void pages(apop_data *d){ int n=w_choose(6); n= n>=4? n-3:0; for (int i=0;i<n;i++){ shape s=pick_shape(); s.names|=1; char t[20]; snprintf(t,20,"page %d",i); d=d->more=gen(s); free(d->names->title); d->names->title=strdup(t); } }
static apop_data *some(void){ apop_data *d=gen(pick_shape()); pages(d); return d; }
static shape shape_of(apop_data *d){ return (shape){ d->vector?d->vector->size:0, d->matrix?d->matrix->size1:0, d->matrix?d->matrix->size2:0, d->weights?d->weights->size:0, d->textsize[0],d->textsize[1],d->names->rowct,d->names->colct,d->names->textct,(d->names->title?1:0)|(d->names->vector?2:0)}; }
static void findable1(apop_name *n,char **l,int ct,char type){ for (int i=0;i<ct;i++){ int f=apop_name_find(n,l[i],type); int e=i; for (int j=0;j<i;j++) if (!strcasecmp(l[i],l[j])){ e=j; break; } if (f!=e){ int same=f>=0&&f<ct&&!strcasecmp(l[f],l[i]); CK(same,"oom:names","after %s, name %d of type %c ('%s') is found at %d",opname,i,type,l[i],f); } } }
static void findable(apop_data *d){ for (;d;d=d->more) if (d->names){ findable1(d->names,d->names->row,d->names->rowct,'r'); findable1(d->names,d->names->col,d->names->colct,'c'); findable1(d->names,d->names->text,d->names->textct,'t'); } }
static void same(apop_data *got,apop_data *want,int tries){ const char *r=data_diff_pages(got,want,2); CK(!r,"oom:wrong-result","%s (%s) gives a result that differs from what it should be: %s",opname,tries?"repeated with memory available":"unmarked",r); CK(!got||got->error==(want?want->error:0),"oom:spurious-mark","%s marks its result with '%c' although it is complete",opname,got->error); if (got) findable(got); for (apop_data *g=got,*w=want;g&&w;g=g->more,w=w->more) CK(g->error==w->error,"oom:spurious-mark","%s: a page is marked '%c' but the data set isn't",opname,g->error); }
static void unchanged(const char *what,apop_data *got,apop_data *was){ const char *r=data_diff_pages(got,was,2); CK(!r,"oom:input-changed","%s: %s was changed by a call that failed: %s",opname,what,r); CK(!got||got->error==was->error,"oom:input-changed","%s: %s was marked '%c'",opname,what,got->error); if (got) findable(got); }
static int marked(apop_data *d){ return !d||d->error=='a'; }
static void touch(apop_data *d){ for (;d;d=d->more){ data_hash(d); if (d->names){ for (int i=0;i<d->names->rowct;i++) CK(d->names->row[i]!=NULL,"oom:corrupt","NULL name"); for (int i=0;i<d->names->colct;i++) CK(d->names->col[i]!=NULL,"oom:corrupt","NULL name"); } } }
static void drop(apop_data *d){ if (d) touch(d); apop_data_free(d); }
/* a call that makes a new data set: check, and repeat if it failed */
#define FRESH(want,expr,ok_null) do { apop_data *w_=(want), *o_; int h_; CALL(h_,o_=(expr)); \
        if (h_&&marked(o_)){ sim_probe("reported"); if (!o_) CK(ok_null||1,"oom:null","NULL"); drop(o_); int f_=faulty; faulty=0; CALL(h_,o_=(expr)); faulty=f_; same(o_,w_,1); } else { CK(h_||!o_||!o_->error||o_->error==w_->error,"oom:spurious-mark","%s is marked '%c' without a failure",opname,o_->error); CK(o_||!w_,"oom:spurious-null","%s gives NULL without a failure",opname); same(o_,w_,0); } \
        apop_data_free(w_); result=o_; } while(0)
/* ---- what the operations should give */
static gsl_vector *cat_v(gsl_vector *a,gsl_vector *b){ if (!a&&!b) return NULL; size_t n=(a?a->size:0)+(b?b->size:0); gsl_vector *o=gsl_vector_alloc(n); size_t k=0; for (size_t i=0;a&&i<a->size;i++) gsl_vector_set(o,k++,gsl_vector_get(a,i)); for (size_t i=0;b&&i<b->size;i++) gsl_vector_set(o,k++,gsl_vector_get(b,i)); return o; }
static gsl_matrix *cat_m(gsl_matrix *a,gsl_matrix *b,char p){ if (!a&&!b) return NULL; if (!a||!b){ gsl_matrix *s=a?a:b,*o=gsl_matrix_alloc(s->size1,s->size2); gsl_matrix_memcpy(o,s); return o; }
    gsl_matrix *o=gsl_matrix_alloc(p=='r'?a->size1+b->size1:a->size1,p=='r'?a->size2:a->size2+b->size2); for (size_t i=0;i<o->size1;i++) for (size_t j=0;j<o->size2;j++) gsl_matrix_set(o,i,j, p=='r'? (i<a->size1?gsl_matrix_get(a,i,j):gsl_matrix_get(b,i-a->size1,j)) : (j<a->size2?gsl_matrix_get(a,i,j):gsl_matrix_get(b,i,j-a->size2))); return o; }
static char ***grid(int r,int c){ char ***t=calloc(r,sizeof *t); for (int i=0;i<r;i++){ t[i]=calloc(c,sizeof **t); for (int j=0;j<c;j++) t[i][j]=strdup(""); } return t; }
static void put(char ***t,int i,int j,const char *s){ free(t[i][j]); t[i][j]=strdup(s); }
static void set_text(apop_data *d,char ***t,int r,int c){ if (d->text) for (size_t i=0;i<d->textsize[0];i++){ for (size_t j=0;j<d->textsize[1];j++) free(d->text[i][j]); free(d->text[i]); } free(d->text); d->text=t; d->textsize[0]=r; d->textsize[1]=c; }
static void regrid(apop_data *e,int r,int c){ char ***t=r?grid(r,c):NULL; for (int i=0;i<r&&i<(int)e->textsize[0];i++) for (int j=0;j<c&&j<(int)e->textsize[1];j++) put(t,i,j,e->text[i][j]); set_text(e,t,r,c); }
static void addn(char ***l,int *ct,const char *s){ *l=realloc(*l,(*ct+1)*sizeof(char*)); (*l)[(*ct)++]=strdup(s); }
static apop_data *one(apop_data *d){ if (!d) return NULL; apop_data t=*d; t.more=NULL; return deep_copy(&t); }
static apop_data *ref_stack(apop_data *a,apop_data *b,char p,int inplace){
    if (!a) return b? deep_copy(b):NULL; if (!b) return deep_copy(a); apop_data *e= inplace?deep_copy(a):one(a); int va=a->vector?a->vector->size:0, m1=a->matrix?a->matrix->size1:0, m2=a->matrix?a->matrix->size2:0;
    if (p=='c'&&b->vector&&!a->vector){ e->vector=cat_v(NULL,b->vector); if (b->names->vector){ free(e->names->vector); e->names->vector=strdup(b->names->vector); } }
    gsl_matrix *m=cat_m(a->matrix,b->matrix,p); if (e->matrix) gsl_matrix_free(e->matrix); e->matrix=m;
    if (p=='r'){ gsl_vector *v=cat_v(a->vector,b->vector),*w=cat_v(a->weights,b->weights); if (e->vector) gsl_vector_free(e->vector); if (e->weights) gsl_vector_free(e->weights); e->vector=v; e->weights=w; }
    if (b->text){ int ra=a->textsize[0],ca=a->textsize[1],rb=b->textsize[0],cb=b->textsize[1]; if (p=='r'){ regrid(e,ra+rb,cb); for (int i=0;i<rb;i++) for (int j=0;j<cb;j++) put(e->text,ra+i,j,b->text[i][j]); } else { regrid(e,rb,ca+cb); for (int i=0;i<rb;i++) for (int j=0;j<cb;j++) put(e->text,i,ca+j,b->text[i][j]); for (int i=0;i<b->names->textct;i++) addn(&e->names->text,&e->names->textct,b->names->text[i]); } }
    if (p=='r'&&b->names->rowct){ for (int k=a->names->rowct;k<(va>m1?va:m1);k++) addn(&e->names->row,&e->names->rowct,""); for (int i=0;i<b->names->rowct;i++) addn(&e->names->row,&e->names->rowct,b->names->row[i]); }
    if (p=='c'&&b->names->colct){ for (int k=a->names->colct;k<m2;k++) addn(&e->names->col,&e->names->colct,""); for (int i=0;i<b->names->colct;i++) addn(&e->names->col,&e->names->colct,b->names->col[i]); }
    return e; }
static char **swapl(char **l){ return l; }
static apop_data *ref_transpose(apop_data *a,int text,int inplace){
    apop_data *e= inplace?deep_copy(a):deep_copy(gen((shape){0})); int hasn=a->names->textct&&!a->names->colct&&text&&a->textsize[0];
    if (a->matrix){ gsl_matrix *m=gsl_matrix_alloc(a->matrix->size2,a->matrix->size1); for (size_t i=0;i<m->size1;i++) for (size_t j=0;j<m->size2;j++) gsl_matrix_set(m,i,j,gsl_matrix_get(a->matrix,j,i)); if (e->matrix) gsl_matrix_free(e->matrix); e->matrix=m; }
    if (inplace){ char **t=e->names->col; e->names->col=swapl(e->names->row); e->names->row=t; int k=e->names->colct; e->names->colct=e->names->rowct; e->names->rowct=k; }
    else if (a->matrix){ for (int i=0;i<a->names->colct;i++) addn(&e->names->row,&e->names->rowct,a->names->col[i]); for (int i=0;i<a->names->rowct;i++) addn(&e->names->col,&e->names->colct,a->names->row[i]); }
    if (text&&a->textsize[0]){ int r=a->textsize[0],c=a->textsize[1]; char ***t=grid(c,r); for (int i=0;i<r;i++) for (int j=0;j<c;j++) put(t,j,i,a->text[i][j]); set_text(e,t,c,r); }
    if (hasn) for (int i=0;i<a->names->textct;i++) addn(&e->names->row,&e->names->rowct,a->names->text[i]);
    return e; }
static void over(char ***l,int *ct,char **from,int n){ for (int i=0;i<n;i++) if (i<*ct){ free((*l)[i]); (*l)[i]=strdup(from[i]); } else addn(l,ct,from[i]); }
static void ref_memcpy(apop_data *e,apop_data *in){ // same shapes, or more room for text
    for (;e&&in;e=e->more,in=in->more){ if (in->matrix) gsl_matrix_memcpy(e->matrix,in->matrix); if (in->vector) gsl_vector_memcpy(e->vector,in->vector); if (in->weights) gsl_vector_memcpy(e->weights,in->weights);
        if (in->names->title){ free(e->names->title); e->names->title=strdup(in->names->title); } if (in->names->vector){ free(e->names->vector); e->names->vector=strdup(in->names->vector); }
        over(&e->names->row,&e->names->rowct,in->names->row,in->names->rowct); over(&e->names->col,&e->names->colct,in->names->col,in->names->colct); over(&e->names->text,&e->names->textct,in->names->text,in->names->textct);
        for (size_t i=0;i<in->textsize[0];i++) for (size_t j=0;j<in->textsize[1];j++) put(e->text,i,j,in->text[i][j]); } }
static gsl_vector *ref_pack(apop_data *d,int all){ double b[400]; int n=0; for (;d;d=d->more){ if (d->vector) for (size_t i=0;i<d->vector->size;i++) b[n++]=gsl_vector_get(d->vector,i); if (d->matrix) for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) b[n++]=gsl_matrix_get(d->matrix,i,j); if (d->weights) for (size_t i=0;i<d->weights->size;i++) b[n++]=gsl_vector_get(d->weights,i); if (!all) break; } if (!n) return NULL; gsl_vector *o=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(o,i,b[i]); return o; }
/* ---- one operation */
static apop_data *result;
static void mutate_marked(int s,apop_data *was){ // an in-place operation failed: the set must be marked, and can be freed
    CK(marked(P[s]),"oom:unreported","%s ran out of memory, and the data set is not marked (its mark is %d)",opname,P[s]->error); (void)was; }
static void vec_same(gsl_vector *g,gsl_vector *w,size_t n){ CK(g&&w,"oom:spurious-null","%s gives NULL without a failure",opname); for (size_t i=0;i<n;i++) CK(gsl_vector_get(g,i)==gsl_vector_get(w,i),"oom:wrong-result","%s: element %zu is %g instead of %g",opname,i,gsl_vector_get(g,i),gsl_vector_get(w,i)); }
static void mat_same(gsl_matrix *g,gsl_matrix *w){ const char *r=mat_diff(g,w); CK(!r,"oom:wrong-result","%s: %s",opname,r); }
static gsl_vector *rvec(int n){ gsl_vector *v=gsl_vector_alloc(n); for (int i=0;i<n;i++) gsl_vector_set(v,i,w_choose(999)/4.); return v; }
static gsl_matrix *rmat(int r,int c){ gsl_matrix *v=gsl_matrix_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(v,i,j,w_choose(999)/4.); return v; }
#define AGAIN(cond,call) do { if (cond){ sim_probe("reported"); int f_=faulty,h_; faulty=0; CALL(h_,call); faulty=f_; (void)h_; } } while(0)
static void op_vectors(void){
    int h; gsl_vector *v=rvec(1+w_choose(8)),*o=NULL,*u=rvec(1+w_choose(5)),*keep=cat_v(v,NULL),*both=cat_v(v,u); int k=w_choose(7);
    switch(k){
        case 0: opname="apop_vector_copy"; CALL(h,o=apop_vector_copy(v)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); vec_same(v,keep,v->size); AGAIN(!o,o=apop_vector_copy(v)); vec_same(o,v,v->size); CK(o->size==v->size&&o->data!=v->data,"oom:wrong-result","%s: not a copy",opname); gsl_vector_free(o); break;
        case 1: { int inplace=w_choose(2); opname="apop_vector_stack"; CALL(h,o=apop_vector_stack(v,u,.inplace=inplace?'y':'n')); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); if (!o||!inplace){ CK(v->size==keep->size,"oom:input-changed","%s changed the size of its input",opname); vec_same(v,keep,keep->size); } AGAIN(!o,o=apop_vector_stack(v,u,.inplace=inplace?'y':'n')); CK(o&&o->size==both->size&&(!inplace||o==v),"oom:wrong-result","%s: wrong size or place",opname); vec_same(o,both,both->size); if (!inplace) gsl_vector_free(o); break; }
        case 2: { size_t n=w_choose(3)?1+w_choose(20):0; opname="apop_vector_realloc"; CALL(h,o=apop_vector_realloc(v,n)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); if (!o){ CK(v->size==keep->size,"oom:input-changed","%s changed the size of its input",opname); vec_same(v,keep,keep->size); } AGAIN(!o,o=apop_vector_realloc(v,n)); CK(o==v&&o->size==n,"oom:wrong-result","%s: wrong size or place",opname); vec_same(o,keep,n<keep->size?n:keep->size); for (size_t i=0;i<n;i++) gsl_vector_set(o,i,i); break; }
        case 3: { double a[9]; for (size_t i=0;i<v->size;i++) a[i]=gsl_vector_get(v,i); opname="apop_array_to_vector"; CALL(h,o=apop_array_to_vector(a,v->size)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); AGAIN(!o,o=apop_array_to_vector(a,v->size)); CK(o&&o->size==v->size,"oom:wrong-result","%s: size",opname); vec_same(o,v,v->size); gsl_vector_free(o); break; }
        case 4: { gsl_matrix *m; char rc=w_choose(2)?'r':'c'; opname="apop_vector_to_matrix"; CALL(h,m=apop_vector_to_matrix(v,rc)); CK(m||h,"oom:spurious-null","%s gives NULL without a failure",opname); vec_same(v,keep,v->size); AGAIN(!m,m=apop_vector_to_matrix(v,rc)); CK(m&&m->size1==(rc=='r'?1:v->size)&&m->size2==(rc=='r'?v->size:1),"oom:wrong-result","%s: size",opname); for (size_t i=0;i<v->size;i++) CK(gsl_matrix_get(m,rc=='r'?0:i,rc=='r'?i:0)==gsl_vector_get(v,i),"oom:wrong-result","%s: element %zu",opname,i); gsl_matrix_free(m); break; }
        case 5: { gsl_vector *z=NULL; size_t n=1+w_choose(9); opname="apop_vector_realloc of NULL"; CALL(h,z=apop_vector_realloc(NULL,n)); CK(z||h,"oom:spurious-null","%s gives NULL without a failure",opname); AGAIN(!z,z=apop_vector_realloc(NULL,n)); CK(z&&z->size==n,"oom:wrong-result","%s: size",opname); gsl_vector_free(z); break; }
        case 6: { opname="apop_vector_realloc of a view"; gsl_vector_view w=gsl_vector_subvector(v,0,v->size); CALL(h,o=apop_vector_realloc(&w.vector,v->size+3)); CK(!o,"oom:wrong-result","%s was resized",opname); vec_same(v,keep,v->size); break; }
    }
    gsl_vector_free(v); gsl_vector_free(u); gsl_vector_free(keep); gsl_vector_free(both); }
static void op_matrices(void){
    int h; int r=1+w_choose(5),c=1+w_choose(5); gsl_matrix *m=rmat(r,c),*keep=cat_m(m,NULL,'r'),*o=NULL; int k=w_choose(4);
    switch(k){
        case 0: opname="apop_matrix_copy"; CALL(h,o=apop_matrix_copy(m)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); AGAIN(!o,o=apop_matrix_copy(m)); mat_same(o,keep); gsl_matrix_free(o); break;
        case 1: { char p=w_choose(2)?'c':'r'; int inplace=w_choose(2),bad=w_choose(5)==4; int x=1+w_choose(4); gsl_matrix *n= p=='r'?rmat(x,c+bad):rmat(r+bad,x),*both=bad?NULL:cat_m(m,n,p); opname="apop_matrix_stack"; CALL(h,o=apop_matrix_stack(m,n,p,.inplace=inplace?'y':'n')); CK(o||h||bad,"oom:spurious-null","%s gives NULL without a failure",opname); if (bad) CK(!o,"oom:wrong-result","%s stacks matrices that don't fit",opname); if (!o||!inplace) mat_same(m,keep); if (bad){ gsl_matrix_free(n); break; } AGAIN(!o,o=apop_matrix_stack(m,n,p,.inplace=inplace?'y':'n')); CK(!inplace||o==m,"oom:wrong-result","%s: not in place",opname); mat_same(o,both); if (!inplace) gsl_matrix_free(o); gsl_matrix_free(n); gsl_matrix_free(both); break; }
        case 2: { size_t nr=1+w_choose(7),nc=1+w_choose(7); opname="apop_matrix_realloc"; int times=1+w_choose(2); for (int t=0;t<times;t++){ gsl_matrix *was=cat_m(m,NULL,'r'); CALL(h,o=apop_matrix_realloc(m,nr,nc)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); if (!o) mat_same(m,was); AGAIN(!o,o=apop_matrix_realloc(m,nr,nc)); CK(o==m&&m->size1==nr&&m->size2==nc,"oom:wrong-result","%s: size",opname); for (size_t i=0;i<nr;i++) for (size_t j=0;j<nc;j++) if (i<was->size1&&j<was->size2) CK(gsl_matrix_get(m,i,j)==gsl_matrix_get(was,i,j),"oom:wrong-result","%s from %zux%zu to %zux%zu: element %zu,%zu is %g instead of %g",opname,was->size1,was->size2,nr,nc,i,j,gsl_matrix_get(m,i,j),gsl_matrix_get(was,i,j)); else gsl_matrix_set(m,i,j,i+j/8.); gsl_matrix_free(was); nr=1+w_choose(7); nc=1+w_choose(7); } break; }
        case 3: { size_t nr=1+w_choose(4),nc=1+w_choose(4); opname="apop_matrix_realloc of NULL"; CALL(h,o=apop_matrix_realloc(NULL,nr,nc)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); AGAIN(!o,o=apop_matrix_realloc(NULL,nr,nc)); CK(o&&o->size1==nr&&o->size2==nc,"oom:wrong-result","%s: size",opname); gsl_matrix_free(o); opname="apop_matrix_realloc of a view"; gsl_matrix_view w=gsl_matrix_submatrix(m,0,0,r,c); CALL(h,o=apop_matrix_realloc(&w.matrix,nr+5,nc+5)); CK(!o,"oom:wrong-result","%s was resized",opname); mat_same(m,keep); break; }
    }
    gsl_matrix_free(m); gsl_matrix_free(keep); }
typedef struct { double a; int b[6]; } extra14;
static void op_model(void){
    int k=w_choose(4); opname="apop_model_copy"; apop_model *m=apop_model_copy(k==3?apop_poisson:apop_normal),*c; int h; m->parameters= some(); if (w_choose(3)==0) m->info=some(); int gr=0; 
    if (k>=1){ Apop_settings_add_group(m,apop_mle,.tolerance=0.25,.max_iterations=77); gr|=1; } if (k>=2){ Apop_settings_add_group(m,apop_pm,.draws=31); gr|=2; } if (k==3){ Apop_settings_add_group(m,apop_parts_wanted,.covariance='y'); gr|=4; } int more=w_choose(3)==0; extra14 *x=NULL; if (more){ x=m->more=malloc(sizeof *x); *x=(extra14){.a=2.5,.b={1,2,3,4,5,6}}; m->more_size=sizeof *x; }
    apop_data *p=deep_copy(m->parameters),*i=deep_copy(m->info); apop_model before=*m; int tries=0;
    for (;tries<2;tries++){ int f=faulty; if (tries) faulty=0; CALL(h,c=apop_model_copy(m)); faulty=f;
        CK(!memcmp(&before,m,sizeof before),"oom:input-changed","copying a model changed the original"); unchanged("the model's parameters",m->parameters,p); unchanged("the model's info",m->info,i); if (more) CK(m->more==x&&x->a==2.5&&x->b[5]==6,"oom:input-changed","the extra part of the model was changed");
        int bad=!c||c->error; CK(h||!bad,"oom:spurious-mark","the copy of a model is NULL or marked without a failure"); if (c&&c->error) CK(strchr("asp",c->error)!=NULL,"oom:unreported","the copy of a model is marked '%c'",c->error);
        if (!bad){ const char *r=data_diff_pages(c->parameters,p,2); CK(!r,"oom:wrong-result","unmarked copy of a model: parameters: %s",r); r=data_diff_pages(c->info,i,2); CK(!r,"oom:wrong-result","unmarked copy of a model: info: %s",r); CK(c->data==m->data&&c->vsize==m->vsize&&c->log_likelihood==m->log_likelihood&&!strcmp(c->name,m->name),"oom:wrong-result","unmarked copy of a model: elements");
            CK(!(gr&1)||(Apop_settings_get_group(c,apop_mle)&&Apop_settings_get(c,apop_mle,tolerance)==0.25&&Apop_settings_get(c,apop_mle,max_iterations)==77),"oom:wrong-result","unmarked copy of a model: the MLE settings are missing or wrong"); CK(!(gr&2)||(Apop_settings_get_group(c,apop_pm)&&Apop_settings_get(c,apop_pm,draws)==31),"oom:wrong-result","unmarked copy of a model: the parameter model settings are missing or wrong"); CK(!(gr&4)||(Apop_settings_get_group(c,apop_parts_wanted)&&Apop_settings_get(c,apop_parts_wanted,covariance)=='y'),"oom:wrong-result","unmarked copy of a model: the list of parts wanted is missing or wrong");
            if (more){ extra14 *y=c->more; CK(y&&y!=x&&y->a==2.5&&y->b[5]==6,"oom:wrong-result","unmarked copy of a model: the extra part is wrong"); } }
        apop_model_free(c); if (!bad) break; sim_probe("reported"); }
    CK(tries<2,"oom:spurious-mark","the copy of a model failed with memory available");
    // a settings group on a model: the others stay
    if (k&&w_choose(2)){ opname="adding a settings group"; CALL(h,Apop_settings_add_group(m,apop_mcmc,.periods=41)); if (m->error){ CK(h,"oom:spurious-mark","adding a settings group marks the model '%c' without a failure",m->error); CK(m->error=='s'||m->error=='a',"oom:unreported","adding a settings group marks the model '%c'",m->error); m->error=0; CALL(h,); int f=faulty; faulty=0; Apop_settings_add_group(m,apop_mcmc,.periods=41); faulty=f; }
        CK(!m->error&&Apop_settings_get_group(m,apop_mcmc)&&Apop_settings_get(m,apop_mcmc,periods)==41,"oom:unreported","the new settings group is missing or wrong, and the model is not marked"); CK(Apop_settings_get_group(m,apop_mle)&&Apop_settings_get(m,apop_mle,tolerance)==0.25,"oom:input-changed","adding a settings group changed another"); }
    apop_model_free(m); }
static void fits(int s,char p,shape *q){ shape a=shape_of(P[s]); *q=pick_shape(); if (p=='r'){ if (a.r&&q->r) q->c=a.c; if (q->cn) q->cn=q->c; if (a.tr&&q->tr){ q->tc=a.tc; if (q->tn) q->tn=q->tc; } } else { if (a.r&&q->r) q->r=a.r; if (a.v) q->v=0; if (a.tr&&q->tr) q->tr=a.tr; q->w=0; } }
/* Operations whose result is the one they give with memory available */
static void op_more(int s,apop_data *was){
    int h; apop_data *d=P[s]; int k=w_choose(8); shape z=shape_of(d); int n=z.r?z.r:z.v; int even=(!z.r||z.r==n)&&(!z.v||z.v==n)&&(!z.w||z.w==n)&&(!z.tr||z.tr==n)&&(!z.rn||z.rn==n)&&n&&z.cn<=z.c&&z.tn<=z.tc;
    switch(k){
        case 0: case 1: { if (!even) break; char by="rc"[w_choose(2)]; int at= by=='r'? (int)w_choose(n+(z.r?2:0)) : (int)w_choose(z.c+3)-1; if (by=='c'&&!z.r) at=0; opname="apop_data_split"; apop_data **o,**w=apop_data_split(deep_copy(was),at,by); CK(w,"oom:spurious-null","%s gives NULL without a failure",opname);
            CALL(h,o=apop_data_split(d,at,by)); unchanged("the data set",d,was); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname);
            int bad=!o; for (int i=0;i<2&&o;i++){ if (!o[i]) continue; bad|=o[i]->error; CK(!o[i]->error||(h&&o[i]->error=='a'),"oom:spurious-mark","%s marks its output '%c'",opname,o[i]->error); }
            if (bad){ sim_probe("reported"); if (o){ drop(o[0]); drop(o[1]); free(o); } o=apop_data_split(d,at,by); } for (int i=0;i<2;i++){ same(o[i],w[i],bad); drop(o[i]); apop_data_free(w[i]); } free(o); free(w); break; }
        case 2: case 3: { if (!even) break; int inplace=w_choose(2); char asc="ad"[w_choose(2)]; if (z.r&&w_choose(2)) for (int i=0;i<z.r;i++) for (int j=0;j<z.c;j++) gsl_matrix_set(d->matrix,i,j,w_choose(3)); apop_data *in=deep_copy(d),*w=deep_copy(d); w=apop_data_sort(w,.asc=asc); opname=inplace?"apop_data_sort in place":"apop_data_sort";
            if (!inplace){ FRESH(deep_copy(w),apop_data_sort(d,.asc=asc,.inplace='n'),1); unchanged("the data set",d,in); drop(result); }
            else { apop_data *o; CALL(h,o=apop_data_sort(d,.asc=asc)); CK(o==d,"oom:wrong-result","sorting in place returns another set"); if (o->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","sorting marks the set without a failure"); sim_probe("reported"); drop(P[s]); P[s]=apop_data_sort(deep_copy(in),.asc=asc); same(P[s],w,1); } else same(d,w,0); }
            apop_data_free(in); apop_data_free(w); break; }
        case 4: { if (!even||!z.r) break; int inplace=w_choose(2); if (w_choose(4)) gsl_matrix_set(d->matrix,w_choose(z.r),w_choose(z.c),NAN); if (z.w&&w_choose(3)==0) gsl_vector_set(d->weights,0,NAN); apop_data *in=deep_copy(d),*w=apop_data_listwise_delete(in); opname=inplace?"apop_data_listwise_delete in place":"apop_data_listwise_delete";
            if (!inplace){ FRESH(w?deep_copy(w):NULL,apop_data_listwise_delete(d),1); unchanged("the data set",d,in); if (result) drop(result); }
            else { apop_data *o; CALL(h,o=apop_data_listwise_delete(d,.inplace='y')); CK(o==d||(!o&&!w),"oom:wrong-result","deleting in place returns another set"); if (o&&o->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","deleting marks the set without a failure"); sim_probe("reported"); drop(P[s]); P[s]=deep_copy(in); o=apop_data_listwise_delete(P[s],.inplace='y'); same(o,w,1); } else if (o) same(o,w,0); }
            apop_data_free(in); apop_data_free(w); drop(P[s]); P[s]=deep_copy(was); break; }
        case 5: { opname="apop_data_add_page"; apop_data *pg=gen(pick_shape()),*w=deep_copy(pg),*o; const char *t=w_choose(2)?"extra":"a page with a longer name"; free(w->names->title); w->names->title=strdup(t); CALL(h,o=apop_data_add_page(d,pg,t));
            if (!o||pg->error){ CK(h,"oom:spurious-mark","%s fails without a failure",opname); CK(pg->error=='a',"oom:unreported","%s fails, and the page is not marked",opname); unchanged("the data set",d,was); pg->error=0; o=apop_data_add_page(d,pg,t); }
            CK(o==pg,"oom:wrong-result","%s returns another page",opname); apop_data *last=d; while (last->more) last=last->more; CK(last==pg,"oom:wrong-result","the page is not there"); same(pg,w,0); CK(apop_data_get_page(d,t)!=NULL,"oom:wrong-result","the page can't be found"); CALL(h,o=apop_data_rm_page(d,t,'n')); CK(o,"oom:wrong-result","the page is not removed"); drop(o); unchanged("the data set",d,was); apop_data_free(w); break; }
        case 6: { if (!z.tr) break; opname="apop_text_unique_elements"; int c=w_choose(z.tc); FRESH(apop_text_unique_elements(was,c),apop_text_unique_elements(d,c),1); unchanged("the data set",d,was); drop(result); break; }
        case 7: { if (!z.v) break; opname="apop_vector_unique_elements"; gsl_vector *o,*w=apop_vector_unique_elements(was->vector); CALL(h,o=apop_vector_unique_elements(d->vector)); unchanged("the data set",d,was); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); AGAIN(!o,o=apop_vector_unique_elements(d->vector)); CK(o->size==w->size,"oom:wrong-result","%s gives %zu elements instead of %zu",opname,o->size,w->size); vec_same(o,w,w->size); gsl_vector_free(o); gsl_vector_free(w); break; }
    } }
static void op(void){
    int s=w_choose(NS),h; apop_data *was=deep_copy(P[s]); result=NULL; int what=w_choose(20);
    switch(what){
        case 0: { shape z={ .v=w_choose(5),.r=w_choose(5),.c=w_choose(4)}; if (!z.r||!z.c) z.r=z.c=0; if (w_choose(2)){ opname="apop_data_calloc"; apop_data *e=gen((shape){0}); if (z.v) e->vector=gsl_vector_calloc(z.v); if (z.r) e->matrix=gsl_matrix_calloc(z.r,z.c); FRESH(e,apop_data_calloc(z.v,z.r,z.c),1); }
            else { opname="apop_data_alloc"; apop_data *o=NULL; CALL(h,o=apop_data_alloc(z.v,z.r,z.c)); if (marked(o)){ CK(h,"oom:spurious-mark","apop_data_alloc fails without a failure"); drop(o); faulty=0; o=apop_data_alloc(z.v,z.r,z.c); faulty=1; } CK(o&&!o->error&&(o->vector?(int)o->vector->size:0)==z.v&&(o->matrix?(int)o->matrix->size1:0)==z.r&&(!o->matrix||(int)o->matrix->size2==z.c)&&o->names,"oom:wrong-result","apop_data_alloc(%d,%d,%d) gives an unmarked set of another shape",z.v,z.r,z.c); if (o->vector) gsl_vector_set_all(o->vector,3); if (o->matrix) gsl_matrix_set_all(o->matrix,4); result=o; }
            unchanged("another set",P[s],was); drop(P[s]); P[s]=result; break; }
        case 1: opname="apop_data_copy"; FRESH(deep_copy(was),apop_data_copy(P[s]),1); unchanged("the original",P[s],was); if (w_choose(2)){ drop(P[s]); P[s]=result; } else { int q=(s+1)%NS; drop(P[q]); P[q]=result; } break;
        case 2: { opname="apop_data_memcpy"; apop_data *to=NULL,**tp=&to; for (apop_data *p=P[s];p;p=p->more){ shape z=shape_of(p); if (w_choose(2)) z.rn=w_choose(z.rn+1); if (w_choose(2)) z.cn=w_choose(z.cn+1); if (z.tr&&w_choose(3)==0){ z.tr+=w_choose(3); z.tc+=w_choose(2); } z.names=w_choose(4); *tp=gen(z); tp=&(*tp)->more; } apop_data *e=deep_copy(to); ref_memcpy(e,P[s]); 
            CALL(h,apop_data_memcpy(to,P[s])); unchanged("the source",P[s],was); int any=0; for (apop_data *p=to;p;p=p->more) any|=p->error; if (any){ CK(h,"oom:spurious-mark","apop_data_memcpy marks its output without a failure"); for (apop_data *p=to;p;p=p->more){ CK(!p->error||p->error=='a',"oom:unreported","marked '%c'",p->error); p->error=0; } apop_data_memcpy(to,P[s]); same(to,e,1); } else same(to,e,0); drop(P[s]); P[s]=to; break; }
        case 3: { int r=w_choose(6),c=r?1+w_choose(4):0; opname="apop_text_alloc"; if (w_choose(8)==7){ apop_data *e=gen((shape){0}); regrid(e,r,c); FRESH(e,apop_text_alloc(NULL,r,c),1); drop(result); break; } apop_data *e=deep_copy(was); regrid(e,r,c); apop_data *o=NULL; CALL(h,o=apop_text_alloc(P[s],r,c)); CK(o==P[s],"oom:wrong-result","apop_text_alloc returns another set"); if (o->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","apop_text_alloc marks the set without a failure"); P[s]->error=0; unchanged("the text grid",P[s],was); apop_text_alloc(P[s],r,c); same(P[s],e,1); } else same(P[s],e,0); break; }
        case 4: { opname="apop_text_set"; if (!P[s]->textsize[0]) break; int r=w_choose(P[s]->textsize[0]),c=w_choose(P[s]->textsize[1]); int style=w_choose(4); char b[80]; const char *wd=word(); snprintf(b,80,"%s-%i-%g",wd,r,c/4.); apop_data *e=deep_copy(was); put(e->text,r,c,style==3?"NaN":style?wd:b); int rc=0; 
            if (style==3) CALL(h,rc=apop_text_set(P[s],r,c,NULL)); else if (style) CALL(h,rc=apop_text_set(P[s],r,c,"%s",wd)); else CALL(h,rc=apop_text_set(P[s],r,c,"%s-%i-%g",wd,r,c/4.)); if (rc){ CK(h&&rc==-1,"oom:spurious-mark","apop_text_set returns %d",rc); unchanged("the data set",P[s],was); rc=style==3?apop_text_set(P[s],r,c,NULL):style?apop_text_set(P[s],r,c,"%s",wd):apop_text_set(P[s],r,c,"%s-%i-%g",wd,r,c/4.); CK(!rc,"oom:spurious-mark","apop_text_set fails with memory available"); same(P[s],e,1); } else same(P[s],e,0); 
            CALL(h,rc=apop_text_set(P[s],P[s]->textsize[0],0,"out")); CK(rc==-1,"oom:wrong-result","text can be put outside of the grid"); same(P[s],e,0); break; }
        case 5: { opname="apop_name_add"; char type="rcthv"[w_choose(5)]; const char *wd=word(); apop_data *e=deep_copy(was); int n=0,rc=0; if (type=='r'){ addn(&e->names->row,&e->names->rowct,wd); n=e->names->rowct; } if (type=='c'){ addn(&e->names->col,&e->names->colct,wd); n=e->names->colct; } if (type=='t'){ addn(&e->names->text,&e->names->textct,wd); n=e->names->textct; } if (type=='h'){ e->names->title=strdup(wd); n=1; } if (type=='v'){ e->names->vector=strdup(wd); n=1; }
            CALL(h,rc=apop_name_add(P[s]->names,wd,type)); if (rc==-1){ CK(h,"oom:spurious-mark","apop_name_add fails without a failure"); unchanged("the list of names",P[s],was); rc=apop_name_add(P[s]->names,wd,type); same(P[s],e,1); } else same(P[s],e,0); CK(rc==n,"oom:wrong-result","apop_name_add returns %d instead of %d",rc,n);
            drop(P[s]); P[s]=was; return; } // name counts above the height would be unusual for what follows
        case 6: { opname="apop_name_copy"; apop_name *o=NULL; CALL(h,o=apop_name_copy(P[s]->names)); CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); unchanged("the original",P[s],was); AGAIN(!o,o=apop_name_copy(P[s]->names)); apop_data a={.names=o},b={.names=was->names}; const char *r=data_diff(&a,&b,2); CK(!r,"oom:wrong-result","apop_name_copy gives a result that differs: %s",r); findable(&a); apop_name_free(o); break; }
        case 7: case 8: case 9: { char p=w_choose(2)?'c':'r'; int inplace=w_choose(2); opname= inplace?"apop_data_stack in place":"apop_data_stack"; shape q; fits(s,p,&q); apop_data *b= gen(q); int nul=w_choose(12); if (nul==11){ b=NULL; } apop_data *bw=deep_copy(b),*e; 
            if (nul==10&&!inplace){ e=deep_copy(bw); FRESH(e,apop_data_stack(NULL,b,p),1); drop(result); drop(b); break; }
            e=ref_stack(P[s],b,p,inplace);
            if (!inplace){ FRESH(e,apop_data_stack(P[s],b,p,'n'),1); unchanged("the first set",P[s],was); unchanged("the second set",b,bw); drop(P[s]); P[s]=result; drop(b); break; }
            apop_data *o=NULL; CALL(h,o=apop_data_stack(P[s],b,p,'y')); CK(o==P[s],"oom:wrong-result","stacking in place returns another set"); unchanged("the second set",b,bw); if (o->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","stacking marks the set without a failure"); sim_probe("reported"); drop(P[s]); P[s]=deep_copy(was); drop(apop_data_copy(P[s])); o=apop_data_stack(P[s],b,p,'y'); same(P[s],e,1); } else same(P[s],e,0); drop(b); break; }
        case 10: { int all=w_choose(2); opname="apop_data_pack"; gsl_vector *e=ref_pack(P[s],all),*o=NULL; CALL(h,o=apop_data_pack(P[s],.more_pages=all?'y':'n')); unchanged("the data set",P[s],was); if (!e){ CK(!o,"oom:wrong-result","an empty set is packed"); break; } CK(o||h,"oom:spurious-null","%s gives NULL without a failure",opname); AGAIN(!o,o=apop_data_pack(P[s],.more_pages=all?'y':'n')); CK(o&&o->size==e->size,"oom:wrong-result","%s: size",opname); vec_same(o,e,e->size); gsl_vector_free(o); gsl_vector_free(e); break; }
        case 11: { int inplace=w_choose(2),text=w_choose(4)!=3; if (!P[s]->matrix&&!P[s]->textsize[0]) break; opname= inplace?"apop_data_transpose in place":"apop_data_transpose"; apop_data *e=ref_transpose(P[s],text,inplace); if (!inplace){ FRESH(e,apop_data_transpose(P[s],text?'y':'n','n'),1); unchanged("the original",P[s],was); drop(P[s]); P[s]=result; break; }
            int onlyname= was->names->textct&&!was->names->colct&&text&&was->textsize[0]; apop_data *o=NULL; CALL(h,o=apop_data_transpose(P[s],text?'y':'n','y')); CK(o==P[s],"oom:wrong-result","transposing in place returns another set"); if (o->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","transposing marks the set without a failure"); sim_probe("reported"); if (!onlyname){ P[s]->error=0; unchanged("the set",P[s],was); apop_data_transpose(P[s],text?'y':'n','y'); same(P[s],e,1); } else { drop(P[s]); P[s]=deep_copy(was); apop_data_transpose(P[s],text?'y':'n','y'); same(P[s],e,1); } } else same(P[s],e,0);
            apop_data *back=P[s]; shape z=shape_of(back); if (z.v||z.w||z.rn>z.r||z.cn>z.c){ drop(P[s]); P[s]=was; return; } break; }
        case 12: { if (!P[s]->matrix||P[s]->names->colct>(int)P[s]->matrix->size2) break; opname="apop_data_rm_columns"; int c=P[s]->matrix->size2, keep=0, d[20]={0}; for (int j=0;j<c;j++){ d[j]=w_choose(2); keep+=!d[j]; } apop_data *e=deep_copy(was); int k=0,kn=0; gsl_matrix *m= keep? gsl_matrix_alloc(P[s]->matrix->size1,keep):NULL; for (int j=0;j<c;j++) if (!d[j]){ for (size_t i=0;i<m->size1;i++) gsl_matrix_set(m,i,k,gsl_matrix_get(was->matrix,i,j)); k++; } for (int j=0;j<was->names->colct&&j<c;j++) if (!d[j]) e->names->col[kn++]=e->names->col[j]; e->names->colct=kn; gsl_matrix_free(e->matrix); e->matrix=m;
            CALL(h,apop_data_rm_columns(P[s],d)); if (P[s]->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","apop_data_rm_columns marks the set without a failure"); P[s]->error=0; unchanged("the set",P[s],was); apop_data_rm_columns(P[s],d); same(P[s],e,1); } else same(P[s],e,0); break; }
        case 13: { opname="apop_data_rm_rows"; shape z=shape_of(P[s]); int n=z.r>z.v?z.r:z.v; if (z.tr>n) n=z.tr; if (!n||n!=(z.r?z.r:n)||n!=(z.v?z.v:n)||n!=(z.w?z.w:n)||n!=(z.tr?z.tr:n)||(z.rn&&z.rn!=n)) break; int d[40]={0},keep=0; if (n>39) break; for (int i=0;i<n;i++){ d[i]=w_choose(2); keep+=!d[i]; } if (!keep) d[0]=0,keep=1; apop_data *e=deep_copy(was); gsl_vector *v=z.v?gsl_vector_alloc(keep):NULL,*w=z.w?gsl_vector_alloc(keep):NULL; gsl_matrix *m=z.r?gsl_matrix_alloc(keep,z.c):NULL; char ***t=z.tr?grid(keep,z.tc):NULL; int k=0; for (int i=0;i<n;i++) if (!d[i]){ if (v) gsl_vector_set(v,k,gsl_vector_get(was->vector,i)); if (w) gsl_vector_set(w,k,gsl_vector_get(was->weights,i)); for (int j=0;m&&j<z.c;j++) gsl_matrix_set(m,k,j,gsl_matrix_get(was->matrix,i,j)); for (int j=0;t&&j<z.tc;j++) put(t,k,j,was->text[i][j]); if (z.rn) e->names->row[k]=strdup(was->names->row[i]); k++; } e->vector=v; e->weights=w; e->matrix=m; set_text(e,t,t?keep:0,t?z.tc:0); if (z.rn) e->names->rowct=keep;
            CALL(h,apop_data_rm_rows(P[s],d)); if (P[s]->error){ mutate_marked(s,was); CK(h,"oom:spurious-mark","apop_data_rm_rows marks the set without a failure"); sim_probe("reported"); drop(P[s]); P[s]=deep_copy(was); apop_data_rm_rows(P[s],d); same(P[s],e,1); } else same(P[s],e,0); break; }
        case 14: { opname="apop_data_add_named_elmt"; apop_data *l=NULL,*e=gen((shape){0}); CALL(h,l=apop_data_alloc()); if (marked(l)){ CK(h,"oom:spurious-mark","apop_data_alloc fails without a failure"); drop(l); l=apop_data_alloc(); } CK(l&&!l->error,"oom:wrong-result","alloc"); int n=1+w_choose(5); double vals[6]; for (int i=0;i<n;i++){ char b[20]; snprintf(b,20,"el%d",i); vals[i]=i*1.5; apop_data *lw=deep_copy(l); addn(&e->names->row,&e->names->rowct,b); gsl_vector one={.size=1,.stride=1,.data=&vals[i],.block=NULL,.owner=0}; gsl_vector *ev=cat_v(e->vector,&one); e->vector=ev; CALL(h,apop_data_add_named_elmt(l,b,vals[i])); if (l->error){ CK(h&&l->error=='a',"oom:spurious-mark","marked"); l->error=0; unchanged("the list",l,lw); apop_data_add_named_elmt(l,b,vals[i]); same(l,e,1); } else same(l,e,0); } for (int i=0;i<n;i++){ char b[20]; snprintf(b,20,"EL%d",i); CK(apop_data_get(l,.rowname=b)==vals[i],"oom:wrong-result","element %d can't be found by name",i); } drop(l); break; }
        case 15: if (w_choose(2)) op_vectors(); else op_matrices(); unchanged("a data set not used",P[s],was); break;
        case 16: op_model(); break;
        default: op_more(s,was); break;
    }
    sim_event("%s%s: %llx",opname,hits?"*":"",(unsigned long long)data_hash(P[s])); apop_data_free(was); }
void scen_oom(void){
    quiet(); apop_opts.verbose=w_choose(3); sim_on_hang("oom:hang"); f_suspended=1; sim_sched_on=0;
    handler=w_choose(3); faulty=w_choose(8)!=0; oom_rate=(double[]){0.1,0.03,0.3,0.01,1}[w_choose(5)]; oom_budget=w_choose(4)==3?500:1+w_choose(6); hits=0; noted_gsl=0; opname="setting up";
    if (handler==1) gsl_set_error_handler_off(); if (handler==2) gsl_set_error_handler(my_handler);
    for (int i=0;i<NS;i++) P[i]=some();
    if (faulty) f_enable(FK_OOM,oom_rate,oom_budget);
    int n=1+w_choose(14); sim_describe("%d operations on data sets, allocations fail with rate %g, %d in all",n,faulty?oom_rate:0.,oom_budget); 
    for (int i=0;i<n;i++) op();
    uint64_t h=FNV0; for (int i=0;i<NS;i++){ h^=data_hash(P[i])*31; drop(P[i]); } if (hits) sim_nontrivial(); sim_state(h^hits);
}
