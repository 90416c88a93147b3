#define _GNU_SOURCE
#include "common.h"
char *note_buf; size_t note_len;
static ssize_t sink(void *c,const char *b,size_t n){ (void)c;
    int s=mem_oom_scope; mem_oom_scope=0;
    if (note_len+n+1<200000){ if (!note_buf) note_buf=malloc(200001); memcpy(note_buf+note_len,b,n); note_len+=n; note_buf[note_len]=0; }
    mem_oom_scope=s; return n; }
void quiet(void){
    FILE *f=fopencookie(NULL,"w",(cookie_io_functions_t){NULL,sink,NULL,NULL}); setvbuf(f,NULL,_IONBF,0);
    apop_opts.log_file=f;
}
int same_d(double a,double b){ return (isnan(a)&&isnan(b)) || a==b; }
int close_d(double a,double b,double tol){ return same_d(a,b) || fabs(a-b)<=tol*(1+fabs(a)+fabs(b)); }
static char db[400];
const char *vec_diff(const gsl_vector *a,const gsl_vector *b){
    if (!a&&!b) return NULL; if (!a||!b) { snprintf(db,400,"one vector is NULL"); return db; }
    if (a->size!=b->size){ snprintf(db,400,"vector sizes %zu and %zu",a->size,b->size); return db; }
    for (size_t i=0;i<a->size;i++) if (!same_d(gsl_vector_get(a,i),gsl_vector_get(b,i))){ snprintf(db,400,"vector[%zu]: %.17g and %.17g",i,gsl_vector_get(a,i),gsl_vector_get(b,i)); return db; }
    return NULL; }
const char *mat_diff(const gsl_matrix *a,const gsl_matrix *b){
    if (!a&&!b) return NULL; if (!a||!b) { snprintf(db,400,"one matrix is NULL"); return db; }
    if (a->size1!=b->size1||a->size2!=b->size2){ snprintf(db,400,"matrix sizes %zux%zu and %zux%zu",a->size1,a->size2,b->size1,b->size2); return db; }
    for (size_t i=0;i<a->size1;i++) for (size_t j=0;j<a->size2;j++) if (!same_d(gsl_matrix_get(a,i,j),gsl_matrix_get(b,i,j))){ snprintf(db,400,"matrix[%zu,%zu]: %.17g and %.17g",i,j,gsl_matrix_get(a,i,j),gsl_matrix_get(b,i,j)); return db; }
    return NULL; }
static const char *sdiff(const char *w,int i,const char *a,const char *b){ if (!a&&!b) return NULL; if (!a||!b||strcmp(a,b)){ snprintf(db,400,"%s %d: '%.80s' and '%.80s'",w,i,a?a:"(null)",b?b:"(null)"); return db;} return NULL; }
const char *data_diff(const apop_data *a,const apop_data *b,int names){
    const char *r;
    if (!a&&!b) return NULL; if (!a||!b){ snprintf(db,400,"one data set is NULL"); return db; }
    if ((r=vec_diff(a->vector,b->vector))) return r;
    if ((r=mat_diff(a->matrix,b->matrix))) return r;
    if ((r=vec_diff(a->weights,b->weights))){ static char w[450]; snprintf(w,450,"weights: %s",r); return w; }
    if (a->textsize[0]!=b->textsize[0]||a->textsize[1]!=b->textsize[1]){ snprintf(db,400,"text sizes %zux%zu and %zux%zu",a->textsize[0],a->textsize[1],b->textsize[0],b->textsize[1]); return db; }
    for (size_t i=0;i<a->textsize[0];i++) for (size_t j=0;j<a->textsize[1];j++) if ((r=sdiff("text",i*1000+j,a->text[i][j],b->text[i][j]))) return r;
    if (names){
        const apop_name *x=a->names,*y=b->names; static apop_name e; if (!x) x=&e; if (!y) y=&e;
        if (x->colct!=y->colct||x->rowct!=y->rowct||x->textct!=y->textct){ snprintf(db,400,"name counts c %d/%d r %d/%d t %d/%d",x->colct,y->colct,x->rowct,y->rowct,x->textct,y->textct); return db; }
        for (int i=0;i<x->colct;i++) if ((r=sdiff("col name",i,x->col[i],y->col[i]))) return r;
        for (int i=0;i<x->rowct;i++) if ((r=sdiff("row name",i,x->row[i],y->row[i]))) return r;
        for (int i=0;i<x->textct;i++) if ((r=sdiff("text name",i,x->text[i],y->text[i]))) return r;
        if (names>1){ if ((r=sdiff("vector name",0,x->vector,y->vector))) return r; if ((r=sdiff("title",0,x->title,y->title))) return r; }
    }
    return NULL; }
const char *data_diff_pages(const apop_data *a,const apop_data *b,int names){
    for (; a||b; a=a?a->more:NULL,b=b?b->more:NULL){ const char *r=data_diff(a,b,names); if (r) return r; } return NULL; }
uint64_t dbl_hash(double x,uint64_t h){ if (isnan(x)) x=12345.678; if (x==0) x=0; return sim_hash(&x,8,h); }
uint64_t data_hash(const apop_data *d){ uint64_t h=FNV0; for (;d;d=d->more){
    if (d->vector) for (size_t i=0;i<d->vector->size;i++) h=dbl_hash(gsl_vector_get(d->vector,i),h);
    if (d->matrix) for (size_t i=0;i<d->matrix->size1;i++) for (size_t j=0;j<d->matrix->size2;j++) h=dbl_hash(gsl_matrix_get(d->matrix,i,j),h);
    if (d->weights) for (size_t i=0;i<d->weights->size;i++) h=dbl_hash(gsl_vector_get(d->weights,i),h);
    for (size_t i=0;i<d->textsize[0];i++) for (size_t j=0;j<d->textsize[1];j++) h=sim_hash(d->text[i][j],strlen(d->text[i][j])+1,h);
    h=sim_hash(&d->error,1,h); } return h; }
static gsl_vector *vcp(const gsl_vector *v){ if (!v) return NULL; gsl_vector *o=gsl_vector_alloc(v->size); gsl_vector_memcpy(o,v); return o; }
static char **ncp(char **n,int ct){ if (!ct) return NULL; char **o=calloc(ct,sizeof *o); for (int i=0;i<ct;i++) o[i]=n[i]?strdup(n[i]):NULL; return o; }
static unsigned long *hcp(unsigned long *h,int n){ if (!h) return NULL; unsigned long *o=malloc((n?n:1)*sizeof *h); memcpy(o,h,n*sizeof *h); return o; }
apop_data *deep_copy(const apop_data *d){
    if (!d) return NULL;
    apop_data *o=calloc(1,sizeof *o); o->error=d->error;
    o->vector=vcp(d->vector); o->weights=vcp(d->weights);
    if (d->matrix){ o->matrix=gsl_matrix_alloc(d->matrix->size1,d->matrix->size2); gsl_matrix_memcpy(o->matrix,d->matrix); }
    o->textsize[0]=d->textsize[0]; o->textsize[1]=d->textsize[1];
    if (d->textsize[0]&&d->textsize[1]){ o->text=calloc(d->textsize[0],sizeof *o->text); for (size_t i=0;i<d->textsize[0];i++){ o->text[i]=calloc(d->textsize[1],sizeof(char*)); for (size_t j=0;j<d->textsize[1];j++) o->text[i][j]=strdup(d->text[i][j]); } }
    o->names=calloc(1,sizeof *o->names);
    if (d->names){ apop_name *n=o->names; *n=*d->names; n->title=d->names->title?strdup(d->names->title):NULL; n->vector=d->names->vector?strdup(d->names->vector):NULL; n->col=ncp(d->names->col,n->colct); n->row=ncp(d->names->row,n->rowct); n->text=ncp(d->names->text,n->textct); n->colhash=hcp(n->colhash,n->colct); n->rowhash=hcp(n->rowhash,n->rowct); n->texthash=hcp(n->texthash,n->textct); }
    o->more=deep_copy(d->more);
    return o;
}
gsl_rng *rng_of(unsigned long seed){ gsl_rng *r=gsl_rng_alloc(gsl_rng_taus2); gsl_rng_set(r,seed); return r; }
int pick_threads(int max){ static const int t[]={2,2,3,2,4,3,5,6,8,12,1}; int n=t[w_choose(11)]; return n>max?max:n; }
