/* C01: the parallel map/apply family against a serial ledger. */
#include "common.h"
#define MAXP 3
#define MAXE 2000
typedef struct { apop_data *d, *orig; } page;
static page pg[MAXP]; static int npg;
static int mode_v, mutate;               // kind of function in use: 0 d, 1 v, 2 r
static int use_p, use_i; static double pv; static char part; static int inplace;
static int calls[MAXP][MAXE]; static int ncalls;
static int expect_ct;
/* every element has a unique value, so the harness knows which element a call is about */
static double val_of(int p,int kind,int i,int j){ return p*100000+kind*10000+i*100+j+0.5; }
static int dec(double x,int *p,int *kind,int *i,int *j){ if (!(x>0&&x<1e6) ) return 0; long v=(long)floor(x); if (x-v!=0.5) return 0; *p=v/100000; *kind=v/10000%10; *i=v/100%100; *j=v%100; return *p<npg; }
static double f_elem(double x,int idx){ return 3*x+(use_p?pv:0)+(use_i?0.25*idx:0); }
static void bump(int p,int e,const char *what){ CK(e>=0&&e<MAXE,"map:bad-element","%s: element %d",what,e); calls[p][e]++; ncalls++; CK(calls[p][e]==1,"map:visited-twice","%s: page %d element %d was visited %d times",what,p,e,calls[p][e]); }
static double on_d(double x,void *param,int idx,int gotp,int goti){
    int p,k,i,j; CK(dec(x,&p,&k,&i,&j),"map:bad-argument","the function received %.17g, which is no element of the input",x);
    if (gotp) CK(param==(void*)&pv,"map:bad-param","the function received a wrong parameter pointer");
    sim_point();
    apop_data *d=pg[p].orig;
    if (k==1) bump(p,i,"vector"); else { CK(k==2,"map:bad-argument","the function received a value (%.17g) from the wrong part",x); bump(p,100+i*40+j,"matrix"); }
    if (goti){ int want= k==1? i : d->matrix->size1<=d->matrix->size2 ? j : i; CK(idx==want,"map:bad-index","element (%d,%d) of kind %d came with index %d, not %d",i,j,k,idx,want); }
    return f_elem(x,idx);
}
static double f_vec(gsl_vector *v,int idx){ double s=0; for (size_t i=0;i<v->size;i++) s+=(i+1)*gsl_vector_get(v,i); return s+(use_p?pv:0)+(use_i?0.25*idx:0); }
static double on_v(gsl_vector *v,void *param,int idx,int gotp,int goti){
    int p,k,i,j; CK(v&&v->size>0,"map:bad-argument","the function received an empty vector");
    double x=gsl_vector_get(v,0);
    CK(dec(x,&p,&k,&i,&j)&&k==2,"map:bad-argument","the function received a vector starting with %.17g, which is no row or column of the input",x);
    apop_data *d=pg[p].orig; int row= part!='c';
    int n= row? d->matrix->size2 : d->matrix->size1; int which= row? i:j;
    CK((int)v->size==n,"map:bad-argument","the vector has %zu elements, not %d",v->size,n);
    if (gotp) CK(param==(void*)&pv,"map:bad-param","the function received a wrong parameter pointer");
    if (goti) CK(idx==which,"map:bad-index","%s %d came with index %d",row?"row":"column",which,idx);
    bump(p,which,row?"row":"column");
    for (int rep=0;rep<2;rep++){
        for (int q=0;q<n;q++){ double w=row?val_of(p,2,which,q):val_of(p,2,q,which); CK(gsl_vector_get(v,q)==w,"map:bad-argument","%s %d element %d is %.17g, not %.17g",row?"row":"column",which,q,gsl_vector_get(v,q),w); }
        sim_point_strong();
    }
    double out=f_vec(v,idx);
    if (mutate) for (int q=0;q<n;q++){ gsl_vector_set(v,q,-gsl_vector_get(v,q)); if (q%3==0) sim_point(); }
    return out;
}
static double f_row(int p,int i,int idx){ apop_data *d=pg[p].orig; double s=17*i; if (d->vector) s+=val_of(p,1,i,0); if (d->matrix) s+=val_of(p,2,i,0); if (d->weights) s+=val_of(p,3,i,0); return s+(use_p?pv:0)+(use_i?0.25*idx:0); }
static double on_r(apop_data *r,void *param,int idx,int gotp,int goti){
    int p,k,i,j; CK(r,"map:bad-argument","the function received no row");
    double key=r->matrix?gsl_matrix_get(r->matrix,0,0): r->vector?gsl_vector_get(r->vector,0): -1;
    int known=0;
    if (key!=-1){ CK(dec(key,&p,&k,&i,&j),"map:bad-argument","the function received a row that is not in the input (%.17g)",key); known=1; }
    else { CK(r->textsize[0]==1,"map:bad-argument","a text row with %zu rows",r->textsize[0]); CK(sscanf(r->text[0][0],"t%d_%d_",&p,&i)==2,"map:bad-argument","text row '%s'",r->text[0][0]); known=1; }
    (void)known;
    apop_data *d=pg[p].orig;
    if (gotp) CK(param==(void*)&pv,"map:bad-param","the function received a wrong parameter pointer");
    if (goti) CK(idx==i,"map:bad-index","row %d came with index %d",i,idx);
    bump(p,i,"row");
    for (int rep=0;rep<2;rep++){
        CK(!d->vector==!r->vector && !d->matrix==!r->matrix && !d->weights==!r->weights,"map:bad-argument","row %d lacks a part or has one too many",i);
        if (d->vector) CK(r->vector->size==1&&gsl_vector_get(r->vector,0)==val_of(p,1,i,0),"map:bad-argument","row %d has vector element %.17g",i,gsl_vector_get(r->vector,0));
        if (d->weights) CK(r->weights->size==1&&gsl_vector_get(r->weights,0)==val_of(p,3,i,0),"map:bad-argument","row %d has weight %.17g",i,gsl_vector_get(r->weights,0));
        if (d->matrix){ CK(r->matrix->size1==1&&r->matrix->size2==d->matrix->size2,"map:bad-argument","row %d is %zux%zu",i,r->matrix->size1,r->matrix->size2); for (size_t q=0;q<r->matrix->size2;q++) CK(gsl_matrix_get(r->matrix,0,q)==val_of(p,2,i,q),"map:bad-argument","row %d column %zu is %.17g",i,q,gsl_matrix_get(r->matrix,0,q)); }
        if (d->textsize[0]){ CK(r->textsize[0]==1&&r->textsize[1]==d->textsize[1],"map:bad-argument","row %d has text %zux%zu",i,r->textsize[0],r->textsize[1]); for (size_t q=0;q<r->textsize[1];q++) CK(!strcmp(r->text[0][q],d->text[i][q]),"map:bad-argument","row %d text %zu is '%s'",i,q,r->text[0][q]); }
        if (d->names&&d->names->rowct>i) CK(r->names&&r->names->rowct==1&&!strcmp(r->names->row[0],d->names->row[i]),"map:bad-argument","row %d has a wrong name",i);
        sim_point_strong();
    }
    double o=f_row(p,i,idx);
    if (mutate){ if (r->matrix) for (size_t q=0;q<r->matrix->size2;q++) gsl_matrix_set(r->matrix,0,q,-gsl_matrix_get(r->matrix,0,q)); if (r->vector) gsl_vector_set(r->vector,0,-gsl_vector_get(r->vector,0)); }
    return o;
}
static double w_d(double x){return on_d(x,0,0,0,0);} static double w_dp(double x,void*p){return on_d(x,p,0,1,0);} static double w_di(double x,int i){return on_d(x,0,i,0,1);} static double w_dpi(double x,void*p,int i){return on_d(x,p,i,1,1);}
static double w_v(gsl_vector*x){return on_v(x,0,0,0,0);} static double w_vp(gsl_vector*x,void*p){return on_v(x,p,0,1,0);} static double w_vi(gsl_vector*x,int i){return on_v(x,0,i,0,1);} static double w_vpi(gsl_vector*x,void*p,int i){return on_v(x,p,i,1,1);}
static double w_r(apop_data*x){return on_r(x,0,0,0,0);} static double w_rp(apop_data*x,void*p){return on_r(x,p,0,1,0);} static double w_ri(apop_data*x,int i){return on_r(x,0,i,0,1);} static double w_rpi(apop_data*x,void*p,int i){return on_r(x,p,i,1,1);}

static int dim(int max){ static const int s[]={1,2,3,4,5,7,9,13}; int v= w_chance(1,8)? 1+w_choose(max) : s[w_choose(8)]; return v>max?max:v; }
static apop_data *mkpage(int p,int needm,int needv,int text,int weights,int names,int v_is_cols){
    int r=dim(30), c=dim(20);
    apop_data *d= needm&&needv? apop_data_alloc(v_is_cols?c:r,r,c) : needm? apop_data_alloc(r,c) : needv? apop_data_alloc(r) : apop_data_alloc();
    if (needv) for (size_t i=0;i<d->vector->size;i++) gsl_vector_set(d->vector,i,val_of(p,1,i,0));
    if (needm) for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(d->matrix,i,j,val_of(p,2,i,j));
    if (weights){ d->weights=gsl_vector_alloc(r); for (int i=0;i<r;i++) gsl_vector_set(d->weights,i,val_of(p,3,i,0)); }
    if (text){ int tc=1+w_choose(3); apop_text_alloc(d,r,tc); for (int i=0;i<r;i++) for (int j=0;j<tc;j++) apop_text_set(d,i,j,"t%d_%d_%d",p,i,j); }
    if (names){ char b[30]; for (int i=0;i<r;i++){ sprintf(b,"row%d",i); apop_name_add(d->names,b,'r'); } if (needm) for (int j=0;j<c;j++){ sprintf(b,"col%d",j); apop_name_add(d->names,b,'c'); } if (needv) apop_name_add(d->names,"vecname",'v'); }
    return d;
}
static void setup_threads(void){ int n=pick_threads(16); sim_set_nthreads(n); sim_describe("threads=%d ",n); if (n>1 && w_chance(1,6)) f_enable(FK_THREADFEW,0.5,2); if (n>1) sim_nontrivial(); }

void scen_map(void){
    quiet(); apop_opts.verbose=-1;
    setup_threads();
    mode_v=w_choose(3); use_p=w_choose(2); use_i=w_choose(2); pv=1000.125;
    static const char ips[]={'n','y','v'}; inplace=ips[w_choose(3)];
    int sum=w_chance(1,4); if (sum) inplace='n';
    int dflt=w_chance(1,4);            // leave .part unset
    part = mode_v==0 ? "vma"[w_choose(3)] : mode_v==1 ? "rc"[w_choose(2)] : 'a';
    if (dflt) part= mode_v==1?'r':'a';
    npg=w_chance(1,4)?1+w_choose(MAXP):1; int all=w_chance(1,2);
    mutate = (mode_v==1||mode_v==2) && inplace=='v' && w_chance(1,2);
    int names=w_choose(2), weights=w_chance(1,3), text=w_chance(1,3);
    for (int p=0;p<npg;p++){
        int needm= mode_v==1? 1 : w_choose(3)!=1, needv= mode_v==1? w_chance(1,3) : w_choose(3)!=2;
        if (!needm&&!needv&&mode_v!=2) needv=1;
        if (mode_v==2 && !needm && !needv) text=1;
        if (mode_v==1&&part=='c'&&inplace=='y') needv=w_chance(1,2);
        pg[p].d=mkpage(p,needm,needv,text,weights,names,mode_v==1&&part=='c'&&inplace=='y');
        if (p) pg[p-1].d->more=pg[p].d;
    }
    for (int p=0;p<npg;p++){ apop_data *m=pg[p].d->more; pg[p].d->more=NULL; pg[p].orig=deep_copy(pg[p].d); pg[p].d->more=m; }
    sim_describe("fn_%c%s%s part=%c inplace=%c pages=%d/%s sum=%d mutate=%d first page: vector %zu matrix %zux%zu text %zu",
        "dvr"[mode_v],use_p?"p":"",use_i?"i":"",part,inplace,npg,all?"all":"first",sum,mutate,pg[0].orig->vector?pg[0].orig->vector->size:0,pg[0].orig->matrix?pg[0].orig->matrix->size1:0,pg[0].orig->matrix?pg[0].orig->matrix->size2:0,pg[0].orig->textsize[0]);
    apop_data *in=pg[0].d, *out=NULL; double s=0; char al=all?(w_choose(2)?'y':'Y'):'n';
    #define F(n,mv,pp,ii) .fn_##n=(mode_v==mv&&use_p==pp&&use_i==ii)?w_##n:NULL
    #define FNS F(d,0,0,0),F(dp,0,1,0),F(di,0,0,1),F(dpi,0,1,1),F(v,1,0,0),F(vp,1,1,0),F(vi,1,0,1),F(vpi,1,1,1),F(r,2,0,0),F(rp,2,1,0),F(ri,2,0,1),F(rpi,2,1,1)
    void *prm=use_p?&pv:NULL;
    sim_on_hang("map:hang");
    if (sum){ s = dflt? apop_map_sum(in,FNS,.param=prm,.all_pages=al) : apop_map_sum(in,FNS,.param=prm,.part=part,.all_pages=al); }
    else { out= dflt? apop_map(in,FNS,.param=prm,.inplace=inplace,.all_pages=al) : apop_map(in,FNS,.param=prm,.inplace=inplace,.part=part,.all_pages=al); }
    sim_event("calls %d sum %.17g out %d",ncalls,s,!!out);
    // ---- the ledger: each requested element exactly once, nothing else
    double wantsum=0; int np=all?npg:1;
    apop_data *o=out;
    for (int p=0;p<np;p++){
        apop_data *d=pg[p].orig; int want=0,got=0; for (int e=0;e<MAXE;e++) got+=calls[p][e];
        int nv=d->vector?d->vector->size:0,m1=d->matrix?d->matrix->size1:0,m2=d->matrix?d->matrix->size2:0; int rows=nv>m1?nv:m1; if ((int)d->textsize[0]>rows) rows=d->textsize[0];
        if (mode_v==0) want=(part!='m'?nv:0)+(part!='v'?m1*m2:0); else if (mode_v==1) want= part=='r'?m1:m2; else want=rows;
        CK(got==want,"map:missed-element","page %d: %d of %d requested elements were visited",p,got,want);
        // ---- expected output
        apop_data *e=NULL;   // expected
        if (mode_v==0){
            gsl_vector *ev=NULL; gsl_matrix *em=NULL;
            if (nv&&part!='m'){ ev=gsl_vector_alloc(nv); for (int i=0;i<nv;i++){ double x=f_elem(val_of(p,1,i,0),i); gsl_vector_set(ev,i,x); wantsum+=x; } }
            if (m1&&part!='v'){ em=gsl_matrix_alloc(m1,m2); for (int i=0;i<m1;i++) for (int j=0;j<m2;j++){ double x=f_elem(val_of(p,2,i,j),m1<=m2?j:i); gsl_matrix_set(em,i,j,x); wantsum+=x; } }
            e=deep_copy(d); if (inplace=='n'){ e->vector=e->weights=NULL; e->matrix=NULL; e->textsize[0]=e->textsize[1]=0; }
            if (ev) e->vector=ev; if (em) e->matrix=em;
        } else {
            int n= mode_v==2?rows: part=='r'?m1:m2; gsl_vector *ev=gsl_vector_alloc(n);
            for (int i=0;i<n;i++){ double x;
                if (mode_v==2) x=f_row(p,i,i);
                else { gsl_vector *v=gsl_vector_alloc(part=='r'?m2:m1); for (size_t q=0;q<v->size;q++) gsl_vector_set(v,q,part=='r'?val_of(p,2,i,q):val_of(p,2,q,i)); x=f_vec(v,i); }
                gsl_vector_set(ev,i,x); wantsum+=x; }
            e=deep_copy(d); if (inplace=='n'){ e->weights=NULL; e->matrix=NULL; e->textsize[0]=e->textsize[1]=0; e->vector=ev; }
            else if (inplace=='y'){ if (e->vector||mode_v==1) e->vector=ev; }
        }
        if (!sum){
            if (inplace=='v') { CK(!out,"map:wrong-output","asked for no output, but got a data set"); }
            else {
                CK(o,"map:wrong-output","page %d of the output is missing",p);
                if (inplace=='y') CK(o==pg[p].d,"map:wrong-output","in-place output is not the input");
                const char *r=vec_diff(o->vector,e->vector); if (!r) r=mat_diff(o->matrix,e->matrix); 
                CK(!r,"map:wrong-output","page %d: got/expected differ: %s",p,r);
                if (inplace=='y'){ r=data_diff(o,e,2); CK(!r,"map:wrong-output","page %d (in place): %s",p,r); }
                else if (names){ // "and the names from the original set"
                    apop_name *on=o->names,*in_=d->names; 
                    if (mode_v==1&&part=='c') { CK(on&&on->rowct==m2,"map:wrong-names","column map: %d row names, not %d",on?on->rowct:-1,m2); for (int i=0;i<m2;i++) CK(!strcmp(on->row[i],in_->col[i]),"map:wrong-names","output row %d is named %s",i,on->row[i]); }
                    else { CK(on&&on->rowct==in_->rowct,"map:wrong-names","%d row names, not %d",on?on->rowct:-1,in_->rowct); for (int i=0;i<on->rowct;i++) CK(!strcmp(on->row[i],in_->row[i]),"map:wrong-names","output row %d is named %s",i,on->row[i]); }
                    if (mode_v==0&&(part=='a'||part=='m')&&o->matrix){ CK(on->colct==in_->colct,"map:wrong-names","%d column names, not %d",on->colct,in_->colct); for (int i=0;i<on->colct;i++) CK(!strcmp(on->col[i],in_->col[i]),"map:wrong-names","output column %d is named %s",i,on->col[i]); }
                }
                CK(!o->error,"map:spurious-error","the output is marked with error '%c'",o->error);
                sim_state(data_hash(o));
            }
            if (o) o=o->more;
        }
        // ---- the input
        if (inplace!='y'){
            apop_data *e2=deep_copy(d);
            if (mutate){ if (e2->matrix) gsl_matrix_scale(e2->matrix,-1); if (mode_v==2&&e2->vector) gsl_vector_scale(e2->vector,-1); }
            apop_data *m=pg[p].d->more; pg[p].d->more=NULL; const char *r=data_diff(pg[p].d,e2,2); pg[p].d->more=m;
            CK(!r,"map:input-changed","page %d of the input was changed: %s",p,r);
        }
    }
    for (int p=np;p<npg;p++){ int got=0; for (int e=0;e<MAXE;e++) got+=calls[p][e]; CK(!got,"map:extra-page","page %d was not requested, but visited",p); 
        const char *r=data_diff(pg[p].d,pg[p].orig,2); CK(!r,"map:input-changed","page %d of the input was changed: %s",p,r); }
    if (sum) CK(close_d(s,wantsum,1e-12),"map:wrong-sum","sum %.17g, not %.17g",s,wantsum);
    if (out&&inplace=='n') apop_data_free(out);
    apop_data_free(pg[0].d);
}
/* ---- the older single-purpose functions */
static int vis[1000]; static gsl_matrix *om; static gsl_vector *ov; static int bym;
static double o_d(double x){ int i=(int)x/100, j=(int)x%100; CK(x==i*100+j+0.5&&i*25+j<1000,"map:bad-argument","received %.17g",x); sim_point(); CK(++vis[i*25+j]==1,"map:visited-twice","element %d,%d",i,j); return 7*x; }
static void o_dv(double *x){ double y=o_d(*x); sim_point(); *x=y; }
static double o_v(gsl_vector *v){ int i=(int)gsl_vector_get(v,0)/100; CK(i<40&&v->size==om->size2,"map:bad-argument","row of size %zu",v->size); CK(++vis[i]==1,"map:visited-twice","row %d",i); double s=0; for (size_t q=0;q<v->size;q++){ CK(gsl_vector_get(v,q)==i*100+q+0.5,"map:bad-argument","row %d column %zu is %.17g",i,q,gsl_vector_get(v,q)); s+=(q+1)*gsl_vector_get(v,q); if (q%2) sim_point(); } return s; }
static void o_vv(gsl_vector *v){ double s=o_v(v); for (size_t q=0;q<v->size;q++){ gsl_vector_set(v,q,s+q); sim_point(); } }
void scen_map_old(void){
    quiet(); apop_opts.verbose=-1; setup_threads();
    int op=w_choose(9), r=dim(30), c=dim(20);
    om=gsl_matrix_alloc(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) gsl_matrix_set(om,i,j,i*100+j+0.5);
    ov=gsl_vector_alloc(r); for (int i=0;i<r;i++) gsl_vector_set(ov,i,i*100+0.5);
    gsl_matrix *keep=gsl_matrix_alloc(r,c); gsl_matrix_memcpy(keep,om); gsl_vector *keepv=gsl_vector_alloc(r); gsl_vector_memcpy(keepv,ov);
    static const char *nm[]={"matrix_map","matrix_apply","vector_map","vector_apply","matrix_map_all","matrix_apply_all","vector_map_sum","matrix_map_all_sum","matrix_map_sum"};
    sim_describe("apop_%s %dx%d",nm[op],r,c);
    double rs[40]; double tot=0; for (int i=0;i<r;i++){ rs[i]=0; for (int j=0;j<c;j++) rs[i]+=(j+1)*(i*100+j+0.5); tot+=rs[i]; }
    int isv= op==2||op==3||op==6, rowwise= op==0||op==1||op==8; int chm=0,chv=0;
    if (op==0){ gsl_vector *o=apop_matrix_map(om,o_v); CK(o&&(int)o->size==r,"map:wrong-output","size"); for (int i=0;i<r;i++) CK(gsl_vector_get(o,i)==rs[i],"map:wrong-output","row %d: %.17g",i,gsl_vector_get(o,i)); gsl_vector_free(o); }
    if (op==1){ apop_matrix_apply(om,o_vv); for (int i=0;i<r;i++) for (int j=0;j<c;j++) CK(gsl_matrix_get(om,i,j)==rs[i]+j,"map:wrong-output","%d,%d: %.17g",i,j,gsl_matrix_get(om,i,j)); chm=1; }
    if (op==2){ gsl_vector *o=apop_vector_map(ov,o_d); CK(o&&(int)o->size==r,"map:wrong-output","size"); for (int i=0;i<r;i++) CK(gsl_vector_get(o,i)==7*(i*100+0.5),"map:wrong-output","%d: %.17g",i,gsl_vector_get(o,i)); gsl_vector_free(o); }
    if (op==3){ apop_vector_apply(ov,o_dv); for (int i=0;i<r;i++) CK(gsl_vector_get(ov,i)==7*(i*100+0.5),"map:wrong-output","%d: %.17g",i,gsl_vector_get(ov,i)); chv=1; }
    if (op==4){ gsl_matrix *o=apop_matrix_map_all(om,o_d); CK(o&&(int)o->size1==r&&(int)o->size2==c,"map:wrong-output","size"); for (int i=0;i<r;i++) for (int j=0;j<c;j++) CK(gsl_matrix_get(o,i,j)==7*(i*100+j+0.5),"map:wrong-output","%d,%d: %.17g",i,j,gsl_matrix_get(o,i,j)); gsl_matrix_free(o); }
    if (op==5){ apop_matrix_apply_all(om,o_dv); for (int i=0;i<r;i++) for (int j=0;j<c;j++) CK(gsl_matrix_get(om,i,j)==7*(i*100+j+0.5),"map:wrong-output","%d,%d: %.17g",i,j,gsl_matrix_get(om,i,j)); chm=1; }
    if (op==6){ double s=apop_vector_map_sum(ov,o_d),w=0; for (int i=0;i<r;i++) w+=7*(i*100+0.5); CK(close_d(s,w,1e-12),"map:wrong-sum","%.17g not %.17g",s,w); }
    if (op==7){ double s=apop_matrix_map_all_sum(om,o_d),w=0; for (int i=0;i<r;i++) for (int j=0;j<c;j++) w+=7*(i*100+j+0.5); CK(close_d(s,w,1e-12),"map:wrong-sum","%.17g not %.17g",s,w); }
    if (op==8){ double s=apop_matrix_map_sum(om,o_v); CK(close_d(s,tot,1e-12),"map:wrong-sum","%.17g not %.17g",s,tot); }
    for (int i=0;i<r;i++) if (rowwise) CK(vis[i]==1,"map:missed-element","row %d visited %d times",i,vis[i]); else for (int j=0;j<(isv?1:c);j++) CK(vis[i*25+j]==1,"map:missed-element","element %d,%d visited %d times",i,j,vis[i*25+j]);
    const char *q; if (!chm){ q=mat_diff(om,keep); CK(!q,"map:input-changed","%s",q); } if (!chv){ q=vec_diff(ov,keepv); CK(!q,"map:input-changed","%s",q); }
    sim_event("op %d",op);
}
