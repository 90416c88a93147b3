/* C28: summaries, linear algebra, least squares and tests, as several threads ask for them at once, on data they share or own, in any storage
layout.  The oracle is the defining formula, worked out here in long double. */
#include "common.h"
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_sf_gamma.h>
#ifndef M_PIl
#define M_PIl 3.141592653589793238462643383279502884L
#endif
enum { AN=40, AK=6, AT=4, AO=5 };
typedef long double ld;
typedef struct { uint64_t s; const char *op; uint64_t h; } hand;
static hand H[AT]; static apop_data *D; static ld X[AN][AK]; static double W[AN]; static int n,k,wt,own; static int plan[AT][AO]; static uint32_t seed[AT][AO]; static int nop,nthr;
#define OK(c,cls,...) CK(c,"arith:" cls,__VA_ARGS__)
static uint32_t rd(hand *h,uint32_t m){ return (sim_splitmix(&h->s)>>20)%m; }
static int near_(double a,ld b,ld scale){ if (isnan(a)||isnan((double)b)) return isnan(a)&&isnan((double)b); return fabsl(a-b)<=1e-9L*(1e-9L+scale+fabsl(b)); }
#define EQ(a,b,sc,cls,...) do { double a_=(a); ld b_=(b); if (!near_(a_,b_,sc)) { char w_[200]; snprintf(w_,200,__VA_ARGS__); sim_fail("arith:" cls,"%s is %.15g, where the definition gives %.15g (%d observations%s)",w_,a_,(double)b_,n,wt?", weighted":""); } h->h=dbl_hash((float)a_,h->h); } while(0)
static ld sumw(void){ ld t=0; for (int i=0;i<n;i++) t+=wt?W[i]:1; return t; }
static ld size(void){ ld s=sumw(); return !wt?n:s<1.1?n:s; }           // weights that sum to one stand for as many observations as there are
static ld mean(int j){ ld t=0; for (int i=0;i<n;i++) t+=(wt?W[i]:1)*X[i][j]; return t/sumw(); }
static ld moment(int j,int l,int p){ ld a=mean(j),b=mean(l),t=0; for (int i=0;i<n;i++){ ld z=wt?W[i]:1; t+= p==2? z*(X[i][j]-a)*(X[i][l]-b) : z*powl(X[i][j]-a,p); } return t/sumw(); } // population
static ld scale(int j,int p){ ld t=0; for (int i=0;i<n;i++) t=fmaxl(t,fabsl(X[i][j])); return powl(t,p); }
static ld cov(int j,int l){ ld N=size(); return moment(j,l,2)*N/(N-1); }
static int cmpd(const void *a,const void *b){ ld x=*(ld*)a,y=*(ld*)b; return (x>y)-(x<y); }
static void ordered(int j,ld *o){ for (int i=0;i<n;i++) o[i]=X[i][j]; qsort(o,n,sizeof *o,cmpd); }
static gsl_matrix *fresh(int a,int b,hand *h){ gsl_matrix *m=gsl_matrix_alloc(a,b); for (int i=0;i<a;i++) for (int j=0;j<b;j++) gsl_matrix_set(m,i,j,((int)rd(h,81)-40)/8.); return m; }
/* a by Gaussian elimination: the determinant, and the solution of a x = b for m right hand sides */
static ld solve(int q,ld a[][AN],int m,ld b[][AN]){ ld det=1; for (int c=0;c<q;c++){ int p=c; for (int i=c;i<q;i++) if (fabsl(a[i][c])>fabsl(a[p][c])) p=i; if (!a[p][c]) return 0; if (p!=c){ det=-det; for (int j=0;j<q;j++){ ld t=a[p][j]; a[p][j]=a[c][j]; a[c][j]=t; } for (int j=0;j<m;j++){ ld t=b[p][j]; b[p][j]=b[c][j]; b[c][j]=t; } } det*=a[c][c];
        for (int i=0;i<q;i++) if (i!=c){ ld f=a[i][c]/a[c][c]; for (int j=c;j<q;j++) a[i][j]-=f*a[c][j]; for (int j=0;j<m;j++) b[i][j]-=f*b[c][j]; } }
    for (int c=0;c<q;c++) for (int j=0;j<m;j++) b[c][j]/=a[c][c]; return det; }
static gsl_vector *wv(void){ return wt?D->weights:NULL; }

static void op_moments(hand *h){ int j=rd(h,k),t=rd(h,9); gsl_vector *v=Apop_cv(D,j),*w=wv(); switch(t){
    case 0: { ld s=0; for (int i=0;i<n;i++) s+=X[i][j]; h->op="apop_vector_sum"; EQ(apop_sum(v),s,scale(j,1)*n,"moments","the sum"); break; }
    case 1: h->op="apop_vector_mean"; EQ(apop_vector_mean(v,w),mean(j),scale(j,1),"moments","the mean"); break;
    case 2: h->op="apop_vector_var"; EQ(apop_vector_var(v,w),cov(j,j),scale(j,2),"moments","the variance"); break;
    case 3: h->op="apop_vector_skew_pop"; EQ(apop_vector_skew_pop(v,w),moment(j,0,3)*sumw()/ (wt?sumw():n),scale(j,3),"moments","the population skew"); break;
    case 4: h->op="apop_vector_kurtosis_pop"; EQ(apop_vector_kurtosis_pop(v,w),moment(j,0,4),scale(j,4),"moments","the population kurtosis"); break;
    case 5: if (!wt){ h->op="apop_vector_skew"; EQ(apop_vector_skew(v),moment(j,0,3)*n*n/((n-1.L)*(n-2.L)),scale(j,3)*2,"moments","the sample skew"); } break;
    case 6: if (!wt){ double m=(double)mean(j)+rd(h,3); ld s=0; for (int i=0;i<n;i++) s+=(X[i][j]-m)*(X[i][j]-m); h->op="apop_vector_var_m"; EQ(apop_vector_var_m(v,m),s/(n-1),scale(j,2),"moments","the variance about %g",m); } break;
    case 7: { int l=rd(h,k); h->op="apop_vector_cov"; EQ(apop_vector_cov(v,Apop_cv(D,l),w),cov(j,l),scale(j,1)*scale(l,1),"moments","the covariance"); break; }
    default: { int l=rd(h,k); ld a=cov(j,j),b=cov(l,l); if (a<1e-3*scale(j,2)||b<1e-3*scale(l,2)) break; h->op="apop_vector_correlation"; EQ(apop_vector_correlation(v,Apop_cv(D,l),w),cov(j,l)/sqrtl(a*b),100,"moments","the correlation"); } } }
static void op_covariances(hand *h){ int c=rd(h,2); for (int j=0;j<k;j++) if (cov(j,j)<1e-3*scale(j,2)) c=0; h->op=c?"apop_data_correlation":"apop_data_covariance"; apop_data *o=c?apop_data_correlation(D):apop_data_covariance(D); OK(o&&!o->error&&o->matrix&&(int)o->matrix->size1==k&&(int)o->matrix->size2==k,"covariances","%s has no answer",h->op);
    for (int i=0;i<k;i++) for (int j=0;j<k;j++){ ld w=cov(i,j); if (c) w/=sqrtl(cov(i,i)*cov(j,j)); EQ(gsl_matrix_get(o->matrix,i,j),w,c?100:scale(i,1)*scale(j,1),"covariances","%s: element %d,%d",h->op,i,j); }
    for (int j=0;j<k;j++) OK(j<o->names->colct&&j<o->names->rowct&&!strcmp(o->names->col[j],D->names->col[j])&&!strcmp(o->names->row[j],D->names->col[j]),"covariances","%s: name %d is lost",h->op,j); apop_data_free(o); }
static void op_summary(hand *h){ h->op="apop_data_summarize"; apop_data *o=apop_data_summarize(D); OK(o&&!o->error&&(int)o->matrix->size1==k,"summary","no summary"); for (int j=0;j<k;j++){ ld s[AN]; ordered(j,s); ld v=cov(j,j);
        EQ(apop_data_get(o,j,.colname="mean"),mean(j),scale(j,1),"summary","the mean of column %d",j); EQ(apop_data_get(o,j,.colname="variance"),v,scale(j,2),"summary","the variance of column %d",j); if (v>1e-3*scale(j,2)) EQ(apop_data_get(o,j,.colname="std dev"),sqrtl(v),scale(j,1)*10,"summary","the standard deviation of column %d",j);
        EQ(apop_data_get(o,j,.colname="min"),s[0],0,"summary","the minimum of column %d",j); EQ(apop_data_get(o,j,.colname="max"),s[n-1],0,"summary","the maximum of column %d",j); EQ(apop_data_get(o,j,.colname="median"),s[(n-1)/2],0,"summary","the median of column %d",j); OK(j<o->names->rowct&&!strcmp(o->names->row[j],D->names->col[j]),"summary","the name of column %d is lost",j); } apop_data_free(o); }
static void op_percentiles(hand *h){ int j=rd(h,k); char r="uda"[rd(h,3)]; ld s[AN]; ordered(j,s); h->op="apop_vector_percentiles"; double *p=apop_vector_percentiles(Apop_cv(D,j),r); OK(p,"percentiles","no percentiles"); for (int i=0;i<101;i++){ int at=i*(n-1)/100,exact=i*(n-1)%100==0; ld w= exact||r=='d'?s[at]:r=='u'?s[at+1]:(s[at]+s[at+1])/2; EQ(p[i],w,0,"percentiles","percentile %d (rounding '%c')",i,r); } free(p); }
static void op_distance(hand *h){ int j=rd(h,k),l=rd(h,k+1); char t="emdslEMDSL"[rd(h,10)]; double p=(double[]){1,2,3,0.5}[rd(h,4)]; gsl_vector *a=Apop_cv(D,j),*b=l<k?Apop_cv(D,l):NULL; ld w=0; char c=t|32; for (int i=0;i<n;i++){ ld z=fabsl(X[i][j]-(l<k?X[i][l]:0)); w= c=='e'?w+z*z : c=='m'?w+z : c=='d'?(z||w) : c=='s'?fmaxl(w,z) : w+powl(z,p); } if (c=='e') w=sqrtl(w); if (c=='l') w=powl(w,1/(ld)p); h->op="apop_vector_distance"; EQ(b?apop_vector_distance(a,b,t,p):apop_vector_distance(a,.metric=t,.norm=p),w,scale(j,1),"distance","the distance of kind '%c' (norm %g)%s",t,p,b?"":" from zero"); }
static void op_normalize(hand *h){ int j=rd(h,k),in=rd(h,2); char t="prsm"[rd(h,4)]; ld s[AN],v=0,m=0,sum=0; ordered(j,s); for (int i=0;i<n;i++){ sum+=X[i][j]; } m=sum/n; for (int i=0;i<n;i++) v+=(X[i][j]-m)*(X[i][j]-m); v/=n-1; ld big=scale(j,1); if ((t=='p'&&fabsl(sum)<=0.1*big)||(t=='r'&&s[n-1]-s[0]<=0.1*big)||(t=='s'&&v<=0.01*big*big)) return;
    h->op="apop_vector_normalize"; gsl_vector *c=apop_vector_copy(Apop_cv(D,j)),*o=NULL; if (in){ apop_vector_normalize(c,NULL,t); o=c; } else { apop_vector_normalize(c,&o,t); OK(o&&o!=c,"normalize","no output"); for (int i=0;i<n;i++) OK(gsl_vector_get(c,i)==(double)X[i][j],"normalize","the input has changed"); }
    for (int i=0;i<n;i++){ ld x=X[i][j]; EQ(gsl_vector_get(o,i),t=='p'?x/sum:t=='r'?(x-s[0])/(s[n-1]-s[0]):t=='s'?(x-m)/sqrtl(v):x-m,t=='m'?big:100,"normalize","element %d, normalised by '%c'",i,t); } if (o!=c) gsl_vector_free(o); gsl_vector_free(c); }
static void op_matrix(hand *h){ ld s=0,q=0,sc=0; for (int i=0;i<n;i++) for (int j=0;j<k;j++){ s+=X[i][j]; q+=X[i][j]*X[i][j]; sc=fmaxl(sc,fabsl(X[i][j])); } int N=n*k; ld m=s/N; h->op="apop_matrix_mean_and_var"; double a,v; apop_matrix_mean_and_var(D->matrix,&a,&v); EQ(a,m,sc,"matrix","the mean"); EQ(v,q/N-m*m,sc*sc,"matrix","the variance"); EQ(apop_matrix_mean(D->matrix),m,sc,"matrix","the mean"); EQ(apop_matrix_sum(D->matrix),s,sc*N,"matrix","the sum");
    for (int j=0;j<k;j++){ double lim=(double[]){INFINITY,(double)sc,(double)sc/2}[rd(h,3)]; int in=1; for (int i=0;i<n;i++) in&=fabsl(X[i][j])<=lim; OK(apop_vector_bounded(Apop_cv(D,j),lim)==in,"matrix","apop_vector_bounded for a limit of %g",lim); }
    gsl_vector *c=apop_vector_copy(Apop_cv(D,0)); gsl_vector_set(c,0,(double[]){NAN,INFINITY,-INFINITY}[rd(h,3)]); OK(!apop_vector_bounded(c),"matrix","a vector that is not finite is bounded"); for (int i=0;i<n;i++) gsl_vector_set(c,i,1+i/3.); int f=rd(h,3); h->op="vector logs"; if (f==0) apop_vector_log(c); else if (f==1) apop_vector_log10(c); else apop_vector_exp(c); for (int i=0;i<n;i++){ ld x=1+i/3.; EQ(gsl_vector_get(c,i),f==0?logl(x):f==1?log10l(x):expl(x),1,"matrix","element %d of a %s",i,f==0?"log":f==1?"log10":"exp"); } gsl_vector_free(c); }
/* every combination of vector and matrix, transposed or not */
static void op_dot(hand *h){ apop_data *a=apop_data_alloc(),*b=apop_data_alloc(); int r=1+rd(h,4),c=1+rd(h,4),e=1+rd(h,4),p1=1+rd(h,3),p2=1+rd(h,3),fit=rd(h,5)!=4; char f1="\0tnvp"[rd(h,5)],f2="\0tnvp"[rd(h,5)]; int t1=f1=='t'||f1=='p',t2=f2=='t'||f2=='p',lm=(p1&2)&&f1!='v',rm=(p2&2)&&f2!='v';
    if (p1&2) a->matrix=t1?fresh(c,r,h):fresh(r,c,h); if (p2&2){ int z=fit?c:c+1; b->matrix=t2?fresh(e,z,h):fresh(z,e,h); } if (p1&1){ a->vector=gsl_vector_alloc(lm?2:c); for (size_t i=0;i<a->vector->size;i++) gsl_vector_set(a->vector,i,rd(h,9)-4.); } if (p2&1){ b->vector=gsl_vector_alloc(rm?2:fit?c:c+1); for (size_t i=0;i<b->vector->size;i++) gsl_vector_set(b->vector,i,rd(h,9)-4.); }
    for (int i=0;a->matrix&&i<(int)a->matrix->size1;i++) apop_name_add(a->names,(char[]){'a','0'+i,0},'r'); for (int i=0;b->matrix&&i<(int)b->matrix->size2;i++) apop_name_add(b->names,(char[]){'b','0'+i,0},'c'); if (a->matrix) for (int i=0;i<(int)a->matrix->size2;i++) apop_name_add(a->names,(char[]){'c','0'+i,0},'c'); if (b->matrix) for (int i=0;i<(int)b->matrix->size1;i++) apop_name_add(b->names,(char[]){'d','0'+i,0},'r');
    int have=(lm||(p1&1))&&(rm||(p2&1)); h->op="apop_dot"; apop_data *ac=deep_copy(a),*bc=deep_copy(b),*o=apop_dot(a,b,f1,f2);
    if (!have) OK(!o,"dot","a dot product of a part that is not there"); else { OK(o,"dot","no dot product"); 
        if (!fit){ OK(o->error=='d'||o->error=='m',"dot","a dot product of sizes that don't match has error mark '%c'",o->error?o->error:'-'); sim_probe("sizes that don't match"); }
        else { OK(!o->error,"dot","error mark '%c'",o->error); int R=lm?r:1,C=rm?e:1; if (lm&&rm) OK(o->matrix&&!o->vector&&(int)o->matrix->size1==R&&(int)o->matrix->size2==C,"dot","matrix by matrix has the wrong shape"); else OK(o->vector&&!o->matrix&&(int)o->vector->size==(lm?R:C),"dot","the vector has the wrong size");
            for (int i=0;i<R;i++) for (int j=0;j<C;j++){ ld t=0; for (int z=0;z<c;z++) t+=(ld)(lm?gsl_matrix_get(a->matrix,t1?z:i,t1?i:z):gsl_vector_get(a->vector,z))*(rm?gsl_matrix_get(b->matrix,t2?j:z,t2?z:j):gsl_vector_get(b->vector,z)); EQ(lm&&rm?gsl_matrix_get(o->matrix,i,j):gsl_vector_get(o->vector,lm?i:j),t,100,"dot","element %d,%d of a dot product (forms '%c' and '%c')",i,j,f1?f1:'0',f2?f2:'0'); }
            if (lm) for (int i=0;i<r;i++) OK(i<o->names->rowct&&o->names->row[i][0]==(t1?'c':'a')&&o->names->row[i][1]=='0'+i,"dot","row name %d",i); if (rm) for (int i=0;i<e;i++) OK(i<o->names->colct&&o->names->col[i][0]==(t2?'d':'b')&&o->names->col[i][1]=='0'+i,"dot","column name %d",i); } apop_data_free(o); }
    const char *q=data_diff(a,ac,2); if (!q) q=data_diff(b,bc,2); OK(!q,"dot","a factor has changed: %s",q); apop_data_free(ac); apop_data_free(bc); apop_data_free(a); apop_data_free(b); }
static void op_inverse(hand *h){ int q=1+rd(h,5),kind=rd(h,5); gsl_matrix *big=fresh(q+1,q+2,h),m=gsl_matrix_submatrix(big,1,1,q,q).matrix; for (int i=0;i<q;i++) if (kind!=4) gsl_matrix_set(&m,i,i,gsl_matrix_get(&m,i,i)+6); if (kind==3) for (int j=0;j<q;j++) gsl_matrix_set(&m,q-1,j,0);
    ld a[AN][AN],b[AN][AN]; for (int i=0;i<q;i++) for (int j=0;j<q;j++){ a[i][j]=gsl_matrix_get(&m,i,j); b[i][j]=i==j; } ld det=solve(q,a,q,b); if (det&&fabsl(det)<0.5) { gsl_matrix_free(big); return; } ld sc=powl(15,q); h->op="apop_det_and_inv"; gsl_matrix *o=NULL; double d=0; int how=rd(h,3); if (how==0) d=apop_det_and_inv(&m,&o,1,1); else if (how==1) d=apop_matrix_determinant(&m); else o=apop_matrix_inverse(&m);
    if (det){ if (how<2) EQ(d,det,sc,"inverse","the determinant of a %d x %d matrix",q,q); if (how!=1){ OK(o,"inverse","no inverse of a regular matrix"); for (int i=0;i<q;i++) for (int j=0;j<q;j++) EQ(gsl_matrix_get(o,i,j),b[i][j],sc*10,"inverse","element %d,%d of an inverse",i,j); } }
    else { sim_probe("singular matrix"); if (how==1) OK(isnan(d)||fabs(d)<=1e-9*(double)sc,"inverse","the determinant of a singular matrix is %g",d); if (how==2&&kind==3) /* a row of zeros: no rounding */ OK(!o,"inverse","a singular matrix has an inverse"); }
    if (o) gsl_matrix_free(o); gsl_matrix_view nv=gsl_matrix_submatrix(big,0,0,q+1,q+2); o=(gsl_matrix*)1; d=apop_det_and_inv(&nv.matrix,&o,1,1); OK(isnan(d)&&!o,"inverse","a matrix that is not square has an inverse"); gsl_matrix_free(big); }
static void op_pca(hand *h){ int dims=1+rd(h,k); gsl_matrix *c=gsl_matrix_alloc(n,k); for (int i=0;i<n;i++) for (int j=0;j<k;j++) gsl_matrix_set(c,i,j,X[i][j]); h->op="apop_matrix_pca"; apop_data *o=dims==k&&rd(h,2)?apop_matrix_pca(c):apop_matrix_pca(c,dims); OK(o&&!o->error&&(int)o->matrix->size1==k&&(int)o->matrix->size2==dims&&(int)o->vector->size==dims,"pca","no components"); ld S[AK][AK],tr=0,kept=0,sc=0; int w0=wt; (void)w0;
    for (int i=0;i<k;i++) for (int j=0;j<k;j++){ ld a=0,b=0,t=0; for (int z=0;z<n;z++){ a+=X[z][i]; b+=X[z][j]; } a/=n; b/=n; for (int z=0;z<n;z++) t+=(X[z][i]-a)*(X[z][j]-b); S[i][j]=t; if (i==j) tr+=t; } if (tr<=1e-3) { gsl_matrix_free(c); apop_data_free(o); return; } sc=tr;
    for (int q=0;q<dims;q++){ ld ev=gsl_vector_get(o->vector,q); kept+=ev; if (q) OK(ev<=gsl_vector_get(o->vector,q-1)*(1+1e-9),"pca","component %d has more weight than the one before",q); for (int p=0;p<=q;p++){ ld t=0; for (int i=0;i<k;i++) t+=(ld)gsl_matrix_get(o->matrix,i,p)*gsl_matrix_get(o->matrix,i,q); OK(fabsl(t-(p==q))<1e-7,"pca","components %d and %d have product %g",p,q,(double)t); }
        for (int i=0;i<k;i++){ ld t=0; for (int j=0;j<k;j++) t+=S[i][j]*gsl_matrix_get(o->matrix,j,q); OK(fabsl(t-ev*tr*gsl_matrix_get(o->matrix,i,q))<=1e-6*sc,"pca","component %d with weight %g is not an eigenvector (element %d: %g)",q,(double)ev,i,(double)t); } }
    OK(kept<=1+1e-9&&(dims<k||fabsl(kept-1)<1e-7),"pca","the weights of %d of %d components have sum %.9g",dims,k,(double)kept); apop_data_free(o); gsl_matrix_free(c); }
static void op_stack(hand *h){ int in=rd(h,2); if (rd(h,2)){ int a=rd(h,k),b=rd(h,k),none=rd(h,6); gsl_vector *u=none==1?NULL:apop_vector_copy(Apop_cv(D,a)),*v=none==2?NULL:Apop_cv(D,b); h->op="apop_vector_stack"; gsl_vector *o=apop_vector_stack(u,v,.inplace=in?'y':'n'); int nu=u||none==1?(none==1?0:n):0,nv=v?n:0; OK(o&&(int)o->size==nu+nv,"stack","%s gives %d elements",h->op,o?(int)o->size:0); if (in&&u) OK(o==u,"stack","%s: not in place",h->op); for (int i=0;i<nu+nv;i++) OK(gsl_vector_get(o,i)==(double)(i<nu?X[i][a]:X[i-nu][b]),"stack","%s: element %d",h->op,i); if (u&&u!=o){ for (int i=0;i<n;i++) OK(gsl_vector_get(u,i)==(double)X[i][a],"stack","%s: input",h->op); gsl_vector_free(u); } gsl_vector_free(o); }
    else { char p="rc"[rd(h,2)]; int bad=rd(h,8)==7,r=1+rd(h,4),c=1+rd(h,4),r2=p=='r'?1+rd(h,4):r+bad,c2=p=='c'?1+rd(h,4):c+bad; gsl_matrix *a=fresh(r,c,h),*b=fresh(r2,c2,h),*ac=apop_matrix_copy(a); h->op="apop_matrix_stack"; gsl_matrix *o=apop_matrix_stack(a,b,p,in?'y':'n'); if (bad) OK(!o,"stack","matrices that don't fit are stacked"); else { int R=p=='r'?r+r2:r,C=p=='c'?c+c2:c; OK(o&&(int)o->size1==R&&(int)o->size2==C,"stack","%s: shape",h->op); for (int i=0;i<R;i++) for (int j=0;j<C;j++) OK(gsl_matrix_get(o,i,j)==(i<r&&j<c?gsl_matrix_get(ac,i,j):gsl_matrix_get(b,p=='r'?i-r:i,p=='c'?j-c:j)),"stack","%s ('%c', in place %d): element %d,%d",h->op,p,in,i,j); if (in) OK(o==a,"stack","%s: not in place",h->op); else OK(!mat_diff(a,ac),"stack","%s changed its input",h->op); } if (o&&o!=a) gsl_matrix_free(o); gsl_matrix_free(a); gsl_matrix_free(ac); gsl_matrix_free(b); } }
static void op_psd(hand *h){ int q=1+rd(h,4); gsl_matrix *a=fresh(q,q,h),*m=gsl_matrix_alloc(q,q); gsl_blas_dgemm(CblasTrans,CblasNoTrans,1,a,a,0,m); for (int i=0;i<q;i++) gsl_matrix_set(m,i,i,gsl_matrix_get(m,i,i)+1); h->op="apop_matrix_is_positive_semidefinite"; OK(apop_matrix_is_positive_semidefinite(m,"sd"[rd(h,2)])==1,"psd","a positive definite matrix is not semidefinite"); gsl_matrix *c=apop_matrix_copy(m); h->op="apop_matrix_to_positive_semidefinite"; OK(apop_matrix_to_positive_semidefinite(m)==0&&!mat_diff(m,c),"psd","a positive definite matrix is changed");
    int z=rd(h,q); gsl_matrix_set(c,z,z,-gsl_matrix_get(c,z,z)); OK(apop_matrix_is_positive_semidefinite(c)==0,"psd","a matrix with %g on its diagonal is semidefinite",gsl_matrix_get(c,z,z)); if (q>1){ double d=apop_matrix_to_positive_semidefinite(c); OK(d>0,"psd","the distance is %g",d); for (int t=0;t<8;t++){ ld x[AK],s=0; for (int i=0;i<q;i++) x[i]=(int)rd(h,21)-10; for (int i=0;i<q;i++) for (int j=0;j<q;j++) s+=x[i]*x[j]*gsl_matrix_get(c,i,j); OK(s>=-1e-6,"psd","a form of the matrix made semidefinite is %g",(double)s); } for (int i=0;i<q;i++) for (int j=0;j<i;j++) OK(fabs(gsl_matrix_get(c,i,j)-gsl_matrix_get(c,j,i))<1e-8,"psd","not symmetric"); } gsl_matrix_free(a); gsl_matrix_free(m); gsl_matrix_free(c); }
/* least squares: the data given with the dependent variable in the vector, or in column zero */
static double info(apop_model *e,const char *name){ for (int i=0;i<e->info->names->rowct;i++) if (!strcasecmp(e->info->names->row[i],name)) return gsl_vector_get(e->info->vector,i); return NAN; }
static void op_ols(hand *h){ int q=1+rd(h,4),N=q+2+rd(h,12),vec=rd(h,2),wtd=rd(h,2),iv=rd(h,4)==3&&q>1,destroy=0; ld x[AN][AK],z[AN][AK],y[AN],w[AN]; apop_data *d=vec?apop_data_alloc(N,N,q):apop_data_alloc(N,q); (void)destroy; ld ws=0;
    for (int i=0;i<N;i++){ x[i][0]=1; for (int j=1;j<q;j++) x[i][j]=((int)rd(h,81)-40)/8.; y[i]=2; for (int j=1;j<q;j++) y[i]+=j*x[i][j]; y[i]+=((int)rd(h,81)-40)/20.; w[i]=wtd?1+rd(h,4):1; ws+=w[i]; for (int j=0;j<q;j++) z[i][j]=x[i][j]; if (iv) z[i][1]=x[i][1]+((int)rd(h,41)-20)/8.; for (int j=0;j<q;j++) gsl_matrix_set(d->matrix,i,j,j||vec?x[i][j]:y[i]); if (vec) gsl_vector_set(d->vector,i,y[i]); }
    if (wtd){ d->weights=gsl_vector_alloc(N); for (int i=0;i<N;i++) gsl_vector_set(d->weights,i,w[i]); } if (vec) apop_name_add(d->names,"why",'v'); for (int j=0;j<q;j++) apop_name_add(d->names,vec&&!j?"one":!j?"why":(char[]){'x','0'+j,0},'c');
    if (iv) wtd=0,d->weights?gsl_vector_free(d->weights):(void)0,d->weights=NULL; if (!wtd) for (int i=0;i<N;i++) w[i]=1;
    ld a[AN][AN],b[AN][AN]; for (int i=0;i<q;i++){ b[i][0]=0; for (int r=0;r<N;r++) b[i][0]+=w[r]*z[r][i]*y[r]; for (int j=0;j<q;j++){ a[i][j]=0; b[i][j+1]=i==j; for (int r=0;r<N;r++) a[i][j]+=w[r]*z[r][i]*x[r][j]; } } ld det=solve(q,a,q+1,b),big=0; for (int i=0;i<q;i++) for (int j=0;j<=q;j++) big=fmaxl(big,fabsl(b[i][j])); if (fabsl(det)<1||big>1e3){ apop_data_free(d); return; }
    apop_model *m=apop_model_copy(iv?apop_iv:apop_ols); if (iv){ apop_data *in=apop_data_alloc(N,1); for (int i=0;i<N;i++) gsl_matrix_set(in->matrix,i,0,z[i][1]); if (rd(h,2)) apop_name_add(in->names,"x1",'c'); else { in->vector=gsl_vector_alloc(1); gsl_vector_set(in->vector,0,1); } Apop_model_add_group(m,apop_lm,.instruments=in); sim_probe("instruments"); }
    int o_cov='y',o_pred='y',opt=iv?0:rd(h,6); if (opt==1||opt==3) o_cov='n'; if (opt==2||opt==3) o_pred='n'; if (opt>0&&opt<4){ Apop_model_add_group(m,apop_lm,.want_cov=o_cov,.want_expected_value=o_pred); sim_probe("parts of least squares"); } h->op=iv?"apop_iv":wtd?"apop_ols with weights":"apop_ols"; apop_model *e=apop_estimate(d,m); OK(e&&!e->error&&e->parameters&&e->parameters->vector&&(int)e->parameters->vector->size==q,"ols","%s has no answer",h->op); double *beta=gsl_vector_ptr(e->parameters->vector,0); for (int j=0;j<q;j++) OK(near_(beta[j],b[j][0],big*100),"ols","%s: coefficient %d of %d is %.12g, where the normal equations give %.12g (%d observations, dependent variable in the %s)",h->op,j,q,beta[j],(double)b[j][0],N,vec?"vector":"matrix");
    ld res[AN],sse=0,rss=0,sst=0,ym=0; for (int i=0;i<N;i++){ ld p=0; for (int j=0;j<q;j++) p+=x[i][j]*b[j][0]; res[i]=y[i]-p; sse+=w[i]*res[i]*res[i]; rss+=res[i]*res[i]; ym+=w[i]*y[i]; } ws=0; for (int i=0;i<N;i++) ws+=w[i]; ym/=ws; for (int i=0;i<N;i++) sst+=w[i]*(y[i]-ym)*(y[i]-ym);
    apop_data *p=apop_data_get_page(e->info,"<Predicted>"); if (o_pred=='n') OK(!p,"ols","predictions that were not asked for"); else { OK(p&&p->matrix&&(int)p->matrix->size1==N,"ols","%s: no predictions",h->op); for (int i=0;i<N;i++){ double o=gsl_matrix_get(p->matrix,i,0),f=gsl_matrix_get(p->matrix,i,1),r=gsl_matrix_get(p->matrix,i,2); OK(near_(o,y[i],1)&&near_(f,y[i]-res[i],big*100)&&near_(r,res[i],big*100),"ols","%s: row %d has %g, predicted %g, residual %g, where the definition gives %g, %g, %g",h->op,i,o,f,r,(double)y[i],(double)(y[i]-res[i]),(double)res[i]); } }
    ld s2=sse/(N-q); apop_data *c=apop_data_get_page(e->parameters,"<Covariance>"); OK((o_cov=='n'&&o_pred=='n')||(c&&c->matrix&&(int)c->matrix->size1==q),"ols","%s: no covariance",h->op); ld C[AK][AK]; for (int i=0;i<q;i++) for (int j=0;j<q;j++){ if (!iv) C[i][j]=s2*b[i][j+1]; else { C[i][j]=0; for (int u=0;u<q;u++) for (int v=0;v<q;v++){ ld zz=0; for (int r=0;r<N;r++) zz+=z[r][u]*z[r][v]; C[i][j]+=s2*b[i][u+1]*zz*b[j][v+1]; } } if (c) OK(near_(gsl_matrix_get(c->matrix,i,j),C[i][j],(1+s2)*big*1000),"ols","%s: covariance %d,%d is %.12g, where the definition gives %.12g",h->op,i,j,gsl_matrix_get(c->matrix,i,j),(double)C[i][j]); }
    if (!iv){ if (o_pred=='y') { EQ(info(e,"SSE"),sse,1+sse,"ols","%s: SSE",h->op); EQ(info(e,"SST"),sst,1+sst,"ols","%s: SST",h->op); EQ(info(e,"SSR"),sst-sse,1+sst,"ols","%s: SSR",h->op); if (sst>1e-3) EQ(info(e,"R squared"),1-sse/sst,1000,"ols","%s: R squared",h->op); if (o_cov=='y') OK(info(e,"df")==N-q,"ols","%s: %g degrees of freedom instead of %d",h->op,info(e,"df"),N-q); }
        apop_data *t=apop_data_get_page(e->info,"<test info>"); if (o_cov=='y') OK(t,"ols","%s: no tests",h->op); for (int j=0;o_cov=='y'&&j<q;j++){ double sd=sqrt((double)C[j][j]),conf=sd>1e-6?2*fabs(0.5-gsl_cdf_tdist_P(-(double)b[j][0]/sd,N-q)):NAN; if (isnan(conf)) continue; double g=apop_data_get(t,j,.colname="confidence"),pv=apop_data_get(t,j,.colname="p value"); OK(fabs(g-conf)<1e-6&&fabs(g+pv-1)<1e-9,"ols","%s: coefficient %d has confidence %g and p value %g, where its t distribution gives %g",h->op,j,g,pv,conf); }
        if (!wtd&&opt!=3&&opt!=1&&sse>1e-3){ ld ll=0; for (int i=0;i<N;i++) ll+=-res[i]*res[i]/s2/2-logl(2*M_PIl*s2)/2; double g=info(e,"log likelihood"); OK(near_(g,ll,1000),"ols","log likelihood %.12g, where the definition gives %.12g",g,(double)ll); double aic=info(e,"AIC"); OK(near_(aic,2*q-2*ll,1000),"ols","AIC %.12g, where the definition gives %.12g",aic,(double)(2*q-2*ll)); } }
    /* what it predicts for other inputs */
    if (!iv){ int M=1+rd(h,4); apop_data *nw=apop_data_alloc(M,M,q); ld want[8]; for (int i=0;i<M;i++){ want[i]=b[0][0]; gsl_matrix_set(nw->matrix,i,0,1); for (int j=1;j<q;j++){ double v=((int)rd(h,41)-20)/4.; gsl_matrix_set(nw->matrix,i,j,v); want[i]+=v*b[j][0]; } gsl_vector_set(nw->vector,i,-77); } apop_data *o=apop_predict(nw,e); OK(o&&o->vector,"ols","%s: no prediction",h->op); for (int i=0;i<M;i++) OK(near_(gsl_vector_get(o->vector,i),want[i],big*100),"ols","%s: %g is predicted for row %d of new data, where the coefficients give %g",h->op,gsl_vector_get(o->vector,i),i,(double)want[i]); apop_data_free(nw); }
    if (wtd) sim_probe("weighted least squares"); h->h=dbl_hash((float)beta[0],h->h); apop_model_free(e); apop_model_free(m); apop_data_free(d); }
static void op_test(hand *h){ double s=((int)rd(h,61)-30)/8.,p1=1+rd(h,9),p2=1+rd(h,7); char t="ula"[rd(h,3)]; int c=rd(h,6); h->op="apop_test"; double g,w; switch(c){
    case 0: { double mu=p1-4,x=mu+s*p2; int def=rd(h,3); if (def==2){ mu=0; p2=1; x=s; } g=def==2?apop_test(x,.tail=t):apop_test(x,def?"normal":"Gaussian",mu,p2,t); w=t=='u'?gsl_cdf_gaussian_Q(x-mu,p2):t=='l'?gsl_cdf_gaussian_P(x-mu,p2):2*gsl_cdf_gaussian_Q(fabs(x-mu),p2); break; }
    case 1: g=apop_test(s,"t",p1,.tail=t); w=t=='u'?gsl_cdf_tdist_Q(s,p1):t=='l'?gsl_cdf_tdist_P(s,p1):2*gsl_cdf_tdist_Q(fabs(s),p1); break;
    case 2: s=fabs(s); if (t=='a') t='u'; g=apop_test(s,"f",p1,p2,t); w=t=='u'?gsl_cdf_fdist_Q(s,p1,p2):gsl_cdf_fdist_P(s,p1,p2); break;
    case 3: s=fabs(s); if (t=='a') g=apop_test(s,"chi squared",p1); else g=apop_test(s,rd(h,2)?"chi":"chisq",p1,.tail=t); w=t!='l'?gsl_cdf_chisq_Q(s,p1):gsl_cdf_chisq_P(s,p1); break;
    case 4: s=fabs(s); if (t=='a') t='l'; g=apop_test(s,"lognormal",p1-4,p2,t); w=s<=0?t=='u':t=='u'?gsl_cdf_lognormal_Q(s,p1-4,p2):gsl_cdf_lognormal_P(s,p1-4,p2); break;
    default: { double lo=p1-5,hi=lo+p2,x=lo+p2*(rd(h,13)-2)/8.; if (!hi) hi+=1; g=apop_test(x,"uniform",lo,hi,t); double u=x<=lo?0:x>=hi?1:(x-lo)/(hi-lo); w=t=='u'?1-u:t=='l'?u:2*fmin(u,1-u); } }
    OK(near_(g,w,1),"test","the test number %d of %g, with parameters %g and %g and tail '%c', gives %.12g, where the distribution gives %.12g",c,s,p1,p2,t,g,w); h->h=dbl_hash((float)g,h->h); }
static void t_parts(hand *h,apop_data *o,ld diff,int df,ld sc){ OK(o&&!o->error&&o->vector,"t","%s has no answer",h->op); double st=apop_data_get(o,.rowname="t statistic"),p1=apop_data_get(o,.rowname="p value, 1 tail"),c1=apop_data_get(o,.rowname="confidence, 1 tail"),p2=apop_data_get(o,.rowname="p value, 2 tail"),c2=apop_data_get(o,.rowname="confidence, 2 tail");
    EQ(apop_data_get(o,.rowname="mean left - right"),diff,sc,"t","%s: the difference of the means",h->op); OK(apop_data_get(o,.rowname="df")==df,"t","%s: %g degrees of freedom instead of %d",h->op,apop_data_get(o,.rowname="df"),df); if (isnan(st)||isinf(st)) return; double q=gsl_cdf_tdist_Q(fabs(st),df); OK(fabs(p1-q)<1e-9&&fabs(c1-(1-q))<1e-9&&fabs(p2-2*q)<1e-9&&fabs(c2-(1-2*q))<1e-9,"t","%s: t = %g with %d degrees of freedom has p values %g and %g, confidences %g and %g, where the distribution gives p values %g and %g",h->op,st,df,p1,p2,c1,c2,q,2*q); }
static void op_t(hand *h){ int a=rd(h,k),b=rd(h,k),w0=wt; ld ma=0,mb=0; (void)w0; for (int i=0;i<n;i++){ ma+=X[i][a]/n; mb+=X[i][b]/n; } ld sc=scale(a,1)+scale(b,1); gsl_vector *u=Apop_cv(D,a),*v=Apop_cv(D,b); if (a==b) return; int v0=apop_opts.verbose; (void)v0;
    if (rd(h,2)){ h->op="apop_paired_t_test"; apop_data *o=apop_paired_t_test(u,v),*r=apop_paired_t_test(v,u); t_parts(h,o,ma-mb,n-1,sc); double s=apop_data_get(o,.rowname="t statistic"),z=apop_data_get(r,.rowname="t statistic"); OK(isnan(s)||isinf(s)||near_(s,-z,fabs(s)),"t","%s gives %g one way and %g the other",h->op,s,z); apop_data_free(o); apop_data_free(r); }
    else { int m=2+rd(h,n-1); ld mm=0; for (int i=0;i<m;i++) mm+=X[i][b]/m; gsl_vector s=gsl_vector_subvector(v,0,m).vector; h->op="apop_t_test"; apop_data *o=apop_t_test(u,&s),*r=apop_t_test(&s,u); t_parts(h,o,ma-mm,n+m-2,sc); double x=apop_data_get(o,.rowname="t statistic"),z=apop_data_get(r,.rowname="t statistic"); OK(isnan(x)||isinf(x)||near_(x,-z,fabs(x)),"t","%s gives %g one way and %g the other",h->op,x,z); apop_data_free(o); apop_data_free(r); } }
static void op_chi(hand *h){ int r=1+rd(h,4),c=1+rd(h,4),frac=rd(h,2); if (r*c==1) return; apop_data *t=apop_data_alloc(r,c); ld rs[4]={0},cs[4]={0},tot=0,chi=0; for (int i=0;i<r;i++) for (int j=0;j<c;j++){ double v=(1+rd(h,20))/(frac?8.:1); gsl_matrix_set(t->matrix,i,j,v); rs[i]+=v; cs[j]+=v; tot+=v; } for (int i=0;i<r;i++) for (int j=0;j<c;j++){ ld e=rs[i]*cs[j]/tot,v=gsl_matrix_get(t->matrix,i,j); chi+=(v-e)*(v-e)/e; } int df=r==1?c-1:c==1?r-1:(r-1)*(c-1);
    h->op="apop_test_anova_independence"; apop_data *o=apop_test_anova_independence(t); OK(o,"chi","no test of a %d x %d table",r,c); EQ(apop_data_get(o,.rowname="chi squared statistic"),chi,10,"chi","the statistic of a %d x %d table that adds up to %g",r,c,(double)tot); OK(apop_data_get(o,.rowname="df")==df,"chi","a %d x %d table has %g degrees of freedom instead of %d",r,c,apop_data_get(o,.rowname="df"),df); EQ(apop_data_get(o,.rowname="p value"),gsl_cdf_chisq_Q((double)chi,df),10,"chi","the p value of a %d x %d table",r,c); apop_data_free(o); apop_data_free(t); }
static void op_bins(hand *h){ h->op="apop_data_to_bins"; int spec=rd(h,2),ct=spec?0:rd(h,2)*(1+rd(h,6)); apop_data *bs=NULL; if (spec){ bs=apop_data_alloc(1+rd(h,2),k); for (int j=0;j<k;j++){ gsl_matrix_set(bs->matrix,0,j,(1+rd(h,8))/2.); if (bs->matrix->size1==2) gsl_matrix_set(bs->matrix,1,j,rd(h,9)/4.-1); } } apop_data *o=spec?apop_data_to_bins(D,bs):apop_data_to_bins(D,.bin_count=ct); OK(o&&!o->error&&o->matrix&&(int)o->matrix->size1==n,"bins","no bins");
    for (int j=0;j<k;j++){ ld s[AN],width,off; ordered(j,s); if (spec){ width=gsl_matrix_get(bs->matrix,0,j); off=bs->matrix->size1==2?gsl_matrix_get(bs->matrix,1,j):0; } else { off=s[0]; width=(s[n-1]-s[0])/(ct?ct:sqrtl(n)); if (s[n-1]==s[0]) continue; }
        for (int i=0;i<n;i++){ ld g=gsl_matrix_get(o->matrix,i,j),x=X[i][j],z=(g-off)/width,tol=1e-7*(1+fabsl(x)/width); int top=!spec&&x==s[n-1]; OK(fabsl(z-roundl(z))<tol,"bins","cell %d,%d is in a bin that starts at %g: not at an edge (width %g, offset %g)",i,j,(double)g,(double)width,(double)off); OK((x-g)/width>=-tol&&(x-g)/width<(top?1+tol:1+tol),"bins","%g is put in the bin from %g, of width %g",(double)x,(double)g,(double)width); if (!spec) OK(z>-tol&&z<ceill((ct?ct:sqrtl(n))-tol)-1+0.5,"bins","%g is put in bin %g of %g",(double)x,(double)z,ct?(double)ct:sqrt(n)); } }
    if (wt) OK(o->weights&&!vec_diff(o->weights,D->weights),"bins","the weights are lost"); apop_data_free(o); if (bs) apop_data_free(bs); }
static void op_average(hand *h){ int j=rd(h,k),b=1+rd(h,n+6),half=b/2; h->op="apop_vector_moving_average"; gsl_vector *o=apop_vector_moving_average(Apop_cv(D,j),b); if (n-2*half<=0){ OK(!o,"average","a window of %d on %d observations has an average",b,n); sim_probe("window too wide"); return; } OK(o&&(int)o->size==n-2*half,"average","%d averages of %d observations with a window of %d",o?(int)o->size:0,n,b); for (int i=0;i<n-2*half;i++){ ld t=0; for (int z=0;z<=2*half;z++) t+=X[i+z][j]; EQ(gsl_vector_get(o,i),t/(2*half+1),scale(j,1),"average","average %d",i); } gsl_vector_free(o); }
static void op_gamma(hand *h){ int p=1+rd(h,4); double a=p/2.+rd(h,20)/3.+0.3; ld w=powl(M_PIl,p*(p-1)/4.L); for (int i=1;i<=p;i++) w*=tgammal(a+(1-i)/2.L); h->op="apop_multivariate_gamma"; EQ(apop_multivariate_gamma(a,p),w,fabsl(w)*1e3,"gamma","Gamma_%d(%g)",p,a); EQ(apop_multivariate_lngamma(a,p),logl(w),1e3,"gamma","ln Gamma_%d(%g)",p,a); }
static void op_entropy(hand *h){ ld t=0,e=0; gsl_vector *v=gsl_vector_alloc(n); for (int i=0;i<n;i++){ double x=rd(h,5)/4.; gsl_vector_set(v,i,x); t+=x; } for (int i=0;i<n;i++){ ld x=gsl_vector_get(v,i); if (x) e-=x/t*logl(x/t); } h->op="apop_vector_entropy"; EQ(apop_vector_entropy(v),e,1,"entropy","the entropy"); if (n>1&&t){ gsl_vector_set(v,0,-0.25); double g=apop_vector_entropy(v); OK(isnan(g)||t-1<=0.5,"entropy","a negative frequency has entropy %g",g); } gsl_vector_free(v); }
static void op_fit(hand *h){ int a=2+rd(h,6); apop_data *du=apop_data_alloc(),*dv=apop_data_alloc(); du->vector=gsl_vector_alloc(a); du->weights=gsl_vector_alloc(a); dv->vector=gsl_vector_alloc(a); dv->weights=gsl_vector_alloc(a); int miss=rd(h,5)==4; ld to=0,te=0; for (int i=0;i<a;i++){ double o=i?rd(h,9):1,e=1+rd(h,8); gsl_vector_set(du->vector,i,i); gsl_vector_set(dv->vector,a-1-i,i); gsl_vector_set(du->weights,i,o); gsl_vector_set(dv->weights,a-1-i,e); to+=o; te+=e; } if (miss) gsl_vector_set(dv->vector,a-1,-5);
    for (int i=0;i<a;i++){ gsl_vector_set(du->weights,i,gsl_vector_get(du->weights,i)/(double)to); gsl_vector_set(dv->weights,i,gsl_vector_get(dv->weights,i)/(double)te); } ld chi=0; int df=a-1; for (int i=0;i<a;i++){ ld o=gsl_vector_get(du->weights,i),e=gsl_vector_get(dv->weights,a-1-i); if (o==0) df--; else chi+=(o-e)*(o-e)/e; }
    h->op="apop_histograms_test_goodness_of_fit"; apop_model *mu=apop_estimate(du,apop_pmf),*mv=apop_estimate(dv,apop_pmf); apop_data *o=df<1?NULL:apop_histograms_test_goodness_of_fit(mu,mv); if (o){ double g=apop_data_get(o,.rowname="Chi squared statistic"),d=apop_data_get(o,.rowname="df"),p=apop_data_get(o,.rowname="p value"),c=apop_data_get(o,.rowname="confidence"); if (miss) OK(isinf(g)&&p==0,"fit","an observation that is not expected gives %g, p value %g",g,p); else { EQ(g,chi,10,"fit","the statistic of %d bins",a); OK(d==df,"fit","%g degrees of freedom instead of %d",d,df); EQ(p,gsl_cdf_chisq_Q((double)chi,df),10,"fit","the p value"); OK(fabs(p+c-1)<1e-12,"fit","confidence %g with p value %g",c,p); } sim_probe("goodness of fit"); apop_data_free(o); } apop_model_free(mu); apop_model_free(mv); apop_data_free(du); apop_data_free(dv); }
/* what has no answer: documented values for it */
static void op_nothing(hand *h){ gsl_vector *v=Apop_cv(D,rd(h,k)); apop_data *empty=apop_data_alloc(); h->op="a request without data"; switch (rd(h,8)){
    case 0: OK(apop_vector_sum(NULL)==0&&apop_matrix_sum(NULL)==0,"nothing","the sum of nothing is not zero"); break;
    case 1: OK(isnan(apop_vector_mean(NULL))&&isnan(apop_vector_var(NULL))&&isnan(apop_vector_skew_pop(NULL))&&isnan(apop_vector_kurtosis_pop(NULL)),"nothing","nothing has moments"); break;
    case 2: OK(isnan(apop_vector_cov(NULL,v))&&isnan(apop_vector_cov(v,NULL))&&isnan(apop_vector_cov(NULL,NULL)),"nothing","nothing has a covariance"); break;
    case 3: OK(!apop_data_covariance(NULL)&&!apop_data_correlation(NULL)&&!apop_data_covariance(empty)&&!apop_data_summarize(NULL)&&!apop_data_summarize(empty)&&!apop_vector_percentiles(NULL),"nothing","a summary of nothing"); break;
    case 4: { gsl_vector *none=NULL; apop_vector_normalize(none,NULL,'m'); OK(isnan(apop_vector_distance(none,v))&&apop_vector_entropy(none)==0,"nothing","the distance from or entropy of nothing"); break; }
    case 5: OK(!apop_dot(NULL,D)&&!apop_dot(D,NULL)&&!apop_dot(empty,D)&&!apop_dot(D,D,.form2='v')==!D->vector&&!apop_matrix_pca(NULL),"nothing","a product of nothing"); break;
    case 6: { gsl_matrix *none=NULL; OK(!apop_matrix_is_positive_semidefinite(none)&&isnan(apop_matrix_to_positive_semidefinite(none)),"nothing","nothing is semidefinite"); OK(!apop_test_anova_independence(NULL)&&!apop_test_anova_independence(empty),"nothing","a test of nothing"); OK(isnan(apop_test(1,"t"))&&isnan(apop_test(1,"f",3))&&isnan(apop_test(1,"chi squared")),"nothing","a test without degrees of freedom"); break; }
    case 7: { int p=1+rd(h,5); double a=((int)rd(h,15)-6)/2.; int bad=0; ld w=p*(p-1)/4.L*logl(M_PIl); for (int j=1;j<=p;j++){ double x=a+(1-j)/2.; if (x<=0&&x==floor(x)) bad=1; else w+=lgammal(x); } double g=apop_multivariate_lngamma(a,p); if (bad) OK(isnan(g)&&isnan(apop_multivariate_gamma(a,p)),"gamma","Gamma_%d(%g) is undefined, but its logarithm is %g",p,a,g); else EQ(g,w,1e3,"gamma","ln Gamma_%d(%g)",p,a); } }
    sim_probe("requests without an answer"); apop_data_free(empty); }
static void (*ops[])(hand*)={op_moments,op_moments,op_covariances,op_summary,op_percentiles,op_distance,op_normalize,op_matrix,op_dot,op_dot,op_inverse,op_pca,op_stack,op_psd,op_ols,op_ols,op_ols,op_test,op_t,op_chi,op_bins,op_average,op_gamma,op_entropy,op_fit,op_nothing};
static void work(int t){ hand *h=&H[t]; for (int i=0;i<nop;i++){ h->s=seed[t][i]*0x9e3779b97f4a7c15ULL+17; ops[plan[t][i]](h); sim_point(); } }
static void caller(int t,void *v){ (void)v; sim_point(); work(t); }
void scen_arith(void){
    quiet(); apop_opts.verbose=-1; sim_sched_on=0; f_suspended=1; sim_on_hang("arith:hang"); memset(H,0,sizeof H); for (int i=0;i<AT;i++) H[i].op="nothing";
    n=3+w_choose(20); if (w_choose(6)==5) n=AN; k=1+w_choose(AK-1); wt=w_choose(4); int layout=w_choose(2); double shift=(double[]){0,0,5,100}[w_choose(4)]; gsl_rng *r=rng_of(1+w_choose(100000)); int tied=w_choose(4),ties=tied>1; double tot=0;
    D=apop_data_alloc(n,k); if (layout){ gsl_matrix *big=gsl_matrix_alloc(n+2,k+3); gsl_matrix_set_all(big,1e6); gsl_matrix_free(D->matrix); D->matrix=malloc(sizeof *big); *D->matrix=gsl_matrix_submatrix(big,1,2,n,k).matrix; }
    for (int i=0;i<n;i++) for (int j=0;j<k;j++){ double x=((int)gsl_rng_uniform_int(r,tied==3?2:ties?7:401)-(tied==3?0:ties?3:200))/(ties?2.:16)+(j%2?shift:0); X[i][j]=x; gsl_matrix_set(D->matrix,i,j,x); }
    for (int j=0;j<k;j++) apop_name_add(D->names,(char[]){'v','0'+j,0},'c'); if (wt){ for (int i=0;i<n;i++) tot+=W[i]=wt==3?1:1+gsl_rng_uniform_int(r,5)-(wt==2&&i%4==3?gsl_rng_uniform_int(r,2):0); D->weights=gsl_vector_alloc(n); for (int i=0;i<n;i++){ if (wt==2) W[i]/=tot; gsl_vector_set(D->weights,i,W[i]); } } gsl_rng_free(r);
    nthr=(int[]){1,2,2,3,4}[w_choose(5)]; nop=1+w_choose(AO); int team=w_choose(2); sim_set_nthreads(1+w_choose(3)); for (int t=0;t<nthr;t++) for (int i=0;i<nop;i++){ plan[t][i]=w_choose(sizeof ops/sizeof *ops); seed[t][i]=1+w_choose(1000000); } (void)team; (void)own;
    apop_data *was=deep_copy(D); sim_nontrivial(); sim_describe("%d computations in each of %d threads, on %d x %d data%s%s",nop,nthr,n,k,wt==2?" with weights that sum to one":wt?" with weights":"",layout?" within a larger matrix":""); if (nthr>1&&w_choose(6)==5) f_enable(FK_THREADFEW,0.3,2);
    sim_sched_on=1; if (nthr==1) work(0); else sim_callers(nthr,caller,NULL); sim_sched_on=0;
    const char *q=data_diff(D,was,1); OK(!q&&!D->error,"changed","the data has changed: %s",q?q:"error mark"); uint64_t h=FNV0; for (int t=0;t<nthr;t++){ sim_event("thread %d: last %s, %llx",t,H[t].op,(unsigned long long)H[t].h); h=h*31+H[t].h; } sim_state(h); }
