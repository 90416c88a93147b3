/* C04: the lookup tables as an atomic map: per-key linearizability of recorded histories. */
#include "common.h"
static const char *tabs[]={"alpha table","beta table","gamma","magma","epsilon_vtable","z","zz","table alpha","epsilon_vtable_2","y"}; static const unsigned long keys[]={7,7000001,0,0x100000007UL,99999999999UL};
typedef struct { int op, tab, key; long fn; long ret; uint64_t t0,t1; int th; } rec;
static rec H[300]; static int nh, toff;
#define TAB(i) tabs[((i)+toff)%10]
 static uint64_t clk; static int ntab,nkey,nops; static rec plan[6][12];
enum { ADD, GET, DROP };
static void doit(rec r,int th){
    r.th=th; r.t0=++clk; sim_point();
    void *f=(void*)(uintptr_t)r.fn;
    if (r.op==ADD) r.ret=apop_vtable_add(TAB(r.tab),f,keys[r.key]);
    else if (r.op==GET) r.ret=(long)(uintptr_t)apop_vtable_get(TAB(r.tab),keys[r.key]);
    else r.ret=apop_vtable_drop(TAB(r.tab),keys[r.key]);
    sim_point(); r.t1=++clk; H[nh++]=r;
    sim_event("t%d %s(%d,%d,%ld)=%ld",th,r.op==ADD?"add":r.op==GET?"get":"drop",r.tab,r.key,r.fn,r.ret);
}
static void body(int me,void *v){ (void)v; for (int k=0;k<nops;k++) doit(plan[me][k],me); }
static rec *L[64]; static int nl; static uint64_t memo[4096][2]; static int nmemo;
static int lin(uint64_t done,long st,int left){
    if (!left) return 1;
    for (int i=0;i<nmemo;i++) if (memo[i][0]==done&&memo[i][1]==(uint64_t)st) return 0;
    uint64_t minret=~0ULL; for (int i=0;i<nl;i++) if (!(done>>i&1)&&L[i]->t1<minret) minret=L[i]->t1;
    for (int i=0;i<nl;i++) if (!(done>>i&1)&&L[i]->t0<minret){
        rec *r=L[i]; long ns=st; int ok;
        if (r->op==ADD){ ok=r->ret==0; if (!st) ns=r->fn; } else if (r->op==GET) ok=r->ret==st; else { ok=r->ret==(st?0:1); ns=0; }
        if (ok && lin(done|1ULL<<i,ns,left-1)) return 1;
    }
    if (nmemo<4096){ memo[nmemo][0]=done; memo[nmemo++][1]=st; }
    return 0;
}
static long nfn=0x1000;
static rec gen(void){ rec r={0}; int k=w_choose(10); r.op= k<4?ADD: k<8?GET:DROP; r.tab=w_choose(ntab); r.key=w_choose(nkey); r.fn=++nfn; return r; }
void scen_vtable(void){
    quiet(); apop_opts.verbose=-1;
    toff=w_choose(10); ntab=1+w_choose(6); nkey=1+w_choose(5); int n=pick_threads(6); int pre=w_choose(8); nops=1+w_choose(n>3?6:9);
    sim_describe("%d tables x %d keys, %d earlier operations, %d threads x %d operations",ntab,nkey,pre,n,nops);
    sim_on_hang("vtable:hang");
    for (int i=0;i<pre;i++) doit(gen(),-1);
    for (int t=0;t<n;t++) for (int k=0;k<nops;k++) plan[t][k]=gen();
    if (n>1) sim_nontrivial();
    sim_callers(n,body,NULL);
    for (int t=0;t<ntab;t++) for (int k=0;k<nkey;k++) doit((rec){.op=GET,.tab=t,.key=k},-2);
    for (int i=0;i<6;i++) doit(gen(),-2);
    for (int t=0;t<ntab;t++) for (int k=0;k<nkey;k++){
        nl=0; nmemo=0; for (int i=0;i<nh;i++) if (H[i].tab==t&&H[i].key==k){ if (nl==64) sim_skip("history too long"); L[nl++]=&H[i]; }
        if (nl && !lin(0,0,nl)){
            char b[900]; int p=0; for (int i=0;i<nl&&p<800;i++) p+=sprintf(b+p,"%s%s(%ld)=%ld@[%llu,%llu] ",L[i]->th<0?"main:":"",L[i]->op==ADD?"add":L[i]->op==GET?"get":"drop",L[i]->op==ADD?L[i]->fn:0,L[i]->ret,(unsigned long long)L[i]->t0,(unsigned long long)L[i]->t1);
            sim_fail("vtable:not-linearizable","table '%s' key %lu: no serial order explains %s",TAB(t),keys[k],b);
        }
    }
    sim_state(nh);
}
