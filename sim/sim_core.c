/* Core of the simulator: decision streams, cooperative threads under a seeded scheduler, an OpenMP
runtime on top of them, memory-access hooks (the library is compiled with -fsanitize=thread and linked
to the hooks below instead of the TSan runtime) and a simulated heap. */
#define _GNU_SOURCE
#include "sim_int.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <execinfo.h>
#include <fcntl.h>

sim_input *g_in;
sim_result *g_out;

const char *fault_names[FK_MAX] = {"none","alloc_fail","read_error","short_read","truncated_stream","open_fail",
 "stream_write_error","disk_read_error","disk_write_error","disk_full","disk_sync_error","disk_busy_other_process",
 "disk_open_error","power_loss","sigint","callback_nan","callback_inf","callback_fail","thread_stall",
 "torn_write","lost_unsynced_write","fewer_threads_granted"};

/* ------------------------------------------------------------------ PRNG */
uint64_t sim_splitmix(uint64_t *s){
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ULL; z = (z ^ (z>>27))*0x94D049BB133111EBULL; return z ^ (z>>31);
}
#define rngW (g_out->st.rW)
#define rngS (g_out->st.rS)
#define rngF (g_out->st.rF)
uint64_t sim_hash(const void *p, size_t n, uint64_t h){
    const unsigned char *c=p; for (size_t i=0;i<n;i++){ h^=c[i]; h*=1099511628211ULL; } return h;
}

/* ------------------------------------------------------------------ verdicts */
static int sim_started;
static void finish(int verdict) __attribute__((noreturn));
static uint64_t worklimit=400000000ULL, work;
#define steps (g_out->st.steps)
#define switches (g_out->st.switches)
#define shash (g_out->st.shash)
static char hangcls[96]="hang";
static void finish(int verdict){
    g_out->verdict=verdict; g_out->step_ct=steps; g_out->work+=work; g_out->switch_ct=switches;
    g_out->sched_hash=shash;
    g_out->hash = sim_hash(&shash,8, sim_hash(&steps,8, sim_hash(&g_out->work,8, g_out->hash)));
    if (verdict!=V_OK) g_out->hash = sim_hash(g_out->cls, strlen(g_out->cls), g_out->hash);
    _exit(0);
}
void sim_fail(const char *cls, const char *fmt, ...){
    va_list a; va_start(a, fmt);
    snprintf(g_out->cls, sizeof g_out->cls, "%s", cls);
    vsnprintf(g_out->msg, sizeof g_out->msg, fmt, a); va_end(a);
    finish(V_VIOLATION);
}
void sim_error(const char *fmt, ...){
    va_list a; va_start(a, fmt);
    snprintf(g_out->cls, sizeof g_out->cls, "harness-error");
    vsnprintf(g_out->msg, sizeof g_out->msg, fmt, a); va_end(a);
    finish(V_ERROR);
}
void sim_skip(const char *why){ snprintf(g_out->msg, sizeof g_out->msg, "%s", why); finish(V_SKIP); }
void sim_event(const char *fmt, ...){
    char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    g_out->hash = sim_hash(b, strlen(b), g_out->hash);
    if (g_in->verbose) dprintf(2, "[%llu t%d] %s\n", (unsigned long long)steps, sim_self(), b);
}
void sim_describe(const char *fmt, ...){
    size_t l=strlen(g_out->desc);
    va_list a; va_start(a, fmt); vsnprintf(g_out->desc+l, sizeof g_out->desc-l, fmt, a); va_end(a);
}
void sim_probe(const char *name){
    for (uint32_t i=0;i<g_out->nprobe;i++) if (!strcmp(g_out->probe[i],name)){ g_out->probe_ct[i]++; return; }
    if (g_out->nprobe<MAXPROBE){ snprintf(g_out->probe[g_out->nprobe],48,"%s",name); g_out->probe_ct[g_out->nprobe++]=1; }
}
void sim_state(uint64_t h){ g_out->state_hash = sim_hash(&h,8,g_out->state_hash); }
void sim_nontrivial(void){ g_out->nontrivial=1; }
void sim_on_hang(const char *cls){ snprintf(hangcls,sizeof hangcls,"%s",cls); }
void sim_work_limit(uint64_t l){ worklimit=l; }
uint64_t sim_steps(void){ return steps; }
uint64_t sim_work(void){ return work; }

/* ------------------------------------------------------------------ W and F streams */
uint32_t w_choose(uint32_t n){
    uint32_t v;
    if (n<=1) return 0;
    if (g_in->mode==1) { v = g_out->nW < g_in->nW ? g_in->W[g_out->nW] : 0; if (v>=n) v = v%n; }
    else v = sim_splitmix(&rngW) % n;
    if (g_out->nW<MAXW) g_out->W[g_out->nW++]=v; else { g_out->overflow=1; if (g_in->mode==1) v=0; }
    return v;
}
int w_range(int lo,int hi){ return lo + (int)w_choose((uint32_t)(hi-lo+1)); }
int w_chance(int num,int den){ return (int)w_choose(den) >= den-num; }
double w_unit(void){ return w_choose(1u<<30)/(double)(1u<<30); }
double w_real(double lo,double hi){ return lo+(hi-lo)*w_unit(); }

#define f_rate (g_out->st.f_rate)
#define f_budget (g_out->st.f_budget)
#define f_count (g_out->st.f_count)
#define f_idx (g_out->st.f_idx)
#define f_pt (g_out->st.f_pt)
int f_suspended; static uint64_t f_n;
void f_enable(int k,double r,int b){ f_rate[k]=r; f_budget[k]=b; }
void f_disable_all(void){ for (int i=0;i<FK_MAX;i++) f_rate[i]=0, f_budget[i]=0; }
static void f_record(int kind, uint64_t n, uint32_t arg){
    if (g_out->nF<MAXF) g_out->F[g_out->nF++]=(fdec){n,kind,arg};
    f_count[kind]++; g_out->faults[kind]++;
    if (g_in->verbose) dprintf(2,"[%llu t%d] FAULT %s at point %llu arg %u\n",(unsigned long long)steps,sim_self(),fault_names[kind],(unsigned long long)n,arg);
    uint64_t h[3]={kind,n,arg}; g_out->hash=sim_hash(h,sizeof h,g_out->hash);
}
/* Points are numbered per fault kind, so that dropping one fault renumbers as little as possible. */
int f_point(int kind, uint32_t argmax, uint32_t *arg){
    if (f_suspended || !g_in) return 0;
    if (f_rate[kind]<=0) return 0;
    uint64_t n = ++f_pt[kind]; f_n++;
    if (g_in->mode==1){
        for (uint32_t i=f_idx[kind]; i<g_in->nF; i++)
            if (g_in->F[i].kind==(uint32_t)kind){
                if (g_in->F[i].n==n){ uint32_t a=g_in->F[i].arg; if (argmax && a>=argmax) a%=argmax; if (arg)*arg=a; f_idx[kind]=i+1; f_record(kind,n,a); return 1; }
                if (g_in->F[i].n>n) return 0;
            }
        return 0;
    }
    if (f_budget[kind]<=0) return 0;
    double u = (sim_splitmix(&rngF)>>11)*(1.0/9007199254740992.0);
    if (u>=f_rate[kind]) return 0;
    f_budget[kind]--;
    uint32_t a = argmax ? sim_splitmix(&rngF)%argmax : 0;
    if (arg) *arg=a;
    f_record(kind,n,a);
    return 1;
}
uint64_t f_fired(int k){ return f_count[k]; }
uint64_t f_fired_total(void){ uint64_t t=0; for (int i=0;i<FK_MAX;i++) t+=f_count[i]; return t; }

/* ------------------------------------------------------------------ heap */
#define HBASE 0x100000000000UL
#define HSIZE (1UL<<30)
#define SHBASE 0x110000000000UL
static unsigned char *const shadow=(unsigned char*)SHBASE;
static char *hbump; static int hinit;
static unsigned char hfill=0xA5;
typedef struct { uint64_t size; uint32_t cls; uint32_t magic; } hhdr;   //16 bytes just before the user block
#define HMAGIC 0x5AFEB10C
#define HFREED 0xDEADB10C
#define NCLS 96
#define QDEPTH 64
static struct { void *q[QDEPTH]; uint32_t head, n; } freeq[NCLS];
static uint64_t live_bytes;
int mem_track_lib;
static int in_fault_alloc;
extern int mem_oom_scope;
int mem_oom_scope;
void mem_fill_pattern(unsigned char c){ hfill=c; }
uint64_t mem_live_bytes(void){ return live_bytes; }
/* debugging aid (APSIM_LEAKS=1): where the blocks that are still live were allocated */
static struct { void *p; size_t n; void *bt[9]; int nbt; } *leaklog; static int nleak, leak_on; enum { MAXLEAK=1<<20 };
static void leak_add(void *p,size_t n){ if (!leak_on||nleak>=MAXLEAK) return; leak_on=0; leaklog[nleak].p=p; leaklog[nleak].n=n; leaklog[nleak].nbt=backtrace(leaklog[nleak].bt,9); nleak++; leak_on=1; }
static void leak_del(void *p){ if (leak_on) for (int i=nleak-1;i>=0;i--) if (leaklog[i].p==p){ leaklog[i].p=NULL; break; } }
void mem_leak_mark(void){ if (!getenv("APSIM_LEAKS")) return; if (!leaklog){ leaklog=mmap(NULL,sizeof(*leaklog)*(size_t)MAXLEAK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); void *b[2]; backtrace(b,2); } nleak=0; leak_on=1; }
void mem_leak_dump(void){ if (!leak_on) return; leak_on=0; int fd=open(getenv("APSIM_LEAKS"),O_WRONLY|O_CREAT|O_TRUNC,0644); for (int i=0;i<nleak;i++) if (leaklog[i].p){ dprintf(fd,"LEAK %zu bytes:",leaklog[i].n); for (int j=2;j<leaklog[i].nbt;j++) dprintf(fd," %p",leaklog[i].bt[j]); dprintf(fd,"\n"); } close(fd); leak_on=1; }
static void heap_init(void){
    hinit=1;
    void *p=mmap((void*)HBASE,HSIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
    void *s=mmap((void*)SHBASE,HSIZE/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
    if (p==MAP_FAILED||s==MAP_FAILED){ static const char m[]="sim: cannot reserve heap\n"; if (write(2,m,sizeof m-1)){} _exit(3); }
    hbump=(char*)HBASE+4096;
}
static inline int cls_of(size_t n){ // n: user size
    size_t r=(n+15)/16; if (r==0) r=1;
    if (r<=32) return r;           // up to 512 by 16s
    int b=64-__builtin_clzl(r-1);  // r<=2^b
    return 32+b;                   // powers of two
}
static inline size_t cls_bytes(int c){ return c<=32 ? c*16UL : 16UL<<(c-32); }
static void sh_alloc(char *p,size_t n,size_t cap){
    unsigned char *s=shadow+((uintptr_t)p-HBASE)/8; size_t full=n/8;
    memset(s,0,full);            // 0: addressable
    size_t i=full; if (n&7) s[i++]=n&7;
    size_t end=cap/8+2;          // redzone of 16
    for(;i<end;i++) s[i]=0xFA;
}
static void *h_alloc(size_t n,size_t align){
    if (!hinit) heap_init();
    if (n>HSIZE/4) { errno=ENOMEM; return NULL; }
    int c=cls_of(n); size_t cap=cls_bytes(c); char *p=NULL;
    if (align<=16 && freeq[c].n >= (cap<=512 ? QDEPTH : cap<=65536? 16 : 3)){
        p=freeq[c].q[freeq[c].head]; freeq[c].head=(freeq[c].head+1)%QDEPTH; freeq[c].n--;
    } else {
        char *b=hbump+16; if (align>16) b=(char*)(((uintptr_t)b+align-1)&~(align-1));
        if (b+cap+16 > (char*)HBASE+HSIZE) { errno=ENOMEM; if (sim_started) sim_error("simulated heap exhausted"); return NULL; }
        memset(shadow+((uintptr_t)hbump-HBASE)/8,0xFA,(b-hbump)/8);
        hbump=b+cap+16; p=b;
    }
    hhdr *h=(hhdr*)(p-16); *h=(hhdr){n,c,HMAGIC};
    sh_alloc(p,n,cap);
    live_bytes+=n; leak_add(p,n);
    return p;
}
static void report_mem(const char *what, uintptr_t a, uint64_t pc) __attribute__((noreturn));
static void report_mem(const char *what, uintptr_t a, uint64_t pc){
    g_out->pcs[0]=pc;
    char c[96]; snprintf(c,sizeof c,"memory:%s",what);
    sim_fail(c,"%s at heap address %#lx by thread %d (pc %#lx)",what,(unsigned long)a,sim_self(),(unsigned long)pc);
}
static int oom_now(void){
    if (!mem_oom_scope || !sim_started || in_fault_alloc) return 0;
    in_fault_alloc=1; int r=f_point(FK_OOM,0,NULL); in_fault_alloc=0;
    return r;
}
void *malloc(size_t n){ if (oom_now()){errno=ENOMEM; return NULL;} void *p=h_alloc(n,16); if (p) memset(p,hfill,n); return p; }
void *calloc(size_t a,size_t b){ size_t n; if (__builtin_mul_overflow(a,b,&n)){errno=ENOMEM;return NULL;}
    if (oom_now()){errno=ENOMEM; return NULL;}
    void *p=h_alloc(n,16); if (p) memset(p,0,n); return p; }
void free(void *v){
    if (!v) return;
    char *p=v;
    if ((uintptr_t)p<HBASE||(uintptr_t)p>=HBASE+HSIZE){ if (sim_started) report_mem("invalid-free",(uintptr_t)p,(uint64_t)__builtin_return_address(0)); return; }
    hhdr *h=(hhdr*)(p-16);
    if (((uintptr_t)p&15) || h->magic!=HMAGIC){
        if (sim_started) report_mem(h->magic==HFREED && !((uintptr_t)p&15) ? "double-free":"invalid-free",(uintptr_t)p,(uint64_t)__builtin_return_address(0));
        return; }
    h->magic=HFREED; live_bytes-=h->size; leak_del(p);
    size_t cap=cls_bytes(h->cls);
    memset(p,0xDD,h->size<65536?h->size:65536);
    unsigned char *s=shadow+((uintptr_t)p-HBASE)/8; memset(s,0xFD,cap/8);
    int c=h->cls;
    if (freeq[c].n<QDEPTH){ freeq[c].q[(freeq[c].head+freeq[c].n)%QDEPTH]=p; freeq[c].n++; }
}
void *realloc(void *v,size_t n){
    if (!v) return malloc(n);
    if (!n) { free(v); return NULL; }
    hhdr *h=(hhdr*)((char*)v-16);
    if ((uintptr_t)v<HBASE||(uintptr_t)v>=HBASE+HSIZE||h->magic!=HMAGIC){ if (sim_started) report_mem(h->magic==HFREED?"realloc-after-free":"invalid-realloc",(uintptr_t)v,(uint64_t)__builtin_return_address(0)); return NULL; }
    if (oom_now()){errno=ENOMEM; return NULL;}
    void *p=h_alloc(n,16); if (!p) return NULL;
    memset(p,hfill,n);
    memcpy(p,v,h->size<n?h->size:n); free(v); return p;
}
void *memalign(size_t a,size_t n){ return h_alloc(n,a); }
void *aligned_alloc(size_t a,size_t n){ return h_alloc(n,a); }
int posix_memalign(void **o,size_t a,size_t n){ *o=h_alloc(n,a); return *o?0:ENOMEM; }
void *valloc(size_t n){ return h_alloc(n,4096); }
void *pvalloc(size_t n){ return h_alloc((n+4095)&~4095UL,4096); }
size_t malloc_usable_size(void *p){ return p? ((hhdr*)((char*)p-16))->size:0; }
void cfree(void*p){ free(p); }

static inline void sh_check(uintptr_t a,size_t n,uint64_t pc,int wr){
    uintptr_t o=a-HBASE;
    if (o>=HSIZE || !n) return;
    unsigned char s=shadow[o>>3];
    if (__builtin_expect(s && ((o&7)+n>s || s>8),0)){
        if (!g_out||!sim_started) return;
        report_mem(s==0xFD ? (wr?"write-after-free":"read-after-free") : (wr?"write-out-of-bounds":"read-out-of-bounds"),a,pc);
    }
    if (n>8 || (o&7)+n>8){ // range
        uintptr_t e=o+n-1;
        for (uintptr_t q=(o|7)+1; q<=e; q+=8){ unsigned char t=shadow[q>>3]; size_t k= e-q+1>8?8:e-q+1; if (t && (k>t||t>8)) { if (sim_started) report_mem(t==0xFD?(wr?"write-after-free":"read-after-free"):(wr?"write-out-of-bounds":"read-out-of-bounds"),HBASE+q,pc);} }
    }
}

/* ------------------------------------------------------------------ threads */
#define MAXT 40
#define STBASE 0x200000000000UL
#define STSIZE (4UL<<20)
enum { T_FREE, T_IDLE, T_RUN, T_BLOCK };
typedef struct team { int n, active; int arrived; uint64_t gen; 
    long ws_next, ws_end, ws_incr, ws_chunk; int ws_init, ws_done; uint64_t ws_gen; int single_claimed; uint64_t single_gen; void *copyp; struct team *up; int uptid; } team;
typedef struct { int id, st, go, tid, level; team *tm; const void *key; void (*fn)(void*); void *arg; void (*fn2)(int,void*); int idx; uintptr_t slo, shi; pthread_t pt; int prio; uint64_t my_ws_gen, my_single_gen; team *joiner; int nthr;} thr;
static thr T[MAXT]; static int nT; static int cur=-1; static int nrun;
static int cfg_nthreads=1, cfg_dyn=0;
int sim_sched_on=1;
#define sIdx (g_out->st.sIdx)
static int sch_mode; static uint32_t pr[4]; static uint64_t pct_pts[16]; static int pct_n, pct_hot; static uint64_t hotsteps; static int prio_low;
static __thread int tself=-1;
int sim_self(void){ return tself; }
static void fwait(int *p){ while (!__atomic_load_n(p,__ATOMIC_ACQUIRE)) syscall(SYS_futex,p,FUTEX_WAIT_PRIVATE,0,NULL,NULL,0); __atomic_store_n(p,0,__ATOMIC_RELEASE); }
static void fwake(int *p){ __atomic_store_n(p,1,__ATOMIC_RELEASE); syscall(SYS_futex,p,FUTEX_WAKE_PRIVATE,1,NULL,NULL,0); }
static void set_state(thr *t,int s){ if (t->st==T_RUN) nrun--; t->st=s; if (s==T_RUN) nrun++; }
int sim_multi(void){ return nrun>1; }

static void do_switch(int to,int forced,uint64_t pc){
    int me=cur;
    uint64_t h[2]={to,pc}; shash=sim_hash(h,sizeof h,shash);
    switches++;
    if (g_in->verbose>1) dprintf(2,"[%llu] switch t%d -> t%d pc %#lx%s\n",(unsigned long long)steps,me,to,(unsigned long)pc,forced?" (forced)":"");
    cur=to; fwake(&T[to].go);
    fwait(&T[me].go);
}
static void rec_switch(int to,uint64_t pc){ if (g_out->nS<MAXS) g_out->S[g_out->nS++]=(sdec){steps,to,cur,pc}; else g_out->overflow=1; }
static int replay_pick(void){
    while (sIdx<g_in->nS && g_in->S[sIdx].step<steps) sIdx++;
    if (sIdx<g_in->nS && g_in->S[sIdx].step==steps) return g_in->S[sIdx++].to;
    return -1;
}
static int pick_random(int except){
    int c[MAXT],n=0; for (int i=0;i<nT;i++) if (T[i].st==T_RUN && i!=except) c[n++]=i;
    return n? c[sim_splitmix(&rngS)%n] : -1;
}
static int pick_prio(void){ int b=-1; for (int i=0;i<nT;i++) if (T[i].st==T_RUN && (b<0||T[i].prio>T[b].prio)) b=i; return b; }
static void sched_point(int strength,uint64_t pc){
    if (nrun<2 || !sim_sched_on || cur<0 || tself!=cur) return;
    steps++;
    int to=-1;
    if (g_in->mode==1){ to=replay_pick(); if (to>=nT || (to>=0 && T[to].st!=T_RUN)) to=-1; }
    else if (sch_mode==2){
        if (strength>=2) hotsteps++;
        uint64_t at= pct_hot ? hotsteps : steps;
        if (!pct_hot || strength>=2) for (int i=0;i<pct_n;i++) if (pct_pts[i]==at){ T[cur].prio=--prio_low; g_out->faults[FK_STALL]++; }
        if (strength>=3 || T[cur].prio<0) { to=pick_prio(); if (T[to].prio==T[cur].prio) to=-1; }
    } else if ((uint32_t)(sim_splitmix(&rngS)>>40) < pr[strength]) to=pick_random(cur);
    if (to>=0 && to!=cur){ rec_switch(to,pc); do_switch(to,0,pc); }
}
static void sched_forced(uint64_t pc){   // current thread is not runnable
    steps++;
    int low=-1; for (int i=0;i<nT;i++) if (T[i].st==T_RUN){ low=i; break; }
    if (low<0) sim_fail("deadlock","no simulated thread can run: all are blocked (thread %d blocked last)",cur);
    int to=-1;
    if (g_in->mode==1){ to=replay_pick(); if (to>=nT || to<0 || T[to].st!=T_RUN) to=low; }
    else { to = sch_mode==2 ? pick_prio() : pick_random(-1); }
    if (to!=low) rec_switch(to,pc);
    do_switch(to,1,pc);
}
static void block_on(const void *key){ thr *t=&T[cur]; t->key=key; set_state(t,T_BLOCK); sched_forced((uint64_t)__builtin_return_address(0)); }
static void wake_key(const void *key){ for (int i=0;i<nT;i++) if (T[i].st==T_BLOCK && T[i].key==key){ T[i].key=NULL; set_state(&T[i],T_RUN); } }
void sim_block(const void *k){ block_on(k); }
void sim_wake(const void *k){ wake_key(k); }
int  sim_active(void){ return cur>=0 && tself==cur; }

static void crash_handler(int sig, siginfo_t *si, void *uc);
static void *alt_new(void){ void *p=mmap(NULL,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); stack_t s={.ss_sp=p,.ss_size=65536}; sigaltstack(&s,NULL); return p; }
static void *thr_main(void *v){
    thr *t=v; tself=t->id; alt_new();
    fwait(&t->go);
    for(;;){
        if (t->fn2) t->fn2(t->idx,t->arg); else t->fn(t->arg);
        team *j=t->joiner; j->active--;
        if (!j->active) wake_key(j);
        t->tm=NULL; set_state(t,T_IDLE);
        sched_forced((uint64_t)__builtin_return_address(0));
    }
    return NULL;
}
static thr *get_thread(void){
    for (int i=0;i<nT;i++) if (T[i].st==T_IDLE) return &T[i];
    if (nT>=MAXT) sim_error("too many simulated threads");
    thr *t=&T[nT]; *t=(thr){.id=nT};
    t->slo=STBASE+nT*(STSIZE+65536); t->shi=t->slo+STSIZE;
    if (mmap((void*)t->slo,STSIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED) sim_error("no stack");
    nT++;
    if (nT>g_out->maxthreads) g_out->maxthreads=nT;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a,(void*)t->slo,STSIZE);
    int os=mem_oom_scope; mem_oom_scope=0;
    uint64_t lb=live_bytes; int e=pthread_create(&t->pt,&a,thr_main,t); live_bytes=lb; // (the C library's own block for the thread is not counted)
    mem_oom_scope=os;
    if (e) sim_error("pthread_create failed %d",e);
    pthread_attr_destroy(&a);
    t->st=T_IDLE;
    return t;
}
static int new_prio(void){ return 1+(sim_splitmix(&rngS)%100000); }
void sim_set_nthreads(int n){ cfg_nthreads=n; }
int sim_get_nthreads(void){ return cfg_nthreads; }
static void start_team(unsigned n,void(*fn)(void*),void(*fn2)(int,void*),void*arg,int callers){
    thr *me=&T[cur];
    team tm={.n=n,.active=n-1+(callers?1:0)};
    team *ot=me->tm; int otid=me->tid, ol=me->level; tm.up=ot; tm.uptid=otid; uint64_t ows=me->my_ws_gen, osg=me->my_single_gen;
    for (unsigned i=callers?0:1;i<n;i++){
        thr *t=get_thread();
        t->fn=fn; t->fn2=fn2; t->arg=arg; t->idx=i; t->joiner=&tm; t->my_ws_gen=0; t->my_single_gen=0; t->nthr=0;
        if (callers){ t->tm=NULL; t->tid=0; t->level=0; }
        else { t->tm=&tm; t->tid=i; t->level=ol+1; }
        t->prio=new_prio();
        set_state(t,T_RUN);
    }
    if (!callers){
        me->tm=&tm; me->tid=0; me->level=ol+1; me->my_ws_gen=0; me->my_single_gen=0;
        sched_point(3,(uint64_t)fn);
        if (fn2) fn2(0,arg); else fn(arg);
    }
    while (tm.active) block_on(&tm);
    me->tm=ot; me->tid=otid; me->level=ol; me->my_ws_gen=ows; me->my_single_gen=osg;
    sched_point(3,(uint64_t)fn);
}
void sim_team(int n,void(*fn)(void*),void*arg){ start_team(n,fn,NULL,arg,0); }
void sim_callers(int n,void(*fn)(int,void*),void*arg){ start_team(n,NULL,fn,arg,1); }
void sim_point(void){ sched_point(2,(uint64_t)__builtin_return_address(0)); }
void sim_point_strong(void){ sched_point(3,(uint64_t)__builtin_return_address(0)); }

/* ------------------------------------------------------------------ OpenMP runtime */
int omp_in_parallel(void);
void GOMP_parallel(void (*fn)(void*),void *data,unsigned n,unsigned flags){
    (void)flags;
    if (!sim_active()){ fn(data); return; }
    thr *me=&T[cur];
    if (!n) n = me->nthr ? me->nthr : cfg_nthreads;
    if (omp_in_parallel()) n=1; // nested parallelism is off, as by default
    if (n>MAXT-4) n=MAXT-4;
    if (n>1 && f_point(FK_THREADFEW,0,NULL)) n=1+(n-1)/2;
    start_team(n,fn,NULL,data,0);
}
static void lock_acquire(int *l){ sched_point(3,(uint64_t)__builtin_return_address(0)); sh_check((uintptr_t)l,4,(uint64_t)__builtin_return_address(0),1); while (*l){ sim_probe("lock_contended"); block_on(l); sh_check((uintptr_t)l,4,(uint64_t)__builtin_return_address(0),1);} *l=tself+2; }
static void lock_release(int *l){ sh_check((uintptr_t)l,4,(uint64_t)__builtin_return_address(0),1); *l=0; wake_key(l); sched_point(3,(uint64_t)__builtin_return_address(0)); }
void GOMP_critical_name_start(void **p){ if (sim_active()) lock_acquire((int*)p); }
void GOMP_critical_name_end(void **p){ if (sim_active()) lock_release((int*)p); }
static int deflock, atomlock;
void GOMP_critical_start(void){ if (sim_active()) lock_acquire(&deflock); }
void GOMP_critical_end(void){ if (sim_active()) lock_release(&deflock); }
void GOMP_atomic_start(void){ if (sim_active()) lock_acquire(&atomlock); }
void GOMP_atomic_end(void){ if (sim_active()) lock_release(&atomlock); }
void GOMP_barrier(void){
    thr *me=&T[cur]; team *t=me->tm; if (!t||t->n==1) return;
    sched_point(3,(uint64_t)__builtin_return_address(0));
    uint64_t g=t->gen;
    if (++t->arrived==t->n){ t->arrived=0; t->gen++; wake_key(&t->gen); }
    else while (t->gen==g) block_on(&t->gen);
}
_Bool GOMP_single_start(void){ thr *me=&T[cur]; team*t=me->tm; if (!t) return 1; sched_point(3,0); if (me->my_single_gen==t->single_gen){ t->single_gen++; me->my_single_gen++; return 1; } me->my_single_gen++; return 0; }
void *GOMP_single_copy_start(void){ thr *me=&T[cur]; team*t=me->tm; if (!t) return NULL; if (GOMP_single_start()) return NULL; GOMP_barrier(); void *p=t->copyp; GOMP_barrier(); return p; }
void GOMP_single_copy_end(void*d){ thr *me=&T[cur]; team*t=me->tm; if (!t) return; t->copyp=d; GOMP_barrier(); GOMP_barrier(); }
/* work sharing: dynamic/guided/runtime schedules */
static _Bool ws_next(long *a,long *b){
    thr*me=&T[cur]; team*t=me->tm; sched_point(3,0);
    if (t->ws_incr>0 ? t->ws_next>=t->ws_end : t->ws_next<=t->ws_end) return 0;
    long c=t->ws_chunk>0?t->ws_chunk:1; *a=t->ws_next; long e=*a+c*t->ws_incr;
    if (t->ws_incr>0 ? e>t->ws_end : e<t->ws_end) e=t->ws_end;
    *b=e; t->ws_next=e; (void)me; return 1;
}
static _Bool ws_start(long s,long e,long i,long c,long *a,long *b){
    thr*me=&T[cur]; team*t=me->tm; static team solo[MAXT];
    if (!t){ me->tm=t=&solo[cur]; t->n=1; }
    sched_point(3,0);
    if (me->my_ws_gen==t->ws_gen){ t->ws_gen++; t->ws_next=s;t->ws_end=e;t->ws_incr=i;t->ws_chunk=c; }
    me->my_ws_gen++;
    return ws_next(a,b);
}
#define WS(nm) _Bool GOMP_loop_##nm##_start(long s,long e,long i,long c,long*a,long*b){ return ws_start(s,e,i,c,a,b);} _Bool GOMP_loop_##nm##_next(long*a,long*b){ return ws_next(a,b);} \
 struct wsd_##nm; void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned fl){ par_loop(fn,d,n,s,e,i,c,fl);} 
#define WSR(nm) _Bool GOMP_loop_##nm##_start(long s,long e,long i,long*a,long*b){ return ws_start(s,e,i,1,a,b);} _Bool GOMP_loop_##nm##_next(long*a,long*b){ return ws_next(a,b);} \
 void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,unsigned fl){ par_loop(fn,d,n,s,e,i,1,fl);} 
typedef struct { void(*fn)(void*); void*d; long s,e,i,c; } pl;
static void pl_run(void*v){ pl*p=v; thr*me=&T[cur]; team*t=me->tm; if (me->my_ws_gen==t->ws_gen){ t->ws_gen++; t->ws_next=p->s;t->ws_end=p->e;t->ws_incr=p->i;t->ws_chunk=p->c;} me->my_ws_gen++; p->fn(p->d); }
static void par_loop(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned fl){ pl p={fn,d,s,e,i,c}; GOMP_parallel(pl_run,&p,n,fl); }
WS(static) WS(dynamic) WS(guided) WS(nonmonotonic_dynamic) WS(nonmonotonic_guided)
WSR(runtime) WSR(nonmonotonic_runtime) WSR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void){ GOMP_barrier(); }
void GOMP_loop_end_nowait(void){}
unsigned GOMP_sections_next(void){ long a,b; return ws_next(&a,&b)? (unsigned)a:0; }
unsigned GOMP_sections_start(unsigned n){ long a,b; return ws_start(1,(long)n+1,1,1,&a,&b)? (unsigned)a:0; }
void GOMP_sections_end(void){ GOMP_barrier(); }
void GOMP_sections_end_nowait(void){}
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned c,unsigned fl){ par_loop(fn,d,n,1,(long)c+1,1,1,fl); }
void GOMP_taskwait(void){}
void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,_Bool c,unsigned fl,void**dep,int pri,void*det){
    (void)c;(void)fl;(void)dep;(void)pri;(void)det; if (cpy){ char buf[sz+al]; char*a=(char*)(((uintptr_t)buf+al-1)&~(al-1)); cpy(a,data); fn(a);} else fn(data); }
int omp_get_thread_num(void){ return sim_active()? T[cur].tid:0; }
int omp_get_num_threads(void){ return sim_active()&&T[cur].tm? T[cur].tm->n:1; }
int omp_get_max_threads(void){ return sim_active()&&T[cur].nthr? T[cur].nthr : cfg_nthreads; }
int omp_get_num_procs(void){ return 8; }
int omp_in_parallel(void){ if (!sim_active()) return 0; for (team *t=T[cur].tm;t;t=t->up) if (t->n>1) return 1; return 0; }
int omp_get_team_size(int l){ if (!sim_active()||l<0||l>T[cur].level) return l?-1:1; team *t=T[cur].tm; for (int k=T[cur].level;t&&k>l;k--) t=t->up; return l&&t?t->n:1; }
int omp_get_level(void){ return sim_active()?T[cur].level:0; }
int omp_get_active_level(void){ return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int l){ if (!l) return 0; if (!sim_active()||l<0||l>T[cur].level) return -1; team *t=T[cur].tm; int id=T[cur].tid; for (int k=T[cur].level;t&&k>l;k--){ id=t->uptid; t=t->up; } return id; }
int omp_get_thread_limit(void){ return MAXT; }
int omp_get_dynamic(void){ return 0; }
void omp_set_dynamic(int x){ (void)x; }
int omp_get_nested(void){ return 0; }
void omp_set_nested(int x){ (void)x; }
void omp_set_num_threads(int n){ if (sim_active()) T[cur].nthr=n; else cfg_nthreads=n; }
double omp_get_wtime(void){ return steps*1e-6; }
double omp_get_wtick(void){ return 1e-6; }
void omp_init_lock(int*l){ *l=0; }
void omp_destroy_lock(int*l){ (void)l; }
void omp_set_lock(int*l){ if (sim_active()) lock_acquire(l); }
void omp_unset_lock(int*l){ if (sim_active()) lock_release(l); }
int omp_test_lock(int*l){ sched_point(3,0); if (*l) return 0; *l=tself+2; return 1; }
typedef struct {int l,owner,ct; void*p;} nlk;
void omp_init_nest_lock(nlk*l){ l->l=l->owner=l->ct=0; }
void omp_destroy_nest_lock(nlk*l){ (void)l; }
void omp_set_nest_lock(nlk*l){ if (l->l && l->owner==tself+2){ l->ct++; return; } lock_acquire(&l->l); l->owner=tself+2; l->ct=1; }
void omp_unset_nest_lock(nlk*l){ if (--l->ct==0){ l->owner=0; lock_release(&l->l);} }
int omp_test_nest_lock(nlk*l){ if (l->l && l->owner!=tself+2) return 0; omp_set_nest_lock(l); return l->ct; }
/* pthread-style locks, in case library code uses them: mapped by objcopy to these */
int sim_mutex_init(int*l,void*a){ (void)a; *l=0; return 0; }
int sim_mutex_lock(int*l){ if (sim_active()) lock_acquire(l); return 0; }
int sim_mutex_trylock(int*l){ if (!sim_active()) return 0; return omp_test_lock(l)?0:EBUSY; }
int sim_mutex_unlock(int*l){ if (sim_active()) lock_release(l); return 0; }
int sim_mutex_destroy(int*l){ (void)l; return 0; }
int sim_pthread_once(int *o, void(*f)(void)){ sched_point(3,0); while (*o==1) block_on(o); if (*o==2) return 0; *o=1; f(); *o=2; wake_key(o); return 0; }

/* ------------------------------------------------------------------ memory-access hooks */
#define CT 16384
static struct { uintptr_t a; uint8_t t, w, hot; } ctab[CT];
/* Static data of the code under test: which words were written while several threads could run. */
extern char __data_start, _end;
static uint8_t *sw; static uintptr_t sw_n;
static void sw_init(void){ sw_n=(uintptr_t)&_end-(uintptr_t)&__data_start; sw=mmap(NULL,sw_n/8+1,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (sw==MAP_FAILED) sim_error("mmap"); }
static void hang(void) __attribute__((noreturn));
static void hang(void){ sim_fail(hangcls,"no result after %llu instrumented memory accesses: the call does not make progress",(unsigned long long)worklimit); }
static inline __attribute__((always_inline)) void acc(uintptr_t a,size_t n,int wr,uint64_t pc){
    if (__builtin_expect(++work>worklimit,0)) { if (sim_started) hang(); }
    sh_check(a,n,pc,wr);
    if (__builtin_expect(nrun<2,1)) return;
    int me=cur; if (me<0) return;
    if (a-T[me].slo < STSIZE) return;
    int strength=1; uintptr_t so=a-(uintptr_t)&__data_start;
    if (so<sw_n){ if (wr) sw[so>>3]=1; if (sw[so>>3]) strength=2; }   // a static variable that changes while threads run
    else {
        unsigned h=(a>>3)*2654435761u>>18; h&=CT-1;
        if (ctab[h].a==(a>>3)){ if (ctab[h].t!=me && (wr||ctab[h].w)) ctab[h].hot=1; if (ctab[h].hot) strength=2; if (ctab[h].t!=me) ctab[h].w=0; }
        else ctab[h].w=ctab[h].hot=0;
        ctab[h].a=a>>3; ctab[h].t=me; ctab[h].w|=wr;
    }
    sched_point(strength,pc);
}
#define RA ((uint64_t)__builtin_return_address(0))
#define HK(n) void __tsan_read##n(void*p){acc((uintptr_t)p,n,0,RA);} void __tsan_write##n(void*p){acc((uintptr_t)p,n,1,RA);} \
 void __tsan_unaligned_read##n(void*p){acc((uintptr_t)p,n,0,RA);} void __tsan_unaligned_write##n(void*p){acc((uintptr_t)p,n,1,RA);} \
 void __tsan_volatile_read##n(void*p){acc((uintptr_t)p,n,0,RA);} void __tsan_volatile_write##n(void*p){acc((uintptr_t)p,n,1,RA);} \
 void __tsan_read##n##_pc(void*p,void*pc){acc((uintptr_t)p,n,0,(uint64_t)pc);} void __tsan_write##n##_pc(void*p,void*pc){acc((uintptr_t)p,n,1,(uint64_t)pc);}
HK(1) HK(2) HK(4) HK(8) HK(16)
void __tsan_read_range(void*p,size_t n){acc((uintptr_t)p,n,0,RA);}
void __tsan_write_range(void*p,size_t n){acc((uintptr_t)p,n,1,RA);}
void __tsan_init(void){} void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){}
void __tsan_vptr_update(void**p,void*v){(void)p;(void)v;}
void __tsan_vptr_read(void**p){(void)p;}
void __tsan_atomic_thread_fence(int m){(void)m;} void __tsan_atomic_signal_fence(int m){(void)m;}
#define AT(b,T_) \
 T_ __tsan_atomic##b##_load(const T_*p,int m){(void)m; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,0); return *p;} \
 void __tsan_atomic##b##_store(T_*p,T_ v,int m){(void)m; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); *p=v;} \
 T_ __tsan_atomic##b##_exchange(T_*p,T_ v,int m){(void)m; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); T_ o=*p; *p=v; return o;} \
 T_ __tsan_atomic##b##_fetch_add(T_*p,T_ v,int m){(void)m; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); T_ o=*p; *p=o+v; return o;} \
 T_ __tsan_atomic##b##_fetch_sub(T_*p,T_ v,int m){(void)m; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); T_ o=*p; *p=o-v; return o;} \
 T_ __tsan_atomic##b##_fetch_and(T_*p,T_ v,int m){(void)m; sched_point(2,RA); T_ o=*p; *p=o&v; return o;} \
 T_ __tsan_atomic##b##_fetch_or(T_*p,T_ v,int m){(void)m; sched_point(2,RA); T_ o=*p; *p=o|v; return o;} \
 T_ __tsan_atomic##b##_fetch_xor(T_*p,T_ v,int m){(void)m; sched_point(2,RA); T_ o=*p; *p=o^v; return o;} \
 T_ __tsan_atomic##b##_fetch_nand(T_*p,T_ v,int m){(void)m; sched_point(2,RA); T_ o=*p; *p=~(o&v); return o;} \
 int __tsan_atomic##b##_compare_exchange_strong(T_*p,T_*e,T_ v,int m,int f){(void)m;(void)f; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); if (*p==*e){*p=v;return 1;} *e=*p; return 0;} \
 int __tsan_atomic##b##_compare_exchange_weak(T_*p,T_*e,T_ v,int m,int f){(void)m;(void)f; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); if (*p==*e){*p=v;return 1;} *e=*p; return 0;} \
 T_ __tsan_atomic##b##_compare_exchange_val(T_*p,T_ e,T_ v,int m,int f){(void)m;(void)f; sched_point(2,RA); sh_check((uintptr_t)p,b/8,RA,1); T_ o=*p; if (o==e)*p=v; return o;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t) AT(128,unsigned __int128)

/* libc functions called by library code, checked against the heap shadow (objcopy redirects the library's calls here) */
void *sim_memcpy(void*d,const void*s,size_t n){ if (n){ acc((uintptr_t)s,n,0,RA); acc((uintptr_t)d,n,1,RA);} return memcpy(d,s,n); }
void *sim_memmove(void*d,const void*s,size_t n){ if (n){ acc((uintptr_t)s,n,0,RA); acc((uintptr_t)d,n,1,RA);} return memmove(d,s,n); }
void *sim_memset(void*d,int c,size_t n){ if (n) acc((uintptr_t)d,n,1,RA); return memset(d,c,n); }
void *sim_memcpy_chk(void*d,const void*s,size_t n,size_t lim){ if (n>lim) { g_out->pcs[0]=RA; sim_fail("memory:buffer-overflow","memcpy of %zu bytes into %zu",n,lim);} return sim_memcpy(d,s,n); }
void *sim_memmove_chk(void*d,const void*s,size_t n,size_t lim){ if (n>lim) { g_out->pcs[0]=RA; sim_fail("memory:buffer-overflow","memmove of %zu bytes into %zu",n,lim);} return sim_memmove(d,s,n); }
void *sim_memset_chk(void*d,int c,size_t n,size_t lim){ if (n>lim) { g_out->pcs[0]=RA; sim_fail("memory:buffer-overflow","memset of %zu bytes into %zu",n,lim);} return sim_memset(d,c,n); }
static size_t slen(const char*s,uint64_t pc){ size_t n=strlen(s); acc((uintptr_t)s,n+1,0,pc); return n; }
size_t sim_strlen(const char*s){ return slen(s,RA); }
char *sim_strdup(const char*s){ slen(s,RA); return strdup(s); }
char *sim_strcpy(char*d,const char*s){ size_t n=slen(s,RA); acc((uintptr_t)d,n+1,1,RA); return strcpy(d,s); }
char *sim_strcpy_chk(char*d,const char*s,size_t lim){ size_t n=slen(s,RA); if (n+1>lim){ g_out->pcs[0]=RA; sim_fail("memory:buffer-overflow","strcpy of %zu bytes into %zu",n+1,lim);} return sim_strcpy(d,s); }
int sim_strcmp(const char*a,const char*b){ slen(a,RA); slen(b,RA); return strcmp(a,b); }
int sim_strcasecmp(const char*a,const char*b){ slen(a,RA); slen(b,RA); return strcasecmp(a,b); }
char *sim_strchr(const char*a,int c){ slen(a,RA); return strchr(a,c); }
char *sim_strstr(const char*a,const char*b){ slen(a,RA); slen(b,RA); return strstr(a,b); }

/* ------------------------------------------------------------------ crashes and the life of one run */
static void crash_handler(int sig, siginfo_t *si, void *ucv){
    ucontext_t *uc=ucv;
    if (getenv("APSIM_BT")){ void *b[40]; int n=backtrace(b,40); FILE *bf=fopen(getenv("APSIM_BT"),"w"); if(bf){ for (int i=0;i<n;i++) fprintf(bf,"BT %p\n",b[i]); fclose(bf);} }   // debugging aid
    g_out->pcs[0]=uc->uc_mcontext.gregs[REG_RIP];
    // scan the stack for return addresses into our text, for the report
    extern char __executable_start, etext;
    uint64_t *sp=(uint64_t*)uc->uc_mcontext.gregs[REG_RSP]; int k=1;
    if (tself>=0) for (uint64_t *q=sp; k<4 && (uintptr_t)q<T[tself].shi-8 && (uintptr_t)q>=T[tself].slo && q<sp+512; q++)
        if (*q>(uintptr_t)&__executable_start && *q<(uintptr_t)&etext) g_out->pcs[k++]=*q;
    snprintf(g_out->cls,sizeof g_out->cls,"crash:%s", sig==SIGSEGV?"SIGSEGV":sig==SIGABRT?"SIGABRT":sig==SIGFPE?"SIGFPE":sig==SIGBUS?"SIGBUS":"signal");
    snprintf(g_out->msg,sizeof g_out->msg,"the process was killed by signal %d (address %p) in thread %d",sig,si->si_addr,tself);
    finish(V_VIOLATION);
}
/* A simulated process: runs fn in a forked copy; returns 0 when it ended by itself, 1 when it was killed by
sim_power_loss().  Its memory is gone afterwards; the disk, the decision streams and the shared log survive. */
int sim_process(void (*fn)(void*),void *arg){
    if (nT!=1) sim_error("sim_process with %d threads",nT);
    g_out->verdict=-2;
    pid_t p=fork();
    if (p<0) sim_error("fork");
    if (!p){ prctl(PR_SET_PDEATHSIG,SIGKILL); prctl(78,1,0,0,0); g_out->hash=sim_hash("proc",4,g_out->hash); fn(arg); g_out->work+=work; _exit(76); }
    int st; while (waitpid(p,&st,0)<0 && errno==EINTR);
    if (WIFEXITED(st) && WEXITSTATUS(st)==76) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st)==77) return 1;
    if (g_out->verdict!=-2) _exit(0);   // the inner process recorded a verdict
    g_out->verdict=-1;
    if (WIFSIGNALED(st)) { snprintf(g_out->msg,sizeof g_out->msg,"the process was killed by signal %d",WTERMSIG(st)); }
    sim_fail("died","the process ended by itself: status %#x",st);
}
void sim_power_loss(void){ g_out->work+=work; _exit(77); }
static const scenario *run_scen;
static void main_body(void *v){ (void)v; run_scen->run(); finish(V_OK); }
void sim_reserve(void){ if (!hinit) heap_init(); }
void sim_child_run(const scenario *s){
    run_scen=s; sw_init();
    shash=FNV0;
    uint64_t x=g_in->seed; rngW=sim_splitmix(&x); rngS=sim_splitmix(&x); rngF=sim_splitmix(&x);
    g_out->hash=FNV0; g_out->state_hash=FNV0;
    struct sigaction sa={.sa_sigaction=crash_handler,.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER}; 
    int sg[]={SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL}; for (int i=0;i<5;i++) sigaction(sg[i],&sa,NULL);
    // scheduling style of the run (irrelevant in replay: the recorded switches decide)
    uint64_t r=sim_splitmix(&rngS);
    sch_mode = r%3; r>>=8;
    static const uint32_t p1[]={0,17,170,800,3000}, p2[]={300,1<<14,1<<19,1<<21,1<<23}, p3[]={1<<20,1<<22,1<<23,1<<23};
    pr[0]=0; pr[1]=p1[r%5]<<(r&7?0:3); r>>=8; pr[2]= sch_mode==1 ? (r&16?1<<23:1<<18) : p2[r%5]; r>>=8; pr[3]=p3[r%4]; r>>=8;
    if (sch_mode==2){ pct_n=1+r%6; r>>=4; pct_hot=r&1; r>>=1; int lg=(pct_hot?2:5)+sim_splitmix(&rngS)%(pct_hot?12:13); for (int i=0;i<pct_n;i++) pct_pts[i]=1+sim_splitmix(&rngS)%(1ULL<<lg); }
    for (int i=0;i<MAXT;i++) T[i].st=T_FREE;
    thr *t=get_thread(); t->fn=main_body; t->arg=NULL; t->tid=0; t->prio=50000; static team root; root.active=1; t->joiner=&root;
    set_state(t,T_RUN); cur=0; sim_started=1;
    fwake(&t->go);
    for(;;) pause();
}
void *sim_shared(size_t n){ void *p=mmap(NULL,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (p==MAP_FAILED) sim_error("mmap"); return p; }
