/* C02: the per-thread generator store. */
#include "common.h"
#define MAXN 16
static gsl_rng *seen[MAXN]; static unsigned long seed0; static int maxreq=-1;
static gsl_rng *ref[MAXN];            // reference streams, advanced in step with the real ones
static int nth, nops, implicit_team, drawmode; static int plan[MAXN][12];
static void note(int num,gsl_rng *r,int who){
    CK(r!=NULL,"rng:null","thread %d asked for generator %d and got NULL",who,num);
    if (num>maxreq) maxreq=num;
    if (!seen[num]){ for (int i=0;i<MAXN;i++) if (i!=num) CK(seen[i]!=r,"rng:shared","generators %d and %d are the same object",i,num); seen[num]=r; }
    else CK(seen[num]==r,"rng:not-stable","generator %d changed identity",num);
}
static void draw_check(int num,gsl_rng *r,int n){
    for (int i=0;i<n;i++){
        if (!ref[num]) ref[num]=rng_of(seed0+1+num);
        unsigned long a=gsl_rng_get(r); unsigned long b=gsl_rng_get(ref[num]);
        CK(a==b,"rng:wrong-stream","generator %d gives %lu where the stream seeded with %lu gives %lu",num,a,seed0+1+num,b);
        sim_point();
    }
}
static void body(int me,void *v){ (void)v;
    for (int k=0;k<nops;k++){
        int num=plan[me][k];
        if (num==-1){ gsl_rng *r=apop_rng_get_thread(-1); int t=omp_get_thread_num(); note(t,r,me); if (implicit_team&&drawmode) draw_check(t,r,1+k%3); }
        else { gsl_rng *r=apop_rng_get_thread(num); note(num,r,me); if (drawmode && num==me) draw_check(num,r,1+k%3); }
        sim_event("t%d asked %d",me,num);
    }
}
static void team_body(void *v){ body(omp_get_thread_num(),v); }
static void dummy(void *v){ (void)v; gsl_rng *r=apop_rng_get_thread(); int t=omp_get_thread_num(); note(t,r,t); }
void scen_rng_store(void){
    quiet(); apop_opts.verbose=-1;
    seed0= w_chance(1,2)? apop_opts.rng_seed : w_choose(100000); apop_opts.rng_seed=seed0;
    int pre=w_choose(4);                       // history before the threads start
    for (int i=0;i<pre;i++){ int num=w_choose(6); note(num,apop_rng_get_thread(num),0); }
    nth=pick_threads(12); nops=1+w_choose(8); implicit_team=w_choose(2); drawmode=w_choose(2);
    for (int t=0;t<nth;t++) for (int k=0;k<nops;k++) plan[t][k]= w_chance(1,3)? -1 : w_chance(1,2)? t : (int)w_choose(MAXN);
    sim_describe("seed %lu, %d earlier requests, %d %s x %d requests%s",seed0,pre,nth,implicit_team?"OpenMP workers":"plain threads",nops,drawmode?" with draws":"");
    if (nth>1) sim_nontrivial();
    if (implicit_team) sim_team(nth,team_body,NULL); else sim_callers(nth,body,NULL);
    if (w_chance(1,2)) sim_team(pick_threads(12),dummy,NULL);
    // afterwards: everything still there, every generator still in step with its reference
    for (int i=0;i<=maxreq;i++){ gsl_rng *r=apop_rng_get_thread(i); note(i,r,99); draw_check(i,r,2); }
    CK((long)apop_opts.rng_seed==(long)seed0+maxreq+1,"rng:seed-count","after requests up to %d the seed went from %lu to %ld",maxreq,seed0,(long)apop_opts.rng_seed);
    sim_state(maxreq*100+nth);
}
