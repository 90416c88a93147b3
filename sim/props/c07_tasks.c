/* C07: unrelated computations in different threads, each against the same computation alone in a fresh process. */
#include "tasks.h"
static tres *ref_r,*run_r; static int n,rounds,style; static int what[5][3]; static uint64_t sd[5][3];
static int cur_t,cur_k;
static void quiet_all(void){ quiet(); apop_opts.verbose=-1; sim_set_nthreads(1); }
static void alone(void *v){ (void)v; quiet_all(); sim_sched_on=0; run_task(what[cur_t][cur_k],sd[cur_t][cur_k],&ref_r[cur_t*3+cur_k]); ref_r[cur_t*3+cur_k].err=1; }
static void one(int t,void *v){ (void)v; sim_point(); for (int k=0;k<rounds;k++){ run_task(what[t][k],sd[t][k],&run_r[t*3+k]); run_r[t*3+k].err=1; sim_event("t%d %s %016llx",t,tasks[what[t][k]].name,(unsigned long long)run_r[t*3+k].h); } }
static void team_one(void *v){ int t=omp_get_thread_num(); if (t<n) one(t,v); }
static void together(void *v){ (void)v; quiet_all(); if (style==0) sim_callers(n,one,NULL); else sim_team(n,team_one,NULL); }
void scen_tasks(void){
    sim_on_hang("tasks:hang");
    ref_r=sim_shared(15*sizeof *ref_r); run_r=sim_shared(15*sizeof *run_r);
    n=2+w_choose(3); rounds=1+w_choose(2); style=w_choose(2); int same=w_chance(1,2), w0=w_choose(n_tasks); { char *e=getenv("APSIM_TASK"); if (e) for (int i=0;i<n_tasks;i++) if (!strcmp(e,tasks[i].name)){ same=1; w0=i; } } // developer's knob
    for (int t=0;t<n;t++) for (int k=0;k<rounds;k++){ what[t][k]= same? w0 : (int)w_choose(n_tasks); sd[t][k]=w_choose(1<<20); }
    for (int t=0;t<n;t++) for (int k=0;k<rounds;k++) if (tasks[what[t][k]].flags&TK_DB) sim_skip("shared database");
    sim_describe("%d threads:",n); for (int t=0;t<n;t++) for (int k=0;k<rounds;k++) sim_describe("%s%s",k?" then ":t?" | ":" ",tasks[what[t][k]].name);
    sim_nontrivial();
    sim_process(together,NULL);
    for (cur_t=0;cur_t<n;cur_t++) for (cur_k=0;cur_k<rounds;cur_k++){ 
        CK(run_r[cur_t*3+cur_k].err,"tasks:crash","task %s did not finish",tasks[what[cur_t][cur_k]].name);
        sim_process(alone,NULL); tres *a=&run_r[cur_t*3+cur_k],*b=&ref_r[cur_t*3+cur_k];
        const char *d=tres_diff(a,b); if (d){ static char cls[96]; snprintf(cls,96,"tasks:%s",tasks[what[cur_t][cur_k]].name); sim_fail(cls,"%s in thread %d: %s when run alone",tasks[what[cur_t][cur_k]].name,cur_t,d); } 
        sim_state(a->h^what[cur_t][cur_k]); }
}
