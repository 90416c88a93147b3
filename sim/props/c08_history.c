/* C08: the same computation after different histories and over different memory contents. */
#include "tasks.h"
static tres *ref_r,*run_r; static int which; static uint64_t tseed; static int nh, hist[12]; static uint64_t hseed[12]; static int fill1,fill2;
static void ref_body(void *v){ (void)v; mem_fill_pattern(fill1); quiet(); apop_opts.verbose=-1; run_task(which,tseed,ref_r); }
static void run_body(void *v){ (void)v; mem_fill_pattern(fill2); quiet(); apop_opts.verbose=-1; tres t; for (int i=0;i<nh;i++){ run_task(hist[i],hseed[i],&t); } run_task(which,tseed,run_r); }
void scen_history(void){
    ref_r=sim_shared(sizeof *ref_r); run_r=sim_shared(sizeof *run_r);
    static const int fills[]={0,0xA5,0xFF,0x7F,0x3F,0x01};
    which=w_choose(n_tasks); tseed=w_choose(1<<20); fill1=fills[w_choose(6)]; fill2=fills[w_choose(6)];
    nh=w_choose(6); for (int i=0;i<nh;i++){ hist[i]= w_chance(1,3)? which : w_choose(n_tasks); hseed[i]=w_choose(1<<20); }
    sim_describe("task %s (seed %llu), heap filled with %02x, against the same task in a process filled with %02x after",tasks[which].name,(unsigned long long)tseed,fill1,fill2); for (int i=0;i<nh;i++) sim_describe(" %s",tasks[hist[i]].name);
    if (nh||fill1!=fill2) sim_nontrivial();
    sim_process(ref_body,NULL); sim_process(run_body,NULL);
    const char *d=tres_diff(run_r,ref_r);
    if (d){ static char cls[96]; snprintf(cls,96,"history:%s",tasks[which].name); sim_fail(cls,"%s: %s when run alone in a fresh process",tasks[which].name,d); }
    sim_event("%s %016llx",tasks[which].name,(unsigned long long)ref_r->h); sim_state(ref_r->h^(which*7919)); sim_state(nh*1000+fill1+fill2);
}
