/* Runner: forks one child per simulated run, spreads runs over worker processes, minimises violations and
writes replay files.
  apsim batch  PROP SEED NRUNS SECS WORKERS OUT.json REPLAYDIR KNOWNFILE
  apsim replay FILE [verbose]
  apsim one    PROP SEED INDEX [verbose]
  apsim hashes PROP SEED NRUNS           (prints run hashes: determinism proof)
*/
#define _GNU_SOURCE
#include "sim_int.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sched.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/personality.h>

static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void *shm(size_t n){ void *p=mmap(NULL,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (p==MAP_FAILED){perror("mmap");_exit(3);} return p; }
static double run_timeout=60;

static void reset_out(sim_result *o){ size_t n=offsetof(sim_result,W); memset(o,0,n); }
/* returns verdict; a child that outlives the timeout is reported as a hang */
static int run_child(sim_input *in, sim_result *out, const scenario *s){
    reset_out(out); out->verdict=-1;
    pid_t p=fork();
    if (p<0){ perror("fork"); _exit(3); }
    if (!p){
        prctl(PR_SET_PDEATHSIG,SIGKILL);
        prctl(78,1,0,0,0);   // PR_FUTEX_HASH_SET_SLOTS 0, the global hash: a private one that grows with the threads leaves the dead process's memory to a kernel worker, which falls behind
        signal(SIGALRM,SIG_DFL); 
        if (!in->verbose){ int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); }
        g_in=in; g_out=out; sim_child_run(s);
    }
    double t0=now(); int st; useconds_t w=20;
    for(;;){
        pid_t r=waitpid(p,&st,WNOHANG);
        if (r==p) break;
        double e=now()-t0;
        if (e>run_timeout){ kill(p,SIGKILL); waitpid(p,&st,0); out->verdict=V_VIOLATION; snprintf(out->cls,sizeof out->cls,"hang:wall"); snprintf(out->msg,sizeof out->msg,"the run did not end within %g s of wall time",run_timeout); out->hash=1; return V_VIOLATION; }
        if (e>0.01) w=1000; else if (e>0.001) w=200;
        usleep(w);
    }
    if (out->verdict==-1){
        out->verdict=V_VIOLATION; snprintf(out->cls,sizeof out->cls,"died");
        if (WIFSIGNALED(st)) snprintf(out->msg,sizeof out->msg,"the run was killed by signal %d",WTERMSIG(st));
        else snprintf(out->msg,sizeof out->msg,"the process ended by itself with exit code %d",WEXITSTATUS(st)); 
        out->hash=2;
    }
    return out->verdict;
}
static int list[64], nlist, totw;
static void select_prop(const char *prop){ nlist=0; totw=0; for (int i=0;i<n_scenarios;i++) if (!strcmp(scenarios[i].prop,prop)){ list[nlist++]=i; totw+=scenarios[i].weight; } if (!nlist){ fprintf(stderr,"no scenario for %s\n",prop); exit(2);} }
static int only_scen=-1;
static void make_input(sim_input *in,const char *prop,uint64_t seed,uint64_t idx){
    memset(in,0,offsetof(sim_input,W)); uint64_t x=seed*0x9E3779B97F4A7C15ULL ^ sim_hash(prop,strlen(prop),FNV0) ^ (idx*0xD1B54A32D192ED03ULL);
    in->seed=sim_splitmix(&x); int w=sim_splitmix(&x)%totw; for (int i=0;i<nlist;i++){ w-=scenarios[list[i]].weight; if (w<0){ in->scen=list[i]; break; } }
    if (only_scen>=0) in->scen=only_scen;
}
static void to_replay(sim_input *in,const sim_result *o){
    in->mode=1; in->nW=o->nW; memcpy(in->W,o->W,sizeof(uint32_t)*o->nW); in->nS=o->nS; memcpy(in->S,o->S,sizeof(sdec)*o->nS); in->nF=o->nF; memcpy(in->F,o->F,sizeof(fdec)*o->nF);
}
static void copy_in(sim_input *d,const sim_input *s){ memcpy(d,s,offsetof(sim_input,W)); memcpy(d->W,s->W,4*s->nW); memcpy(d->S,s->S,sizeof(sdec)*s->nS); memcpy(d->F,s->F,sizeof(fdec)*s->nF); }

/* ---------- replay files ---------- */
static void jesc(FILE *f,const char *s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if (c=='"'||c=='\\') fprintf(f,"\\%c",c); else if (c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }
static void write_replay(const char *path,const char *prop,const sim_input *in,const sim_result *o,uint64_t idx,uint64_t seed,int origS,int origF,int origW){
    FILE *f=fopen(path,"w"); if(!f){perror(path);return;}
    fprintf(f,"apsim-replay 1\nproperty %s\nscenario %s\nverif_seed %llu\nrun_index %llu\nrun_seed %llu\nclass %s\nhash %llu\n",prop,scenarios[in->scen].name,(unsigned long long)seed,(unsigned long long)idx,(unsigned long long)in->seed,o->cls,(unsigned long long)o->hash);
    char m[1500]; snprintf(m,sizeof m,"%s",o->msg); for(char*c=m;*c;c++) if(*c=='\n')*c=' ';
    fprintf(f,"# violation: %s\n",m);
    char dsc[1000]; snprintf(dsc,sizeof dsc,"%s",o->desc); for(char*c=dsc;*c;c++) if(*c=='\n')*c=' ';
    fprintf(f,"# case: %s\n# minimised from %d workload choices, %d switches, %d faults\n",dsc,origW,origS,origF);
    if (o->pcs[0]) fprintf(f,"# pcs: %#lx %#lx %#lx %#lx\n",(unsigned long)o->pcs[0],(unsigned long)o->pcs[1],(unsigned long)o->pcs[2],(unsigned long)o->pcs[3]);
    if (!in->mode) fprintf(f,"mode seeded\n");
    fprintf(f,"W %u",in->nW); for(uint32_t i=0;i<in->nW;i++) fprintf(f," %u",in->W[i]);
    fprintf(f,"\n"); for(uint32_t i=0;i<in->nS;i++) fprintf(f,"S step %llu thread %u -> %u at_pc %#lx\n",(unsigned long long)in->S[i].step,in->S[i].from,in->S[i].to,(unsigned long)in->S[i].pc);
    for(uint32_t i=0;i<in->nF;i++) fprintf(f,"F point %llu kind %s arg %u\n",(unsigned long long)in->F[i].n,fault_names[in->F[i].kind],in->F[i].arg);
    fprintf(f,"end\n"); fclose(f);
}
static int read_replay(const char *path,char *prop,sim_input *in,char *cls,uint64_t *hash){
    FILE *f=fopen(path,"r"); if(!f){perror(path);return -1;}
    memset(in,0,sizeof *in); in->mode=1; in->scen=-1; char *line=NULL; size_t cap=0; char sc[128]="";
    while (getline(&line,&cap,f)>0){
        unsigned long long a; unsigned b,c; char k[64]; unsigned long pc;
        if (sscanf(line,"property %31s",prop)==1) continue;
        if (sscanf(line,"scenario %127s",sc)==1) continue;
        if (sscanf(line,"run_seed %llu",&a)==1){ in->seed=a; continue; }
        if (!strncmp(line,"class ",6)){ snprintf(cls,96,"%s",line+6); cls[strcspn(cls,"\n")]=0; continue; }
        if (sscanf(line,"hash %llu",&a)==1){ *hash=a; continue; }
        if (!strcmp(line,"mode seeded\n")){ in->mode=0; continue; }
        if (line[0]=='W'){ char *p=line+1; unsigned n=strtoul(p,&p,10); for(unsigned i=0;i<n&&i<MAXW;i++) in->W[in->nW++]=strtoul(p,&p,10); continue; }
        if (sscanf(line,"S step %llu thread %u -> %u at_pc %lx",&a,&c,&b,&pc)>=3){ in->S[in->nS++]=(sdec){a,b,c,pc}; continue; }
        if (sscanf(line,"F point %llu kind %63s arg %u",&a,k,&b)==3){ for(int i=0;i<FK_MAX;i++) if(!strcmp(fault_names[i],k)) in->F[in->nF++]=(fdec){a,i,b}; continue; }
    }
    fclose(f);
    for(int i=0;i<n_scenarios;i++) if(!strcmp(scenarios[i].name,sc)&&!strcmp(scenarios[i].prop,prop)) in->scen=i;
    return in->scen<0?-1:0;
}

/* ---------- minimiser ---------- */
static sim_input *mt; static sim_result *mo; static int min_runs; static double min_deadline;
static int still(const sim_input *cand,const char *cls){
    if (now()>min_deadline) return 0;
    min_runs++; copy_in(mt,cand);
    int v=run_child(mt,mo,&scenarios[mt->scen]);
    return v==V_VIOLATION && !strcmp(mo->cls,cls);
}
static void minimise(sim_input *in,const char *cls,double secs){
    sim_input *c=shm(sizeof *c); min_deadline=now()+secs; min_runs=0;
    int changed=1;
    for(int round=0; round<4 && changed && now()<min_deadline; round++){
        changed=0;
        for(uint32_t ch=in->nF; ch>=1; ch/=2) for(uint32_t i=0;i+ch<=in->nF;){ copy_in(c,in); memmove(c->F+i,c->F+i+ch,sizeof(fdec)*(c->nF-i-ch)); c->nF-=ch; if(still(c,cls)){copy_in(in,c);changed=1;} else i+=ch; }
        for(uint32_t ch=in->nS; ch>=1; ch/=2) for(uint32_t i=0;i+ch<=in->nS && now()<min_deadline;){ copy_in(c,in); memmove(c->S+i,c->S+i+ch,sizeof(sdec)*(c->nS-i-ch)); c->nS-=ch; if(still(c,cls)){copy_in(in,c);changed=1;} else i+=ch; }
        // workload: cut tail, delete spans, lower values
        for(uint32_t ch=in->nW; ch>=1; ch/=2){ while(in->nW>=ch){ copy_in(c,in); c->nW-=ch; if(still(c,cls)){copy_in(in,c);changed=1;} else break; } }
        for(uint32_t ch=in->nW/2; ch>=1; ch/=2) for(uint32_t i=0;i+ch<=in->nW && now()<min_deadline;){ copy_in(c,in); memmove(c->W+i,c->W+i+ch,4*(c->nW-i-ch)); c->nW-=ch; if(still(c,cls)){copy_in(in,c);changed=1;} else i+=ch; }
        for(uint32_t i=0;i<in->nW && i<400 && now()<min_deadline;i++) if(in->W[i]){
            uint32_t tries[3]={0,in->W[i]/2,in->W[i]-1}; for(int k=0;k<3;k++){ if (tries[k]>=in->W[i]) continue; copy_in(c,in); c->W[i]=tries[k]; if(still(c,cls)){copy_in(in,c);changed=1; break;} } }
    }
    munmap(c,sizeof *c);
}

/* ---------- known findings ---------- */
static char known[64][2][160]; static int nknown;
static void load_known(const char *path,const char *prop){
    FILE *f=fopen(path,"r"); if(!f) return; char l[2000];
    while(fgets(l,sizeof l,f)){ char p[32],c[160]; if (sscanf(l,"finding: property=%31s class=%159s",p,c)==2 && !strcmp(p,prop) && nknown<64){ snprintf(known[nknown][0],160,"%s",c); char*d=strstr(l," desc="); snprintf(known[nknown][1],160,"%s",d?d+6:c); known[nknown][1][strcspn(known[nknown][1],"\n")]=0; nknown++; } }
    fclose(f);
}
static int is_known(const char *cls){ for(int i=0;i<nknown;i++) if(!strcmp(known[i][0],cls)) return i; return -1; }

/* ---------- batch ---------- */
#define HB 22
typedef struct {
    uint64_t runs, ok, skips, nontrivial, viol_known[64], rechecks, recheck_bad, steps, work, switches, multi, faultruns;
    uint64_t faults[FK_MAX], faultkind_runs[FK_MAX];
    uint32_t nprobe; char probe[256][48]; uint64_t probe_ct[256];
    uint64_t scen_runs[256];
    int stop, viol_idx_set; uint64_t viol_idx, viol_all[64]; int nviol; int nsamples; char samples[12][1000];
    uint64_t distinct_sched, distinct_hist, distinct_state, distinct_cases; int err; char errmsg[400];
    int maxthreads;
    volatile int lk;
    uint64_t tab[4][1<<HB];
} batch;
static batch *B;
static void blk(void){ while(__sync_lock_test_and_set(&B->lk,1)) sched_yield(); } static void bul(void){ __sync_lock_release(&B->lk); }
static int ins(int k,uint64_t h){ if(!h)h=1; uint64_t i=h>>(64-HB),n=0; while(n++<64){ if(B->tab[k][i]==h) return 0; if(!B->tab[k][i]){B->tab[k][i]=h;return 1;} i=(i+1)&((1<<HB)-1);} return 0; }

static void account(const sim_input *in,const sim_result *o){
    blk();
    B->runs++; B->scen_runs[in->scen]++; if(o->verdict==V_SKIP) B->skips++; if(o->verdict==V_OK) B->ok++;
    B->steps+=o->step_ct; B->work+=o->work; B->switches+=o->switch_ct; if(o->nS) B->multi++; 
    int any=0; for(int i=0;i<FK_MAX;i++){ B->faults[i]+=o->faults[i]; if(o->faults[i]){B->faultkind_runs[i]++; any=1;} } if(any)B->faultruns++;
    for(uint32_t i=0;i<o->nprobe;i++){ uint32_t j; for(j=0;j<B->nprobe;j++) if(!strcmp(B->probe[j],o->probe[i])) break; if(j<256){ if(j==B->nprobe){ strcpy(B->probe[j],o->probe[i]); B->nprobe++; } B->probe_ct[j]+=o->probe_ct[i]; } }
    if(o->switch_ct) B->distinct_sched+=ins(0,o->sched_hash);
    int nh=ins(1,o->hash); B->distinct_hist+=nh;
    if(o->state_hash!=FNV0) B->distinct_state+=ins(2,o->state_hash);
    if(o->nontrivial){ B->nontrivial++; if(nh) B->distinct_cases++; if(B->nsamples<12 && o->desc[0] && (B->runs%17==0||B->nsamples<3)){ snprintf(B->samples[B->nsamples++],1000,"[%s seed=%llu] %.850s",scenarios[in->scen].name,(unsigned long long)in->seed,o->desc); } }
    if(o->maxthreads>B->maxthreads) B->maxthreads=o->maxthreads;
    bul();
}
int main(int argc,char **argv){
    // a fixed address-space layout, where the system permits it: even what code makes of stray addresses then repeats
    if (!getenv("APSIM_FIXED") && personality(0xffffffff)!=-1 && personality((unsigned long)personality(0xffffffff)|ADDR_NO_RANDOMIZE)!=-1){ setenv("APSIM_FIXED","1",1); execv("/proc/self/exe",argv); }
    sim_reserve();
    if (argc<2){ fprintf(stderr,"usage\n"); return 2; }
    if (getenv("APSIM_SCEN")){ for(int i=0;i<n_scenarios;i++) if(!strcmp(scenarios[i].name,getenv("APSIM_SCEN"))) only_scen=i; }
    if (getenv("APSIM_TIMEOUT")) run_timeout=atof(getenv("APSIM_TIMEOUT"));
    sim_input *in=shm(sizeof *in); sim_result *out=shm(sizeof *out);
    mt=shm(sizeof *mt); mo=shm(sizeof *mo);
    if (!strcmp(argv[1],"props")){ for(int i=0;i<n_scenarios;i++) printf("%s %s\n",scenarios[i].prop,scenarios[i].name); return 0; }
    if (!strcmp(argv[1],"one")){
        select_prop(argv[2]); make_input(in,argv[2],strtoull(argv[3],0,10),strtoull(argv[4],0,10)); in->verbose=argc>5?atoi(argv[5]):0;
        int v=run_child(in,out,&scenarios[in->scen]);
        printf("scenario %s verdict %d cls %s msg %s\ndesc %s\nhash %llu steps %llu work %llu switches %llu nW %u nS %u nF %u pcs %#lx %#lx %#lx %#lx\n",scenarios[in->scen].name,v,out->cls,out->msg,out->desc,(unsigned long long)out->hash,(unsigned long long)out->step_ct,(unsigned long long)out->work,(unsigned long long)out->switch_ct,out->nW,out->nS,out->nF,(unsigned long)out->pcs[0],(unsigned long)out->pcs[1],(unsigned long)out->pcs[2],(unsigned long)out->pcs[3]);
        return v==V_VIOLATION;
    }
    if (!strcmp(argv[1],"hashes")){
        select_prop(argv[2]); uint64_t n=strtoull(argv[4],0,10);
        for(uint64_t i=0;i<n;i++){ make_input(in,argv[2],strtoull(argv[3],0,10),i); int v=run_child(in,out,&scenarios[in->scen]); printf("%llu %d %016llx\n",(unsigned long long)i,v,(unsigned long long)out->hash); }
        return 0;
    }
    if (!strcmp(argv[1],"replay")){
        char prop[32]="",cls[96]=""; uint64_t h=0; if(read_replay(argv[2],prop,in,cls,&h)){ fprintf(stderr,"bad replay file\n"); return 2; }
        in->verbose=argc>3?atoi(argv[3]):0;
        int v=run_child(in,out,&scenarios[in->scen]);
        if (v==V_VIOLATION){ printf("reproduced=%s class=%s hash=%llu\n%s\ncase: %s\n",(!strcmp(cls,out->cls)&&h==out->hash)?"exact":"different",out->cls,(unsigned long long)out->hash,out->msg,out->desc); return (!strcmp(cls,out->cls)&&(h==out->hash))?1:4; }
        printf("reproduced=no verdict=%d\n",v); return 0;
    }
    if (strcmp(argv[1],"batch")||argc<10){ fprintf(stderr,"usage\n"); return 2; }
    const char *prop=argv[2]; uint64_t seed=strtoull(argv[3],0,10), nruns=strtoull(argv[4],0,10); double secs=atof(argv[5]); int workers=atoi(argv[6]); const char *outp=argv[7],*rdir=argv[8];
    select_prop(prop); load_known(argv[9],prop);
    B=shm(sizeof *B); B->viol_idx=~0ULL;
    double t0=now();
    pid_t kids[64];
    for(int w=0;w<workers;w++){
        kids[w]=fork();
        if(!kids[w]){
            prctl(PR_SET_PDEATHSIG,SIGKILL);
            cpu_set_t cs; CPU_ZERO(&cs); cpu_set_t av; if(!sched_getaffinity(0,sizeof av,&av)){ int n=CPU_COUNT(&av),k=w%n; for(int c=0;c<CPU_SETSIZE;c++) if(CPU_ISSET(c,&av)&&k--==0){CPU_SET(c,&cs);break;} sched_setaffinity(0,sizeof cs,&cs);} 
            in=shm(sizeof *in); out=shm(sizeof *out);
            for(uint64_t i=w;i<nruns && !B->stop && now()-t0<secs;i+=workers){
                if (i>B->viol_idx) break;
                make_input(in,prop,seed,i);
                int v=run_child(in,out,&scenarios[in->scen]);
                if(v==V_ERROR){ blk(); B->err=1; B->stop=1; snprintf(B->errmsg,400,"run %llu (%s): %.300s",(unsigned long long)i,scenarios[in->scen].name,out->msg); bul(); break; }
                account(in,out);
                if(v==V_VIOLATION){ int k=is_known(out->cls); blk(); if(k>=0) B->viol_known[k]++; else { if(i<B->viol_idx) B->viol_idx=i; B->viol_idx_set=1; if(B->nviol<64) B->viol_all[B->nviol++]=i; } bul(); if(k<0) break; }
                else if(i%64==(uint64_t)(w+3)%64 || i<8){ // determinism recheck
                    uint64_t h=out->hash; make_input(in,prop,seed,i); run_child(in,out,&scenarios[in->scen]); blk(); B->rechecks++; if(out->hash!=h){ B->recheck_bad++; snprintf(B->errmsg,400,"run %llu (%s) is not deterministic: %llx vs %llx",(unsigned long long)i,scenarios[in->scen].name,(unsigned long long)h,(unsigned long long)out->hash);} bul(); }
            }
            _exit(0);
        }
    }
    for(int w=0;w<workers;w++) waitpid(kids[w],NULL,0);
    double wall=now()-t0;
    int rc=0; char rpath[512]=""; char vcls[96]="",vmsg[1500]="";
    int viol=0;
    if(B->err){ printf("HARNESS-ERROR %s\n",B->errmsg); rc=3; }
    else if(B->recheck_bad && !B->nviol){ printf("NONDETERMINISM %s\n",B->errmsg); rc=3; }
    for(int x=0;x<B->nviol;x++) for(int y=x+1;y<B->nviol;y++) if(B->viol_all[y]<B->viol_all[x]){ uint64_t q=B->viol_all[x]; B->viol_all[x]=B->viol_all[y]; B->viol_all[y]=q; }
    sim_input *orig=shm(sizeof *orig);
    for(int x=0;x<B->nviol && !viol;x++){
        uint64_t i=B->viol_all[x]; make_input(in,prop,seed,i);
        run_child(in,out,&scenarios[in->scen]); uint64_t h1=out->hash; char cls[96]; strcpy(cls,out->cls); int v1=out->verdict;
        make_input(in,prop,seed,i); run_child(in,out,&scenarios[in->scen]);
        if(v1!=V_VIOLATION||out->hash!=h1||strcmp(cls,out->cls)){ printf("NONDETERMINISM violation at run %llu does not repeat (%s / %s)\n",(unsigned long long)i,cls,out->cls); continue; }
        int oW=out->nW,oS=out->nS,oF=out->nF, over=out->overflow; to_replay(in,out); copy_in(orig,in);
        int rv= over? 0 : run_child(in,out,&scenarios[in->scen]), whole=1;   // the recorded streams of choices, switches and faults
        if(rv==V_VIOLATION&&!strcmp(out->cls,cls)){
            minimise(in,cls,strstr(cls,"hang")?60:45);
            for(int k=0;k<2&&whole;k++){ // the smaller case must repeat, or the recorded one, or else the seed itself is the case
                copy_in(mt,in); run_child(mt,out,&scenarios[in->scen]); uint64_t h2=out->hash; int ok=out->verdict==V_VIOLATION&&!strcmp(out->cls,cls);
                run_child(mt,out,&scenarios[in->scen]);
                if(ok&&out->verdict==V_VIOLATION&&!strcmp(out->cls,cls)&&out->hash==h2) whole=0; else copy_in(in,orig);
            }
        }
        if(whole){ make_input(in,prop,seed,i); run_child(in,out,&scenarios[in->scen]); }
        mkdir(rdir,0777);
        snprintf(rpath,sizeof rpath,"%s/%s-%llu-%llu.replay",rdir,prop,(unsigned long long)seed,(unsigned long long)i);
        write_replay(rpath,prop,in,out,i,seed,oS,oF,oW); strcpy(vcls,out->cls); strcpy(vmsg,out->msg);
        viol=1; rc=1;
        if(whole) printf("violation class=%s: %s\ncase: %s\nnot minimised: the case is its seed\n",out->cls,out->msg,out->desc);
        else printf("violation class=%s: %s\ncase: %s\nminimised to %u choices, %u switches, %u faults (from %d/%d/%d) in %d runs; pcs %#lx %#lx %#lx %#lx\n",out->cls,out->msg,out->desc,in->nW,in->nS,in->nF,oW,oS,oF,min_runs,(unsigned long)out->pcs[0],(unsigned long)out->pcs[1],(unsigned long)out->pcs[2],(unsigned long)out->pcs[3]);
        printf("REPLAY %s\n",rpath);
    }
    if(B->nviol && !viol && rc==0) rc=3;
    FILE *f=fopen(outp,"w"); if(!f){perror(outp);return 3;}
    fprintf(f,"{\"property\":\"%s\",\"seed\":%llu,\"requested_runs\":%llu,\"runs\":%llu,\"ok\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"wall_s\":%.3f,\"workers\":%d,\n",prop,(unsigned long long)seed,(unsigned long long)nruns,(unsigned long long)B->runs,(unsigned long long)B->ok,(unsigned long long)B->skips,(unsigned long long)B->nontrivial,(unsigned long long)B->distinct_cases,wall,workers);
    fprintf(f,"\"sched_points\":%llu,\"mem_accesses\":%llu,\"switches\":%llu,\"runs_with_preemptions\":%llu,\"runs_with_faults\":%llu,\"distinct_interleavings\":%llu,\"distinct_histories\":%llu,\"distinct_end_states\":%llu,\"determinism_rechecks\":%llu,\"determinism_mismatches\":%llu,\"max_threads\":%d,\n",(unsigned long long)B->steps,(unsigned long long)B->work,(unsigned long long)B->switches,(unsigned long long)B->multi,(unsigned long long)B->faultruns,(unsigned long long)B->distinct_sched,(unsigned long long)B->distinct_hist,(unsigned long long)B->distinct_state,(unsigned long long)B->rechecks,(unsigned long long)B->recheck_bad,B->maxthreads);
    fprintf(f,"\"faults\":{"); int c=0; for(int i=1;i<FK_MAX;i++) if(B->faults[i]) fprintf(f,"%s\"%s\":{\"injected\":%llu,\"runs\":%llu}",c++?",":"",fault_names[i],(unsigned long long)B->faults[i],(unsigned long long)B->faultkind_runs[i]);
    fprintf(f,"},\n\"probes\":{"); for(uint32_t i=0;i<B->nprobe;i++){ fprintf(f,"%s",i?",":""); jesc(f,B->probe[i]); fprintf(f,":%llu",(unsigned long long)B->probe_ct[i]); }
    fprintf(f,"},\n\"scenarios\":{"); for(int i=0;i<nlist;i++) fprintf(f,"%s\"%s\":%llu",i?",":"",scenarios[list[i]].name,(unsigned long long)B->scen_runs[list[i]]);
    fprintf(f,"},\n\"samples\":["); for(int i=0;i<B->nsamples;i++){ fprintf(f,"%s",i?",":""); jesc(f,B->samples[i]); }
    fprintf(f,"],\n\"known\":["); c=0; for(int i=0;i<nknown;i++){ fprintf(f,"%s{\"class\":",c++?",":""); jesc(f,known[i][0]); fprintf(f,",\"hits\":%llu}",(unsigned long long)B->viol_known[i]); }
    fprintf(f,"],\n\"violation\":%d,\"violation_class\":",viol); jesc(f,vcls); fprintf(f,",\"violation_msg\":"); jesc(f,vmsg); fprintf(f,",\"replay\":"); jesc(f,rpath); fprintf(f,",\"error\":"); jesc(f,B->errmsg); fprintf(f,"}\n");
    fclose(f);
    return rc;
}
