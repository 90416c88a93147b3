#ifndef SIM_INT_H
#define SIM_INT_H
#include "sim.h"
#define MAXW (1u<<17)
#define MAXS (1u<<15)
#define MAXF 1024
#define MAXPROBE 48
typedef struct { uint64_t step; uint32_t to; uint32_t from; uint64_t pc; } sdec;
typedef struct { uint64_t n; uint32_t kind; uint32_t arg; } fdec;
typedef struct {
    int mode;                 // 0 generate, 1 replay
    uint64_t seed;
    int scen;
    uint32_t nW, nS, nF;
    uint32_t W[MAXW];
    sdec S[MAXS];
    fdec F[MAXF];
    int verbose;
} sim_input;
typedef struct {
    int verdict;
    char cls[96];
    char msg[1500];
    char desc[1000];
    uint64_t hash, sched_hash, state_hash;
    uint64_t step_ct, work, switch_ct;
    struct { uint64_t rW,rS,rF,steps,switches,shash; double f_rate[FK_MAX]; int f_budget[FK_MAX]; uint64_t f_count[FK_MAX]; uint32_t f_idx[FK_MAX]; uint64_t f_pt[FK_MAX]; uint32_t sIdx; } st;
    int nontrivial;
    int overflow;
    uint64_t faults[FK_MAX];
    uint32_t nprobe; char probe[MAXPROBE][48]; uint32_t probe_ct[MAXPROBE];
    uint64_t pcs[4];
    int maxthreads;
    uint32_t nW, nS, nF;
    uint32_t W[MAXW];
    sdec S[MAXS];
    fdec F[MAXF];
} sim_result;
extern sim_input *g_in;
extern sim_result *g_out;
void sim_child_run(const scenario *s) __attribute__((noreturn));
void sim_reserve(void);
int  sim_multi(void);
void *sim_raw_alloc(size_t n);
#endif
