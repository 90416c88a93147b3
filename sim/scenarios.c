#include "sim.h"
#define S(p,n,w) void scen_##n(void);
#include "scenarios.def"
#undef S
#define S(p,n,w) {p,#n,scen_##n,w,0},
const scenario scenarios[]={
#include "scenarios.def"
};
const int n_scenarios=sizeof scenarios/sizeof *scenarios;
