#ifndef COMMON_H
#define COMMON_H
#include "sim.h"
#include <apop.h>
#include <string.h>
#include <math.h>
#include <stdlib.h>
#include <signal.h>
#include <omp.h>
extern int mem_oom_scope;
extern char *note_buf; extern size_t note_len;       // what the library printed through its notification stream
void quiet(void);                                     // notifications go to memory
int  same_d(double a, double b);                      // bitwise equal or both NaN
int  close_d(double a, double b, double tol);
/* NULL when equal, else a description of the first difference */
const char *vec_diff(const gsl_vector *a, const gsl_vector *b);
const char *mat_diff(const gsl_matrix *a, const gsl_matrix *b);
const char *data_diff(const apop_data *a, const apop_data *b, int names);   // first page, all parts
const char *data_diff_pages(const apop_data *a, const apop_data *b, int names);
uint64_t data_hash(const apop_data *d);
uint64_t dbl_hash(double x, uint64_t h);
apop_data *deep_copy(const apop_data *d);             // harness' own copy, does not use the library's copying code
gsl_rng *rng_of(unsigned long seed);
int pick_threads(int max);                            // 1..max, biased to 2-4
#define CK(c,cls,...) SIM_CHECK(c,cls,__VA_ARGS__)
#endif
