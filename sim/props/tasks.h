#ifndef TASKS_H
#define TASKS_H
#include "common.h"
/* A task is a self-contained, deterministic use of the library: same seed, same numbers. */
typedef struct { int n; uint64_t h; double v[200]; char s[200]; int err; } tres;
typedef struct { const char *name; void (*fn)(uint64_t seed, tres *o); int flags; } task;
#define TK_SLOW 1      // costs more than about a millisecond
#define TK_DB 2        // uses the process-wide database
extern const task tasks[]; extern const int n_tasks;
void run_task(int which, uint64_t seed, tres *o);
const char *tres_diff(const tres *a, const tres *b);   // NULL if equal bit for bit
#endif
