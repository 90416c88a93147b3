/* Deterministic simulator for Apophenia: public interface for the scenarios.

One simulated run happens in one forked child process.  Every choice made in a run comes from one
of three decision streams, all derived from one 64-bit seed:
   W  workload choices (sizes, operations, values, configuration of the run)
   S  scheduling decisions (a sparse list: "at scheduling point k, switch to thread t")
   F  fault decisions (a sparse list: "at fault point k, inject this fault with this argument")
The streams are recorded, so a run can be replayed from the recorded streams alone, and minimised
by dropping or shrinking their entries. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

enum { V_OK=0, V_VIOLATION=1, V_SKIP=2, V_ERROR=3 };

enum fault_kind {
    FK_NONE=0,
    FK_OOM,          // an allocation returns NULL
    FK_RD_ERR,       // stream read fails with EIO
    FK_RD_SHORT,     // stream read returns fewer bytes than asked
    FK_RD_TRUNC,     // stream ends early (truncated file / writer died)
    FK_OPEN_FAIL,    // open fails
    FK_WR_ERR,       // stream write fails (ENOSPC/EIO)
    FK_DISK_RDERR,   // SQLite VFS: read error
    FK_DISK_WRERR,   // SQLite VFS: write error
    FK_DISK_FULL,    // SQLite VFS: disk full
    FK_DISK_SYNCERR, // SQLite VFS: fsync error
    FK_DISK_BUSY,    // another process holds the lock
    FK_DISK_OPENERR, // SQLite VFS: open fails
    FK_CRASH,        // power loss: unsynced writes dropped, torn or reordered
    FK_SIGINT,       // SIGINT delivered
    FK_CB_NAN,       // user callback returns NaN
    FK_CB_INF,       // user callback returns +-infinity
    FK_CB_FAIL,      // user callback reports failure
    FK_STALL,        // a thread is stalled for a long time (lowest priority)
    FK_CRASH_TORN,   // part of a sector write survived
    FK_CRASH_LOST,   // unsynced write lost in a crash
    FK_THREADFEW,    // runtime grants fewer threads than asked for
    FK_MAX
};
extern const char *fault_names[FK_MAX];

/* ---- decision streams ---- */
uint32_t w_choose(uint32_t n);            // 0..n-1, recorded; 0 is the "simplest"
int      w_range(int lo, int hi);         // inclusive
int      w_chance(int num, int den);      // true with probability num/den; 'false' is simplest
double   w_unit(void);                    // [0,1)
double   w_real(double lo, double hi);

/* fault points */
void     f_enable(int kind, double rate, int budget); // rate per fault point; budget = max injections in the run
void     f_disable_all(void);
int      f_point(int kind, uint32_t argmax, uint32_t *arg); // 1 if the fault is to be injected here
int      f_point_at(int kind, uint64_t n);                  // helper: as f_point, no argument
extern int f_suspended;                                    // >0: no faults (setup, oracles)
uint64_t f_fired(int kind);                                // faults injected so far this run
uint64_t f_fired_total(void);

/* ---- scheduling ---- */
void sim_point(void);                     // explicit scheduling point (harness callbacks)
void sim_point_strong(void);              // scheduling point with high preemption odds
int  sim_self(void);                      // dense id of current simulated thread
void sim_team(int n, void (*fn)(void*), void *arg); // caller threads as an OpenMP team
void sim_callers(int n, void (*fn)(int, void*), void *arg); // caller threads as plain pthreads (omp_get_thread_num()==0 in each)
void sim_set_nthreads(int n);             // size of teams that library parallel regions get
int  sim_get_nthreads(void);
extern int sim_sched_on;                  // preemption enabled
void sim_sched_mode(int mode);            // 0 = decided by W
uint64_t sim_steps(void);
uint64_t sim_work(void);

/* ---- history / verdict ---- */
void sim_event(const char *fmt, ...) __attribute__((format(printf,1,2)));   // goes to the event log (hashed)
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf,2,3), noreturn)); // violation
void sim_skip(const char *why) __attribute__((noreturn));
void sim_error(const char *fmt, ...) __attribute__((format(printf,1,2), noreturn));  // harness error
void sim_probe(const char *name);         // "this rare condition was reached"
void sim_state(uint64_t h);               // contributes to distinct-states measure
void sim_nontrivial(void);                // this run exercised the property in a non-trivial way
void sim_describe(const char *fmt, ...) __attribute__((format(printf,1,2)));  // one-line description of the case
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim_fail(cls, __VA_ARGS__); } while(0)
void sim_expect_abort(int on);            // abort() inside is not a violation (unused by default)
void sim_on_hang(const char *cls);        // class to report when the work limit is passed
void sim_work_limit(uint64_t lim);

/* ---- memory ---- */
void mem_fill_pattern(unsigned char c);
uint64_t mem_live_bytes(void);            // live heap bytes in the simulated heap
void mem_leak_mark(void); void mem_leak_dump(void); // debugging aid
uint64_t mem_lib_allocs(void);            // allocation attempts made by library code
extern int mem_track_lib;
void mem_freeze(int on);

/* ---- stdio / process seam ---- */
typedef struct { char *data; size_t len, cap; int exists; } simfile;
simfile *io_file(const char *name, int create);     // in-memory file
void io_put(const char *name, const char *data, size_t len);
void io_remove(const char *name);
FILE *sim_pipe(const char *name, const char *mode);   // a stream of the harness's own
void io_read_chunk(int mode);                       // 0 = full reads, 1 = short reads, 2 = one byte at a time
extern int io_system_calls;
int  io_open_streams(void);
extern int io_read_failed;                          // a read error was actually delivered to the library
extern int io_truncated;
extern int io_write_failed;

/* ---- simulated processes ---- */
int  sim_process(void (*fn)(void*), void *arg);     // run fn in a process of its own; 1 = it was killed by a power loss
void sim_power_loss(void);                          // the calling simulated process dies here
void *sim_shared(size_t n);                         // memory that survives the death of a simulated process (the observer's notebook)
void sim_block(const void *key); void sim_wake(const void *key); int sim_active(void);

/* ---- signals ---- */
typedef void (*sim_sighandler)(int);
sim_sighandler sim_signal_installed(int sig);       // handler currently installed through the seam
void sim_raise(int sig);                            // deliver

/* ---- disk (SQLite VFS) ---- */
void disk_init(void);                               // once per run, before disk_attach
void disk_attach(void);                             // once per simulated process: VFS and mutexes into SQLite
void disk_restart(int lossy);                       // after a process died; lossy: power loss
void disk_crash_at(uint64_t n);                     // power fails at the n-th mutating I/O operation from now (0 = never)
uint64_t disk_ops(void);
uint64_t disk_err_count(void);                      // errors delivered to SQLite so far
int  disk_exists(const char *name);
void disk_other_lock(const char *name, int level);  // a lock held by another process
void disk_set_capacity(long bytes);                 // -1 unlimited
void disk_dump(const char *name, char **out, size_t *len);
extern int disk_oom;                                // 1: SQLite's own allocations fail at FK_OOM points
double disk_time(void);

/* ---- scenarios ---- */
typedef struct {
    const char *prop;       // property id
    const char *name;       // scenario name
    void (*run)(void);      // body of one run
    int weight;             // share of runs
    uint64_t pinned;        // unused
} scenario;
extern const scenario scenarios[];
extern const int n_scenarios;

/* rng helpers that are not part of the streams */
uint64_t sim_splitmix(uint64_t *s);
uint64_t sim_hash(const void *p, size_t n, uint64_t h);
#define FNV0 1469598103934665603ULL
#endif
