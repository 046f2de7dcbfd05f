/* Simulated threads: one OS thread, every interleaving decided here. */
#ifndef SCHED_H
#define SCHED_H
#include "sim.h"
#define MAXT 5            /* thread 0 is the main thread */
enum { SM_NONE, SM_RANDOM, SM_PCT, SM_RR, SM_STALL, SM_REPLAY, SM_MODES };
void sched_setup(void);
void sched_swap(void *p, size_t n);                 /* private per-thread copy of harness state, exchanged at every switch */
void sched_config(int mode, u64 seed, long gap, u64 est);
void sched_replay(const struct sw *sw, int n);
int sched_create(void (*fn)(void *), void *arg);    /* returns the thread's number, -1 if there are too many */
void sched_join(int tid);
void sched_reap(int tid);                            /* joined: its number may be given to another */
bool sched_done(int tid);
void sched_alone(int tid);                          /* only that thread and the main one exist */
void sched_yield_point(void);
void sched_off(void);                               /* a forked child that is to run on alone */
void sched_op(int idx);                             /* the current thread starts operation idx */
bool sched_on(void);                                /* more than one thread exists */
int sched_me(void);
u64 sched_points(int tid);
void *arena_alloc(size_t n);
void arena_free(void *p, size_t n);
void sched_mutex(void *m, int what);                /* 0 lock, 1 unlock, 2 trylock */
bool sched_mutex_try(void *m);
void sched_check_exit(void);
void sched_access(const void *p, size_t n, bool write, void *pc);
#endif
