/* Simulator core: PRNG, allocator with fault injection, statistics, verdicts. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <limits.h>

typedef uint64_t u64;

/* ---- PRNG (the only source of randomness) ---- */
struct rng { u64 s; };
static inline u64 rnd(struct rng *r) {
	u64 z = (r->s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline unsigned rn(struct rng *r, unsigned n) { return n ? (unsigned)(rnd(r) % n) : 0; }
static inline bool chance(struct rng *r, unsigned num, unsigned den) { return rn(r, den) < num; }
static inline u64 mix64(u64 a, u64 b) { struct rng r = { a ^ (b * 0xd6e8feb86659fd93ull) }; rnd(&r); return rnd(&r); }

/* ---- harness-private memory (never tracked, never fails) ---- */
void *hmalloc(size_t n);
void *hcalloc(size_t n, size_t m);
void *hrealloc(void *p, size_t n);
void hfree(void *p);

/* ---- statistics shared with the parent ---- */
#define STATS(X) \
	X(runs) X(branches) X(ops) X(ops_ok) X(ops_failed_clean) X(ops_skipped) \
	X(alloc_calls) X(alloc_bytes) X(alloc_faults) X(alloc_faults_single) X(alloc_faults_burst) X(alloc_faults_persistent) X(alloc_faults_random) X(alloc_faults_large) \
	X(faulted_ops) X(faulted_ops_reported) X(faulted_ops_tolerated) X(retries) X(unfired) \
	X(lang_checks) X(lang_pairs) X(lang_undecided) X(id_checks) X(struct_checks) X(leak_checks) X(unchanged_checks) \
	X(strings_run) X(strings_accepted) X(ids_nonempty) X(eager_checks) X(eager_hits) \
	X(limit_hit) X(limit_not_hit) X(cancelled) X(gen_strings) X(min_checks) \
	X(io_reads) X(io_short_reads) X(io_read_errors) X(io_eintr) X(io_truncations) X(io_corruptions) \
	X(io_writes) X(io_short_writes) X(io_write_errors) X(io_bytes) X(io_close_errors) X(io_delays) \
	X(rand_calls) X(native_runs) X(native_c) X(native_vmc) X(native_vmops) X(native_llvm) X(native_amd64_att) X(native_amd64_nasm) X(native_rust) X(native_sh) X(native_go) X(native_amd64_go) X(describe_json) X(describe_irjson) X(describe_dot) X(describe_api) X(getc_calls) X(nested_compiles) X(compiles_ok) X(compiles_err) X(lx_dumps) \
	X(sched_points) X(sched_switches) X(threads) X(race_checks) X(locks) X(thread_faults) X(fault_open) X(lock_waits) X(thread_runs) X(alone_failed) X(too_long) \
	X(tool_runs) X(tool_fail_exit) X(tool_abort) X(sim_ticks) X(clock_jumps) X(tokens) X(vm_runs) X(big) X(capture_runs) X(patterns_judged) X(patterns_refused) X(patterns_unjudged) X(patterns_unsupported) X(patterns_literal) X(patterns_anchored) X(parse_rejects) X(parse_ok) \
	X(big_dfa_skips) X(probe_a) X(probe_b) X(probe_c) X(probe_d)
enum {
#define X(n) ST_##n,
	STATS(X)
#undef X
	ST_MAX
};
extern const char *const stat_names[];
#define NOPSTAT 96
struct sw { int16_t tid, to; int op; u64 pt; };
#define NSW 4096
struct shm {
	u64 st[ST_MAX];
	u64 opruns[NOPSTAT], opfaults[NOPSTAT], opfail[NOPSTAT];
	/* verdict of the current run */
	int failed;                 /* 0 none, 1 violation */
	char cls[64];
	char msg[1500];
	char branch[128];           /* fault override under which it failed */
	u64 hash;                   /* trace hash of the main line */
	long probe_allocs;          /* result of an allocation-count probe */
	int cur_op;
	u64 nontriv;
	u64 th_hash[8], th_pts[8];  /* results of the threads run alone */
	int nsw; struct sw sw[NSW]; /* switches taken in the current run */
};
extern struct shm *shm;
#define ST(n) (shm->st[ST_##n]++)
#define STN(n, k) (shm->st[ST_##n] += (k))

/* ---- verdicts ---- */
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void trace_u64(u64 v);
void trace_bytes(const void *p, size_t n);
extern u64 trace_hash;

/* ---- simulated allocator ---- */
enum fmode { F_NONE, F_SINGLE, F_BURST, F_FROM, F_RANDOM, F_LARGE };
struct fault { enum fmode mode; long k; long n; };
#define NTAGS 8
struct fsm_alloc;
extern const struct fsm_alloc *sim_allocs[NTAGS]; /* [0] is NULL: default */
void sim_reset(unsigned char fill);
void sim_fill(unsigned char fill); unsigned char sim_getfill(void);
void sim_enter(int op, struct fault f, u64 fseed); /* start of a library call */
long sim_leave(void);                 /* end: returns number of allocations made since enter */
bool sim_fault_fired(void);
void sim_suspend(void); void sim_resume(void); /* harness code inside callbacks: no faults */
void sim_swapvars(void (*add)(void *, size_t));
size_t sim_live_blocks(int tag);
size_t sim_live_total(void);
bool sim_is_live(const void *p);
void sim_check_no_leak(const char *when);
extern int sim_cur_op; extern bool *sim_fired_flag;
extern void (*sim_yield_hook)(void);
extern u64 sim_alloc_total;

/* rand() seam */
void sim_rand_seed(u64 seed, int mode);

#endif
