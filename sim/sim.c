#define _GNU_SOURCE
#include "sim.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fsm/alloc.h>
#ifdef SIM_THREADS
#include "simthr.h"
#define RAW_ALLOC(n) arena_alloc((n) ? (n) : 1)
#define RAW_FREE(p, n) arena_free(p, (n) ? (n) : 1)
#else
#define RAW_ALLOC(n) __real_malloc((n) ? (n) : 1)
#define RAW_FREE(p, n) __real_free(p)
#endif

extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);

struct shm *shm;
const char *const stat_names[] = {
#define X(n) #n,
	STATS(X)
#undef X
};

void *hmalloc(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void *hcalloc(size_t n, size_t m) { void *p = __real_calloc(n ? n : 1, m ? m : 1); if (!p) abort(); return p; }
void *hrealloc(void *q, size_t n) { void *p = __real_realloc(q, n ? n : 1); if (!p) abort(); return p; }
void hfree(void *p) { __real_free(p); }

u64 trace_hash;
void trace_u64(u64 v) { trace_hash = mix64(trace_hash, v); }
void trace_bytes(const void *p, size_t n) {
	const unsigned char *b = p; u64 h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	trace_u64(h); trace_u64(n);
}

void sim_fail(const char *cls, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if (!shm->failed) {
		shm->failed = 1;
		snprintf(shm->cls, sizeof shm->cls, "%s", cls);
		vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
	}
	va_end(ap);
	_exit(77);
}
void sim_harness_error(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	fprintf(stderr, "HARNESS ERROR: "); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
	va_end(ap);
	_exit(78);
}

/* ---- block table ---- */
struct blk { void *p; size_t n; int tag; int op; };
static struct blk *tab; static size_t tcap, tused; /* tused counts tombstones too */
static size_t live[NTAGS], live_total;
#define TOMB ((void *)1)
static size_t hptr(const void *p) { u64 x = (u64)(uintptr_t)p >> 4; x *= 0x9e3779b97f4a7c15ull; return (size_t)(x >> 20); }
static struct blk *tfind(const void *p) {
	if (!tcap) return NULL;
	for (size_t i = hptr(p) & (tcap - 1);; i = (i + 1) & (tcap - 1)) {
		if (tab[i].p == NULL) return NULL;
		if (tab[i].p == p) return &tab[i];
	}
}
static void tput(void *p, size_t n, int tag, int op) {
	if (tused * 2 >= tcap) {
		size_t oc = tcap; struct blk *ot = tab;
		size_t lv = 0; for (size_t i = 0; i < oc; i++) if (ot[i].p && ot[i].p != TOMB) lv++;
		tcap = 1024; while (tcap < lv * 4) tcap *= 2;
		tab = hcalloc(tcap, sizeof *tab); tused = 0;
		for (size_t i = 0; i < oc; i++) if (ot[i].p && ot[i].p != TOMB) {
			size_t j = hptr(ot[i].p) & (tcap - 1);
			while (tab[j].p) j = (j + 1) & (tcap - 1);
			tab[j] = ot[i]; tused++;
		}
		hfree(ot);
	}
	size_t j = hptr(p) & (tcap - 1);
	while (tab[j].p && tab[j].p != TOMB) j = (j + 1) & (tcap - 1);
	if (tab[j].p == NULL) tused++;
	tab[j] = (struct blk) { p, n, tag, op };
	live[tag]++; live_total++;
}

/* ---- fault injection ---- */
static struct { bool in; int susp; struct fault f; long count; bool fired; struct rng r; int op; } A;
static unsigned char fillb = 0xa5;
int sim_cur_op = -1;
bool *sim_fired_flag; /* set, if there is one, as soon as an allocation is failed */
u64 sim_alloc_total;
void (*sim_yield_hook)(void);
static u64 randstate; static int randmode;

void sim_reset(unsigned char fill) { fillb = fill; trace_hash = 0; sim_cur_op = -1; }
void sim_fill(unsigned char f) { fillb = f; } unsigned char sim_getfill(void) { return fillb; }
void sim_enter(int op, struct fault f, u64 fseed) {
	A.in = true; A.susp = 0; A.f = f; A.count = 0; A.fired = false; A.r.s = fseed; A.op = op; sim_cur_op = op;
}
long sim_leave(void) { A.in = false; return A.count; }
bool sim_fault_fired(void) { return A.fired; }
void sim_suspend(void) { A.susp++; }
void sim_resume(void) { A.susp--; }

static bool should_fail(size_t n) {
	sim_alloc_total++;
	if (sim_yield_hook) sim_yield_hook();
	if (!A.in || A.susp) return false;
	ST(alloc_calls); STN(alloc_bytes, n);
	long i = A.count++;
	bool f = false;
	switch (A.f.mode) {
	case F_NONE: break;
	case F_SINGLE: f = i == A.f.k; if (f) ST(alloc_faults_single); break;
	case F_BURST: f = i >= A.f.k && i < A.f.k + A.f.n; if (f) ST(alloc_faults_burst); break;
	case F_FROM: f = i >= A.f.k; if (f) ST(alloc_faults_persistent); break;
	case F_RANDOM: f = i >= A.f.k && chance(&A.r, 1, (unsigned)(A.f.n > 0 ? A.f.n : 1)); if (f) ST(alloc_faults_random); break;
	case F_LARGE: f = n >= (size_t)A.f.k && A.f.n-- <= 0; if (f) ST(alloc_faults_large); break; /* only what is small can still be had */
	}
	if (f) { A.fired = true; if (sim_fired_flag) *sim_fired_flag = true; ST(alloc_faults); errno = ENOMEM; }
	return f;
}
static void *al_alloc(int tag, size_t n, bool zero) {
	if (should_fail(n)) return NULL;
	if (n > ((size_t)1 << 30)) { errno = ENOMEM; return NULL; }
	void *p = RAW_ALLOC(n);
	if (!p) { errno = ENOMEM; return NULL; }
	memset(p, zero ? 0 : fillb, n);
	tput(p, n, tag, A.in ? A.op : sim_cur_op);
	return p;
}
static void al_free(int tag, void *p) {
	if (!p) return;
	struct blk *b = tfind(p);
	if (!b) {
		if (tag == 0) { __real_free(p); return; }
		sim_fail("alloc-unknown-free", "allocator %d asked to free a block it does not own (freed twice, or never allocated)", tag);
	}
	if (b->tag != tag)
		sim_fail("alloc-mismatch", "block of %zu bytes from allocator %d (call %d) released through allocator %d", b->n, b->tag, b->op, tag);
	memset(p, 0xdd, b->n);
	size_t bn = b->n; (void)bn;
	b->p = TOMB; live[tag]--; live_total--;
	RAW_FREE(p, bn);
}
static void *al_realloc(int tag, void *p, size_t n) {
	if (!p) return al_alloc(tag, n, false);
	struct blk *b = tfind(p);
	if (!b) {
		if (tag == 0) return __real_realloc(p, n);
		sim_fail("alloc-unknown-realloc", "allocator %d asked to resize a block it does not own", tag);
	}
	if (b->tag != tag)
		sim_fail("alloc-mismatch", "block of %zu bytes from allocator %d (call %d) resized through allocator %d", b->n, b->tag, b->op, tag);
	if (n == 0) { al_free(tag, p); return NULL; }
	if (should_fail(n)) return NULL;
	if (n > ((size_t)1 << 30)) { errno = ENOMEM; return NULL; }
	size_t on = b->n; int op = b->op;
	void *q = RAW_ALLOC(n);
	if (!q) { errno = ENOMEM; return NULL; }
	memset(q, fillb, n);
	memcpy(q, p, on < n ? on : n);
	al_free(tag, p);
	tput(q, n, tag, op);
	return q;
}
void *__wrap_malloc(size_t n) { return al_alloc(0, n, false); }
void *__wrap_calloc(size_t a, size_t b) {
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return al_alloc(0, n, true);
}
void *__wrap_realloc(void *p, size_t n) { return al_realloc(0, p, n); }
void __wrap_free(void *p) { al_free(0, p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = al_alloc(0, n, false); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = al_alloc(0, n + 1, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

static int tagof[NTAGS] = { 0, 1, 2, 3, 4, 5, 6, 7 };
static void cb_free(void *o, void *p) { al_free(*(int *)o, p); }
static void *cb_malloc(void *o, size_t n) { return al_alloc(*(int *)o, n, false); }
static void *cb_calloc(void *o, size_t a, size_t b) {
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return al_alloc(*(int *)o, n, true);
}
static void *cb_realloc(void *o, void *p, size_t n) { return al_realloc(*(int *)o, p, n); }
#define AL(i) { cb_free, cb_calloc, cb_malloc, cb_realloc, &tagof[i] }
static const struct fsm_alloc al_tab[NTAGS] = { AL(0), AL(1), AL(2), AL(3), AL(4), AL(5), AL(6), AL(7) };
const struct fsm_alloc *sim_allocs[NTAGS] = { NULL, &al_tab[1], &al_tab[2], &al_tab[3], &al_tab[4], &al_tab[5], &al_tab[6], &al_tab[7] };

void sim_swapvars(void (*add)(void *, size_t)) { add(&A, sizeof A); add(&sim_cur_op, sizeof sim_cur_op); add(&randstate, sizeof randstate); add(&randmode, sizeof randmode); add(&trace_hash, sizeof trace_hash); add(live, sizeof live); add(&live_total, sizeof live_total); add(&fillb, sizeof fillb); add(&sim_alloc_total, sizeof sim_alloc_total); }
size_t sim_live_blocks(int tag) { return live[tag]; }
size_t sim_live_total(void) { return live_total; }
bool sim_is_live(const void *p) { return tfind(p) != NULL; }
void sim_check_no_leak(const char *when) {
	ST(leak_checks);
	if (live_total == 0) return;
	char buf[600]; size_t o = 0; size_t bytes = 0; int shown = 0;
	for (size_t i = 0; i < tcap; i++) if (tab[i].p && tab[i].p != TOMB) {
		bytes += tab[i].n;
		if (shown++ < 6) o += (size_t)snprintf(buf + o, sizeof buf - o, " [%zu bytes, allocator %d, call %d]", tab[i].n, tab[i].tag, tab[i].op);
	}
	sim_fail("leak", "%s: %zu blocks (%zu bytes) still allocated after everything was released:%s", when, live_total, bytes, buf);
}

/* ---- rand seam ---- */
void sim_rand_seed(u64 seed, int mode) { randstate = seed; randmode = mode; }
int __wrap_rand(void) {
	ST(rand_calls);
	struct rng r = { randstate };
	u64 v = rnd(&r); randstate = r.s;
	switch (randmode) {
	case 1: return 0;
	case 2: return RAND_MAX;
	case 3: return (int)(v & 1 ? RAND_MAX - (int)(v >> 40 & 3) : (int)(v >> 40 & 3));
	default: return (int)(v & 0x7fffffff);
	}
}
void __wrap_srand(unsigned s) { randstate = s; }
long __wrap_random(void) { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { randstate = s; }
