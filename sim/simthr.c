/* Simulated threads.  Library code is compiled with -fsanitize=thread, whose hooks are provided
 * here: each memory access is a scheduling point and is checked against vector clocks. */
#define _GNU_SOURCE
#include "simthr.h"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <link.h>
#include <elf.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <pthread.h>

#define STK (16u << 20)
#define STKBASE 0x300000000000ull
#define ARENA 0x100000000000ull
#define ASZ (1ull << 30)               /* per thread */
#define LIVEB 0x180000000000ull        /* one byte per arena byte */
#define CELLB 0x200000000000ull        /* 32 bytes per arena byte */
#define DCELLB 0x280000000000ull       /* 32 bytes per data byte */
struct cell { uint32_t w, wpc, rpc, r[MAXT]; };
_Static_assert(sizeof(struct cell) == 32, "cell");
static unsigned char *const livemap = (unsigned char *)LIVEB;
static struct cell *const cells = (struct cell *)CELLB, *const dcells = (struct cell *)DCELLB, *scells;
extern char __data_start[], _end[];
static uintptr_t dlo, dhi, mlo, mhi;   /* data and bss; stack of the main thread */
#define SCELLB 0x2c0000000000ull
#define MSTK (1u << 20)

enum { T_NONE, T_RUN, T_BLOCKED, T_DONE };
struct thr {
	int st; void *sp; void (*fn)(void *); void *arg; int err;
	uint32_t vc[MAXT];
	u64 pts, oppts; int op; int prio; unsigned char *priv; bool privok;
	int waitjoin; void *waitlock;
	int rp; size_t brk;
};
static struct thr T[MAXT]; static int me, nthr = 1; static bool off = true;
static struct { int mode; struct rng r; long gap; u64 est; long left; u64 cp[8]; int ncp; int victim; u64 vat; bool stalled; int low; } S;
static u64 gpts;
static const struct sw *rs; static int nrs;
static struct { void *p; size_t n; } sw[64]; static int nsw; static size_t privn;
static void *tls; static size_t tlsn; static const void *tlsinit; static size_t tlsinitn;

int sched_me(void) { return me; }
bool sched_on(void) { return !off && nthr > 1; }
u64 sched_points(int t) { return T[t].pts; }
void sched_off(void) { off = true; }

static int tlscb(struct dl_phdr_info *i, size_t sz, void *p) {
	(void)sz; (void)p;
	if (i->dlpi_name && i->dlpi_name[0]) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz) { tls = i->dlpi_tls_data; tlsn = i->dlpi_phdr[k].p_memsz; tlsinit = (void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tlsinitn = i->dlpi_phdr[k].p_filesz; }
	return 1;
}
static void *mapat(u64 at, u64 n) {
	void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)at) sim_harness_error("mmap %llx: %s", (unsigned long long)at, strerror(errno));
	return p;
}
void sched_setup(void) {
	mapat(ARENA, ASZ * MAXT); mapat(LIVEB, ASZ * MAXT); mapat(CELLB, ASZ * MAXT * 32);
	dlo = (uintptr_t)__data_start & ~63ul; dhi = (uintptr_t)_end;
	mapat(DCELLB, (dhi - dlo + 64) * 32);
	mapat(STKBASE, (u64)STK * MAXT);
	for (int i = 1; i < MAXT; i++) mprotect((void *)(STKBASE + (u64)STK * (unsigned)i), 65536, PROT_NONE);
	dl_iterate_phdr(tlscb, NULL);
	if (tlsn) sched_swap(tls, tlsn);
	memset(T, 0, sizeof T); me = 0; nthr = 1; T[0].st = T_RUN; T[0].vc[0] = 1; T[0].op = -1;
	uintptr_t here = (uintptr_t)__builtin_frame_address(0); mhi = (here + 4096) & ~63ul; mlo = mhi - MSTK; scells = mapat(SCELLB, (u64)MSTK * 32);
	off = false;
}
void sched_swap(void *p, size_t n) { if (nsw == 64) sim_harness_error("swap list"); sw[nsw].p = p; sw[nsw++].n = n; privn += n; }

/* ---- symbols, for reports ---- */
static void symname(uintptr_t a, int type, char *out, size_t n) {
	snprintf(out, n, "?");
	int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return;
	char *m = mmap(NULL, (size_t)st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if (m == MAP_FAILED) return;
	Elf64_Ehdr *e = (void *)m; Elf64_Shdr *sh = (void *)(m + e->e_shoff);
	for (int i = 0; i < e->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
		Elf64_Sym *s = (void *)(m + sh[i].sh_offset); char *str = m + sh[sh[i].sh_link].sh_offset;
		for (size_t k = 0; k < sh[i].sh_size / sizeof *s; k++) if (ELF64_ST_TYPE(s[k].st_info) == type && a >= s[k].st_value && a < s[k].st_value + s[k].st_size) { snprintf(out, n, "%s", str + s[k].st_name); char *d = strchr(out, '.'); if (d) *d = 0; }
	}
	munmap(m, (size_t)st.st_size);
}

/* ---- switching ---- */
void sim_swtch(void **save, void *to);
__asm__(".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n\tpush %rbp\n\tpush %rbx\n\tpush %r12\n\tpush %r13\n\tpush %r14\n\tpush %r15\n\tmov %rsp,(%rdi)\n\tmov %rsi,%rsp\n\tpop %r15\n\tpop %r14\n\tpop %r13\n\tpop %r12\n\tpop %rbx\n\tpop %rbp\n\tret\n.size sim_swtch,.-sim_swtch\n");
static void save_priv(struct thr *t) { unsigned char *p = t->priv; if (!p) p = t->priv = hmalloc(privn); for (int i = 0; i < nsw; i++) { memcpy(p, sw[i].p, sw[i].n); p += sw[i].n; } t->privok = true; t->err = errno; }
static void load_priv(struct thr *t) { unsigned char *p = t->priv; for (int i = 0; i < nsw; i++) { memcpy(sw[i].p, p, sw[i].n); p += sw[i].n; } errno = t->err; }
static bool runnable(int i) { return T[i].st == T_RUN; }
static void go(int to) {
	if (to == me) return;
	ST(sched_switches);
	struct thr *a = &T[me], *b = &T[to]; save_priv(a); int was = me; (void)was;
	me = to; load_priv(b);
	sim_swtch(&a->sp, b->sp);
}
static void record(int to) {
	if (shm->nsw < NSW) shm->sw[shm->nsw] = (struct sw) { (int16_t)me, (int16_t)to, T[me].op, T[me].oppts };
	shm->nsw++;
}
static int pick(bool self) {
	int c[MAXT], n = 0; for (int i = 0; i < nthr; i++) if (runnable(i) && (self || i != me) && !(S.mode == SM_STALL && S.stalled && i == S.victim)) c[n++] = i;
	if (!n && S.mode == SM_STALL && S.stalled && runnable(S.victim) && (self || S.victim != me)) return S.victim;
	if (!n) return -1;
	switch (S.mode) {
	case SM_PCT: { int b = c[0]; for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i]; return b; }
	case SM_RR: for (int k = 1; k <= nthr; k++) { int i = (me + k) % nthr; for (int j = 0; j < n; j++) if (c[j] == i) return i; } return c[0];
	case SM_NONE: case SM_REPLAY: return c[0];
	default: return c[rn(&S.r, (unsigned)n)];
	}
}
static long gap(void) {
	switch (S.mode) {
	case SM_RR: return S.gap;
	case SM_RANDOM: case SM_STALL: return 1 + (long)(rnd(&S.r) % (u64)(2 * S.gap));
	default: return LONG_MAX;
	}
}
static void arm(void) { S.left = gap(); }
void sched_config(int mode, u64 seed, long g, u64 est) {
	memset(&S, 0, sizeof S); S.mode = mode; S.r.s = seed; S.gap = g < 1 ? 1 : g; S.est = est ? est : 1000; S.low = 0;
	for (int i = 0; i < MAXT; i++) T[i].prio = 100 + (int)rn(&S.r, 1000);
	if (mode == SM_PCT) { S.ncp = 1 + (int)rn(&S.r, 7); for (int i = 0; i < S.ncp; i++) S.cp[i] = gpts + rnd(&S.r) % S.est; }
	if (mode == SM_STALL) { S.victim = 1 + (int)rn(&S.r, MAXT - 1); S.vat = 1 + rnd(&S.r) % (S.est / 3 + 1); }
	arm();
}
void sched_replay(const struct sw *s, int n) { rs = s; nrs = n; S.mode = SM_REPLAY; for (int i = 0; i < MAXT; i++) T[i].rp = 0; }
static int replay_next(void) {
	struct thr *t = &T[me];
	while (t->rp < nrs) {
		const struct sw *s = &rs[t->rp];
		if (s->tid != me || s->op < t->op || (s->op == t->op && s->pt < t->oppts)) { t->rp++; continue; }
		if (s->op == t->op && s->pt == t->oppts) { t->rp++; return s->to; }
		return -1;
	}
	return -1;
}
void sched_yield_point(void) {
	if (off || nthr < 2) return;
	T[me].pts++; T[me].oppts++; gpts++; ST(sched_points);
	int to = -1;
	if (S.mode == SM_REPLAY) { to = replay_next(); if (to < 0 || to >= nthr || !runnable(to)) return; }
	else if (S.mode == SM_PCT) { bool ch = false; for (int i = 0; i < S.ncp; i++) if (S.cp[i] == gpts) ch = true; if (!ch) return; T[me].prio = S.low--; to = pick(true); }
	else {
		if (S.mode == SM_STALL && !S.stalled && me == S.victim && T[me].pts >= S.vat) { S.stalled = true; to = pick(false); arm(); }
		else { if (--S.left > 0) return; arm(); to = pick(S.mode != SM_RR); }
	}
	if (to < 0 || to == me) return;
	record(to);
	go(to);
}
static void deadlock(void) {
	char b[400]; size_t o = 0; for (int i = 0; i < nthr; i++) o += (size_t)snprintf(b + o, sizeof b - o, " thread %d %s%s", i, T[i].st == T_DONE ? "ended" : T[i].st == T_BLOCKED ? "waits" : "?", T[i].waitlock ? " for a lock;" : T[i].st == T_BLOCKED ? " for a thread;" : ";");
	sim_fail("deadlock", "no thread can run:%s", b);
}
static void forced(void) { /* the current thread cannot go on */
	int to = -1;
	if (S.mode == SM_REPLAY) { to = replay_next(); if (to < 0 || to >= nthr || !runnable(to)) to = -1; }
	if (to < 0) to = pick(false);
	if (to < 0) deadlock();
	record(to);
	go(to);
}
static void tick(void) { T[me].vc[me]++; }
static void joinvc(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void entry(void) {
	T[me].fn(T[me].arg);
	T[me].st = T_DONE; tick();
	for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCKED && T[i].waitjoin == me && !T[i].waitlock) T[i].st = T_RUN;
	forced();
	sim_harness_error("dead thread resumed");
}
int sched_create(void (*fn)(void *), void *arg) {
	int t; for (t = 1; t < nthr; t++) if (T[t].st == T_NONE) break;
	if (t == MAXT) return -1;
	if (t == nthr) nthr++;
	/* a number used again goes on where its clock, counters and memory were */
	struct thr *x = &T[t], was = *x; memset(x, 0, sizeof *x); x->prio = was.prio; x->pts = was.pts; x->oppts = was.oppts; x->brk = was.brk; x->priv = was.priv; x->rp = was.rp;
	x->st = T_RUN; x->fn = fn; x->arg = arg; x->op = -1; x->waitjoin = -1;
	memcpy(x->vc, T[me].vc, sizeof x->vc); x->vc[t] = was.vc[t] + 1; tick();
	u64 top = STKBASE + (u64)STK * (unsigned)(t + 1) - 64; void **s = (void **)top;
	*--s = NULL; *--s = (void *)entry; for (int i = 0; i < 6; i++) *--s = NULL;
	x->sp = s; save_priv(x); x->err = 0;
	/* a new thread starts with pristine thread-local storage */
	if (tlsn) { unsigned char *p = x->priv; for (int i = 0; i < nsw; i++) { if (sw[i].p == tls) { memset(p, 0, tlsn); memcpy(p, tlsinit, tlsinitn); } p += sw[i].n; } }
	ST(threads);
	return t;
}
void sched_alone(int t) { for (int i = 1; i < nthr; i++) if (i != t) T[i].st = T_DONE; }
void sched_join(int t) {
	while (T[t].st != T_DONE) { T[me].st = T_BLOCKED; T[me].waitjoin = t; T[me].waitlock = NULL; forced(); }
	joinvc(T[me].vc, T[t].vc);
}
void sched_reap(int t) { T[t].st = T_NONE; }
bool sched_done(int t) { return T[t].st == T_DONE || T[t].st == T_NONE; }
void sched_op(int idx) { T[me].op = idx; T[me].oppts = 0; }

/* ---- locks ---- */
struct lk { void *p; int owner; uint32_t vc[MAXT]; };
static struct lk L[256]; static int nL;
static struct lk *lk(void *p) { for (int i = 0; i < nL; i++) if (L[i].p == p) return &L[i]; if (nL == 256) sim_harness_error("locks"); L[nL] = (struct lk) { p, -1, { 0 } }; return &L[nL++]; }
bool sched_mutex_try(void *m) { struct lk *l = lk(m); if (l->owner >= 0) return false; l->owner = me; joinvc(T[me].vc, l->vc); ST(locks); return true; }
void sched_mutex(void *m, int what) {
	struct lk *l = lk(m);
	if (what == 0) {
		sched_yield_point();
		if (l->owner == me) sim_fail("deadlock", "thread %d locks a mutex it already holds", me);
		while (l->owner >= 0) { ST(lock_waits); T[me].st = T_BLOCKED; T[me].waitlock = m; forced(); T[me].waitlock = NULL; }
		l->owner = me; joinvc(T[me].vc, l->vc); ST(locks);
	} else {
		if (l->owner != me) sim_fail("bad-unlock", "thread %d unlocks a mutex it does not hold", me);
		l->owner = -1; joinvc(l->vc, T[me].vc); tick();
		for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCKED && T[i].waitlock == m) T[i].st = T_RUN;
		sched_yield_point();
	}
}

/* ---- memory ---- */
void *arena_alloc(size_t n) {
	struct thr *t = &T[me]; size_t a = (n + 15) / 16 * 16 + 16;
	if (t->brk + a > ASZ) return NULL;
	uintptr_t p = ARENA + ASZ * (unsigned)me + t->brk; t->brk += a;
	memset(livemap + (p - ARENA), 1, n);
	return (void *)p;
}
static void race(const char *obj, bool write, uintptr_t a, int otid, bool owrite, uintptr_t pc, uintptr_t opc) {
	char f[80], g[80], d[80], cls[64]; symname(pc, STT_FUNC, f, sizeof f); symname(opc, STT_FUNC, g, sizeof g);
	if (a >= dlo && a < dhi) { symname(a, STT_OBJECT, d, sizeof d); snprintf(cls, sizeof cls, "race:%.50s", d); }
	else { snprintf(d, sizeof d, "%s", obj); const char *x = f, *y = g; if (strcmp(x, y) > 0) { x = g; y = f; } snprintf(cls, sizeof cls, "race:%.28s/%.28s", x, y); }
	sim_fail(cls, "threads %d and %d touch the same memory (%s) with nothing to order them: %s in %s, earlier %s in %s", me, otid, d, write ? "a write" : "a read", f, owrite ? "a write" : "a read", g);
}
static inline void touch(struct cell *c, size_t n, bool write, uintptr_t a, uintptr_t pc, const char *obj) {
	uint32_t my = (uint32_t)me << 24 | T[me].vc[me]; ST(race_checks);
	for (size_t i = 0; i < n; i++, c++) {
		if (c->w && c->w != my) { int o = (int)(c->w >> 24); if (o != me && (c->w & 0xffffff) > T[me].vc[o]) race(obj, write, a + i, o, true, pc, c->wpc); }
		if (write) {
			for (int o = 0; o < MAXT; o++) if (o != me && c->r[o] > T[me].vc[o]) race(obj, true, a + i, o, false, pc, c->rpc);
			c->w = my; c->wpc = (uint32_t)pc;
		} else { c->r[me] = T[me].vc[me]; c->rpc = (uint32_t)pc; }
	}
}
void sched_access(const void *p, size_t n, bool write, void *pcp) {
	uintptr_t a = (uintptr_t)p, pc = (uintptr_t)pcp;
	if (off || !n) return;
	if (a - ARENA < ASZ * MAXT) {
		if (a + n - ARENA > ASZ * MAXT) n = ARENA + ASZ * MAXT - a;
		const unsigned char *l = livemap + (a - ARENA);
		for (size_t i = 0; i < n; i++) if (l[i] != 1) { char f[80]; symname(pc, STT_FUNC, f, sizeof f); char cls[64]; snprintf(cls, sizeof cls, "%s:%.40s", l[i] ? "use-after-free" : "out-of-bounds", f); sim_fail(cls, "%s of %s memory in %s (thread %d)", write ? "write" : "read", l[i] ? "released" : "unallocated", f, me); }
		if (nthr < 2) return;
		sched_yield_point();
		touch(cells + (a - ARENA), n, write, a, pc, "heap");
	} else if (a >= dlo && a < dhi) {
		if (nthr < 2) return;
		sched_yield_point();
		touch(dcells + (a - dlo), n, write, a, pc, "static storage");
	} else if (nthr > 1 && a >= mlo && a < mhi) {
		sched_yield_point();
		if (a + n > mhi) n = mhi - a;
		touch(scells + (a - mlo), n, write, a, pc, "stack of the main thread");
	} else if (nthr > 1 && a >= STKBASE && a < STKBASE + (u64)STK * MAXT && (int)((a - STKBASE) / STK) != me) {
		char f[80]; symname(pc, STT_FUNC, f, sizeof f); sim_fail("race:stack", "thread %d touches the stack of thread %d in %s", me, (int)((a - STKBASE) / STK), f);
	}
}
void arena_free(void *p, size_t n) {
	uintptr_t a = (uintptr_t)p;
	if (!off && nthr > 1) touch(cells + (a - ARENA), n, true, a, (uintptr_t)__builtin_return_address(0), "released heap");
	memset(livemap + (a - ARENA), 2, n);
}

/* ---- hooks emitted by -fsanitize=thread ---- */
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define RW(n) \
	void __tsan_read##n(void *p) { sched_access(p, n, false, PC); } \
	void __tsan_write##n(void *p) { sched_access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { sched_access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void *p) { sched_access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { sched_access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void *p) { sched_access(p, n, true, PC); } \
	void __tsan_read_write##n(void *p) { sched_access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { sched_access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { sched_access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)v; sched_access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { sched_access(p, 8, false, PC); }
/* atomics order what surrounds them */
static void at(volatile void *p) { if (off || nthr < 2) return; sched_yield_point(); struct lk *l = lk((void *)p); joinvc(T[me].vc, l->vc); joinvc(l->vc, T[me].vc); tick(); }
#define ATOM(b, t) \
	t __tsan_atomic##b##_load(const volatile t *p, int o) { (void)o; at((void *)p); return *p; } \
	void __tsan_atomic##b##_store(volatile t *p, t v, int o) { (void)o; at(p); *p = v; } \
	t __tsan_atomic##b##_exchange(volatile t *p, t v, int o) { (void)o; at(p); t x = *p; *p = v; return x; } \
	t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int o) { (void)o; at(p); t x = *p; *p = (t)(x + v); return x; } \
	t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int o) { (void)o; at(p); t x = *p; *p = (t)(x - v); return x; } \
	t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int o) { (void)o; at(p); t x = *p; *p = x & v; return x; } \
	t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int o) { (void)o; at(p); t x = *p; *p = x | v; return x; } \
	t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int o) { (void)o; at(p); t x = *p; *p = x ^ v; return x; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int q) { (void)o; (void)q; at(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int q) { (void)o; (void)q; at(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t e, t v, int o, int q) { (void)o; (void)q; at(p); t x = *p; if (x == e) *p = v; return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* ---- C library calls that read or write library memory ---- */
void *simt_memcpy(void *d, const void *s, size_t n) { sched_access(s, n, false, PC); sched_access(d, n, true, PC); return memcpy(d, s, n); }
void *simt_memmove(void *d, const void *s, size_t n) { sched_access(s, n, false, PC); sched_access(d, n, true, PC); return memmove(d, s, n); }
void *simt_memset(void *d, int c, size_t n) { sched_access(d, n, true, PC); return memset(d, c, n); }
int simt_memcmp(const void *a, const void *b, size_t n) { sched_access(a, n, false, PC); sched_access(b, n, false, PC); return memcmp(a, b, n); }
size_t simt_strlen(const char *s) { size_t n = strlen(s); sched_access(s, n + 1, false, PC); return n; }
int simt_strcmp(const char *a, const char *b) { sched_access(a, strlen(a) + 1, false, PC); sched_access(b, strlen(b) + 1, false, PC); return strcmp(a, b); }
char *simt_strcpy(char *d, const char *s) { sched_access(s, strlen(s) + 1, false, PC); sched_access(d, strlen(s) + 1, true, PC); return strcpy(d, s); }
char *simt_strcat(char *d, const char *s) { sched_access(d + strlen(d), strlen(s) + 1, true, PC); return strcat(d, s); }
char *simt_strncpy(char *d, const char *s, size_t n) { sched_access(d, n, true, PC); return strncpy(d, s, n); }
int simt_vsnprintf(char *d, size_t n, const char *f, va_list ap) { int r = vsnprintf(d, n, f, ap); if (n && r >= 0) sched_access(d, (size_t)r + 1 < n ? (size_t)r + 1 : n, true, PC); return r; }
int simt_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); if (n && r >= 0) sched_access(d, (size_t)r + 1 < n ? (size_t)r + 1 : n, true, PC); return r; }
int simt_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); if (r >= 0) sched_access(d, (size_t)r + 1, true, PC); return r; }
size_t simt_fread(void *d, size_t a, size_t b, FILE *f) { size_t r = fread(d, a, b, f); sched_access(d, r * a, true, PC); return r; }
char *simt_fgets(char *d, int n, FILE *f) { char *r = fgets(d, n, f); if (r) sched_access(d, strlen(d) + 1, true, PC); return r; }
void simt_qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { sched_access(b, n * w, true, PC); qsort(b, n, w, c); sched_yield_point(); }

/* ---- threads and locks as the code under test asks for them ---- */
static int mutex_static(void) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { (void)mutex_static; if (off) return 0; sched_mutex(m, 0); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (off) return 0; sched_mutex(m, 1); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (off) return 0; sched_yield_point(); return sched_mutex_try(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { sched_mutex(o, 0); if (*(int *)o == 0) { *(int *)o = 1; f(); } sched_mutex(o, 1); return 0; }
