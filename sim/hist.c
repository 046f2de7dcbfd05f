/* Engine: executes a plan; checks outcomes after every step; forks fault branches. */
#define _GNU_SOURCE
#include "hist.h"
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/resource.h>
#ifdef SIM_THREADS
#include "simthr.h"
static bool threads_on(void) { return sched_on(); }
void sim_alone(void) { sched_off(); }
#else
static bool threads_on(void) { return false; }
void sim_alone(void) {}
#endif

struct world W; unsigned O; struct plan *P; int CI; struct op *CO; char M[1400]; bool in_branch;

u64 opseed(int salt) { return mix64(mix64(P->seed * 1000003 + P->run, (u64)(CI < P->n ? P->ops[CI].idx : CI)), (u64)salt); }

void enter(void) { errno = 0; sim_enter(CI, CO->f, opseed(77)); }
static long total_allocs; static bool fired_any;
long leave(void) { long n = sim_leave(); total_allocs += n; if (sim_fault_fired()) fired_any = true; return n; }
bool outcome(bool ok, const char *what) {
	bool fired = sim_fault_fired();
	if (!ok && !fired) sim_fail("spurious-failure", "step %d: %s failed although nothing was injected (errno %d)", CI, what, errno);
	return ok;
}
struct slot *sl_any(long i) { return &W.s[((unsigned long)i) % NS]; }
struct slot *sl(long i) { struct slot *s = sl_any(i); return s->f ? s : NULL; }
void forget(struct slot *s) { if (s->snap) nfa_free(s->snap); s->snap = NULL; s->f = NULL; s->touched = true; }
void drop(struct slot *s) { if (s->f && s->shared) sim_harness_error("step %d: a shared automaton was to be released", CI); if (s->f) fsm_free(s->f); forget(s); }
void quiet_flush(void) { if (!threads_on()) fflush(NULL); }
void resnap(struct slot *s) {
	struct nfa *n = nfa_extract(s->f);
	if (s->snap) nfa_free(s->snap);
	s->snap = n; s->touched = true;
}
void put(struct slot *s, struct fsm *f, int alloc) {
	s->f = f; s->alloc = alloc; s->ids_ok = true; s->lang_ok = true; resnap(s);
}
void settle(struct slot *s) {
	if (!s->f) return;
	if (!sim_is_live(s->f)) { forget(s); return; }
	resnap(s);
}
bool small_enough(struct slot *s, unsigned lim) {
	if (s->snap->n > 600) { ST(big_dfa_skips); return false; }
	if (nfa_dfasize(s->snap, lim) > lim) { ST(big_dfa_skips); return false; }
	return true;
}
bool has_start(struct slot *s) { return s->snap->start >= 0; }
bool ensure_dfa(struct slot *s) {
	if (!has_start(s)) return false;
	if (nfa_isdfa(s->snap)) return true;
	if (s->shared) return false; /* the threads only read */
	if (!small_enough(s, DFAMAX)) return false;
	struct fault none = { 0 };
	sim_enter(CI, none, 0);
	int r = fsm_determinise(s->f);
	sim_leave();
	if (!r) sim_fail("spurious-failure", "step %d: fsm_determinise failed although nothing was injected", CI);
	resnap(s);
	if (!nfa_isdfa(s->snap)) sim_fail("post-determinise", "step %d: fsm_determinise succeeded but the result is not deterministic", CI);
	return true;
}
void want(const char *cls, int r) { if (r == 0) { char t[1500]; snprintf(t, sizeof t, "step %d (%s): %s", CI, opdefs[CO->kind].name, M); sim_fail(cls, "%s", t); } }
unsigned cmpmask(struct slot *s) {
	unsigned m = (O & O_LANG) ? CMP_LANG : 0;
	if ((O & O_IDS) && s->ids_ok) m |= CMP_IDS;
	if ((O & O_EAGER) && nfa_haseo(s->snap)) m |= CMP_EAGER;
	return m;
}
bool acc_or(const bool *a, void *o) { unsigned n = *(unsigned *)o; for (unsigned i = 0; i < n; i++) if (a[i]) return true; return false; }
bool acc_and(const bool *a, void *o) { unsigned n = *(unsigned *)o; for (unsigned i = 0; i < n; i++) if (!a[i]) return false; return true; }
bool acc_sub(const bool *a, void *o) { (void)o; return a[0] && !a[1]; }
bool acc_not(const bool *a, void *o) { (void)o; return !a[0]; }

void prog_drop(struct prog *p) { if (p->shared) return; if (p->vm) fsm_vm_free(p->vm); if (p->m) nfa_free(p->m); memset(p, 0, sizeof *p); }

/* ---- executing one operation ---- */
static bool only_faulted; /* results are judged only in calls where something was injected */
static int attempt(struct op *o) {
	if (only_faulted) O = o->f.mode != F_NONE ? profile_oracles(P->profile) : 0;
	const struct opdef *d = &opdefs[o->kind];
	struct nfa *pre[NS]; struct fsm *pf[NS];
	for (int i = 0; i < NS; i++) { pre[i] = W.s[i].snap ? nfa_clone(W.s[i].snap) : NULL; pf[i] = W.s[i].f; W.s[i].touched = false; }
	size_t plain0 = sim_live_blocks(0), total0 = sim_live_total();
	bool anycustom = true; /* every automaton named uses a custom allocator */
	fired_any = false;
	int r = d->fn(o);
	shm->opruns[o->kind < NOPSTAT ? o->kind : NOPSTAT - 1]++;
	if (r == OP_SKIP) ST(ops_skipped); else { ST(ops); if (r == OP_OK) ST(ops_ok); else ST(ops_failed_clean); }
	if (o->f.mode != F_NONE && r != OP_SKIP) {
		if (fired_any) { ST(faulted_ops); shm->opfaults[o->kind < NOPSTAT ? o->kind : NOPSTAT - 1]++; if (r == OP_FAIL) ST(faulted_ops_reported); else ST(faulted_ops_tolerated); }
		else ST(unfired);
	}
	if (r == OP_FAIL) shm->opfail[o->kind < NOPSTAT ? o->kind : NOPSTAT - 1]++;
	/* automata that the call had no business with */
	for (int i = 0; i < NS; i++) {
		struct slot *s = &W.s[i];
		if (!s->touched && s->f && (O & O_UNCH)) {
			char why[600];
			struct nfa *now = nfa_extract(s->f);
			ST(unchanged_checks);
			if (!nfa_same(pre[i], now, why, sizeof why)) sim_fail("changed-bystander", "step %d (%s, %s): automaton %d was not to be changed: %s", CI, d->name, r == OP_OK ? "succeeded" : "failed", i, why);
			nfa_free(now);
		}
	}
	if ((d->flags & OF_INPLACE) && r == OP_FAIL) {
		struct slot *s = sl_any(o->a[0]); int i = (int)(s - W.s);
		if (!s->f && pf[i]) {
			if (O & O_RETRY) sim_fail("operand-destroyed", "step %d (%s): the failed call released the automaton it was to modify in place", CI, d->name);
		} else if (s->f && (O & O_RETRY) && pre[i]) {
			unsigned m = CMP_LANG | ((s->ids_ok && (O & O_IDS)) ? CMP_IDS : 0);
			if ((pre[i]->start >= 0) != (s->snap->start >= 0)) { snprintf(M, sizeof M, "after the failed call the start state is %s", s->snap->start >= 0 ? "set" : "missing"); want("operand-damaged", 0); }
			int q = nfa_equiv(s->snap, pre[i], m, BUDGET, M, sizeof M);
			want("operand-damaged", q);
		}
	}
	/* allocator discipline */
	for (int i = 0; i < NS; i++) if (W.s[i].touched || pf[i] != W.s[i].f) if (W.s[i].f && W.s[i].alloc == 0) anycustom = false;
	if ((O & O_ALLOC) && (d->flags & OF_READ) && sim_live_total() != total0)
		sim_fail("leak", "step %d (%s, %s): %ld blocks more are allocated after a call that returns nothing", CI, d->name, r == OP_OK ? "succeeded" : "failed", (long)sim_live_total() - (long)total0);
	(void)plain0; (void)anycustom;
	for (int i = 0; i < NS; i++) if (pre[i]) nfa_free(pre[i]);
	return r;
}
static void shape(int r) {
	trace_u64((u64)CO->kind * 4 + (u64)r);
	for (int i = 0; i < NS; i++) if (W.s[i].f) trace_u64(nfa_hash(W.s[i].snap)); else trace_u64(i);
}
static int exec_op(struct op *o) {
	CO = o; shm->cur_op = CI;
#ifdef SIM_THREADS
	sched_op(o->idx);
#endif
	int r = attempt(o);
	if (r == OP_FAIL && o->retry) {
		ST(retries);
		struct fault sv = o->f; o->f = (struct fault) { 0 };
		r = attempt(o);
		o->f = sv;
	}
	shape(r);
	if (getenv("SIM_DUMP")) {
		fprintf(stderr, "-- step %d %s: %d\n", CI, opdefs[o->kind].name, r);
		for (int i = 0; i < NS; i++) if (W.s[i].touched && W.s[i].f) nfa_dump(W.s[i].snap, i);
	}
	return r;
}
static void teardown(void) {
	CI = P->n;
	for (int i = 0; i < NS; i++) if (W.s[i].f) drop(&W.s[i]);
	for (int i = 0; i < NPROG; i++) prog_drop(&W.p[i]);
	for (int i = 0; i < NSETS; i++) if (W.r[i].g) { re_strings_free(W.r[i].g); W.r[i].g = NULL; }
	if (O & O_LEAK) sim_check_no_leak("end of run");
}

/* ---- branches ---- */
struct bstat { int status; };
static void set_limits(void) { struct rlimit rl = { 40, 42 }; setrlimit(RLIMIT_CPU, &rl); }
static int wait_child(pid_t p) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; return st; }
static int tail_len(struct op *o) { (void)o; return 3; }
static void branch_child(struct op *o, struct fault f) {
	set_limits(); in_branch = true;
	snprintf(shm->branch, sizeof shm->branch, "%d:%d:%ld:%ld", CI, (int)f.mode, f.k, f.n);
	int at = CI;
	o->f = f; o->retry = (O & O_RETRY) != 0;
	ST(branches);
	exec_op(o);
	for (int i = at + 1; i < P->n && i <= at + tail_len(o); i++) {
		CI = i; P->ops[i].branch = 0;
		exec_op(&P->ops[i]);
	}
	teardown();
	shm->branch[0] = 0;
	_exit(0);
}
static void branch_run(struct op *o, struct fault f) {
	quiet_flush();
	pid_t p = fork();
	if (p < 0) sim_harness_error("fork: %s", strerror(errno));
	if (p == 0) branch_child(o, f);
	int st = wait_child(p);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
	if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); kill(getpid(), WTERMSIG(st)); pause(); }
	_exit(79);
}
static long probe(struct op *o) {
	quiet_flush();
	pid_t p = fork();
	if (p < 0) sim_harness_error("fork: %s", strerror(errno));
	if (p == 0) {
		set_limits(); in_branch = true; total_allocs = 0; o->f = (struct fault) { 0 }; o->retry = 0;
		int r = exec_op(o);
		shm->probe_allocs = r == OP_SKIP ? 0 : total_allocs;
		_exit(0);
	}
	int st = wait_child(p);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return shm->probe_allocs;
	if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
	_exit(79);
}
static void explore(struct op *o) {
	long n = probe(o), max = o->branch;
	if (n <= 0) return;
	if (n > 4000) { long m = 100000 / n + 2; if (max > m) max = m; }
	struct rng r = { opseed(5) };
	if (n <= max) for (long k = 0; k < n; k++) branch_run(o, (struct fault) { F_SINGLE, k, 0 });
	else {
		long done = 0;
		for (long k = 0; k < n && done < max / 2; k += 1 + n / (max / 2 + 1), done++) branch_run(o, (struct fault) { F_SINGLE, k, 0 });
		for (; done < max; done++) branch_run(o, (struct fault) { F_SINGLE, rn(&r, (unsigned)n), 0 });
	}
	long more = max / 3 + 1; if (more > n + 1) more = n + 1;
	for (long j = 0; j < more; j++) {
		long k = n <= more ? j % n : (long)rn(&r, (unsigned)n);
		switch (rn(&r, 5)) {
		case 0: case 1: branch_run(o, (struct fault) { F_FROM, k, 0 }); break;
		case 2: branch_run(o, (struct fault) { F_BURST, k, 2 + rn(&r, 4) }); break;
		case 3: branch_run(o, (struct fault) { F_RANDOM, k, 2 + rn(&r, 4) }); break;
		case 4: branch_run(o, (struct fault) { F_LARGE, 1 << (4 + rn(&r, 10)), rn(&r, 3) ? 0 : rn(&r, 6) }); break;
		}
	}
}

#ifdef SIM_THREADS
/* ---- histories of several threads ---- */
static struct world base; /* what the threads start from */
static void thread_body(void *arg) {
	int t = (int)(intptr_t)arg;
	/* private copies of what the harness knows about the shared objects */
	W = base; for (int i = 0; i < NS; i++) if (W.s[i].f) { W.s[i].snap = nfa_clone(base.s[i].snap); W.s[i].shared = true; }
	for (int i = 0; i < NPROG; i++) if (W.p[i].vm) W.p[i].shared = true;
	trace_hash = 0; in_branch = false; sim_rand_seed(P->seed ^ (P->run << 20) ^ (u64)t, (int)(P->run % 4));
	for (CI = 0; CI < P->n; CI++) if (P->ops[CI].t == t) exec_op(&P->ops[CI]);
	CI = P->n; sched_op(1 << 30);
	for (int i = 0; i < NS; i++) if (W.s[i].f && !W.s[i].shared) drop(&W.s[i]);
	for (int i = 0; i < NPROG; i++) prog_drop(&W.p[i]);
	for (int i = 0; i < NSETS; i++) if (W.r[i].g) { re_strings_free(W.r[i].g); W.r[i].g = NULL; }
	shm->th_hash[t] = trace_hash; shm->th_pts[t] = sched_points(t);
}
static void run_threads(struct plan *p) {
	sched_setup();
	sim_swapvars(sched_swap);
	sched_swap(&W, sizeof W); sched_swap(&O, sizeof O); sched_swap(&CI, sizeof CI); sched_swap(&CO, sizeof CO); sched_swap(M, sizeof M); sched_swap(&in_branch, sizeof in_branch);
	sched_swap(&total_allocs, sizeof total_allocs); sched_swap(&fired_any, sizeof fired_any); sched_swap(&only_faulted, sizeof only_faulted);
	for (CI = 0; CI < p->n; CI++) if (p->ops[CI].t == 0) exec_op(&p->ops[CI]);
	CI = p->n; O = 0; eo_install();
	base = W; u64 alone[MAXT] = { 0 }, est = 0;
	/* each thread alone */
	for (int t = 1; t <= p->nthr; t++) {
		fflush(NULL); shm->th_hash[t] = shm->th_pts[t] = 0;
		pid_t c = fork(); if (c < 0) sim_harness_error("fork");
		if (c == 0) { set_limits(); sched_config(SM_NONE, 0, 1, 1); for (int i = 1; i < t; i++) sched_create(NULL, NULL); int k = sched_create(thread_body, (void *)(intptr_t)t); sched_alone(k); sched_join(k); _exit(0); }
		int st = wait_child(c);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			if (WIFEXITED(st) && WEXITSTATUS(st) == 78) _exit(78);
			/* not a matter of threads: other checks judge it */
			if (getenv("SIM_DUMP")) fprintf(stderr, "thread %d alone: status %x %s %s\n", t, st, shm->cls, shm->msg);
			shm->failed = 0; shm->cls[0] = shm->msg[0] = 0; ST(alone_failed); shm->hash = 0; _exit(0);
		}
		alone[t] = shm->th_hash[t]; est += shm->th_pts[t];
	}
	if (est > 6000000) { ST(too_long); shm->hash = 0; _exit(0); } /* decided by the plan alone, before any interleaving */
	shm->nsw = 0;
	sched_config(p->smode, p->sseed, p->sgap, est);
	if (p->smode == SM_REPLAY) sched_replay(p->sw, p->nsw);
	for (int t = 1; t <= p->nthr; t++) sched_create(thread_body, (void *)(intptr_t)t);
	for (int t = 1; t <= p->nthr; t++) sched_join(t);
	for (int t = 1; t <= p->nthr; t++) {
		trace_u64(shm->th_hash[t]);
		if (shm->th_hash[t] != alone[t]) sim_fail("differs-from-alone", "thread %d got other results than it gets alone", t);
	}
	ST(thread_runs);
	/* the main thread's objects are as they were */
	for (int i = 0; i < NS; i++) if (W.s[i].f) {
		struct nfa *now = nfa_extract(W.s[i].f);
		if (!nfa_same(W.s[i].snap, now, M, sizeof M)) sim_fail("changed-by-reader", "automaton %d was changed by threads that only read it: %s", i, M);
		nfa_free(now);
	}
	u64 h = trace_hash; for (int i = 0; i < shm->nsw && i < NSW; i++) { const struct sw *s = &shm->sw[i]; h = mix64(h, (u64)s->tid << 48 ^ (u64)s->to << 40 ^ (u64)(unsigned)s->op << 20 ^ s->pt); }
	trace_hash = h;
	teardown();
}
#endif
void run_plan(struct plan *p) {
	P = p; O = profile_oracles(p->profile); only_faulted = !strcmp(p->profile, "C05");
	sim_reset((unsigned char)p->fill);
	sim_rand_seed(p->seed ^ (p->run << 20), (int)(p->run % 4));
	memset(&W, 0, sizeof W);
	shm->branch[0] = 0; shm->nsw = 0;
	set_limits();
	if (p->nthr) {
#ifdef SIM_THREADS
		run_threads(p);
		shm->hash = trace_hash;
		return;
#else
		sim_harness_error("this build has no simulated threads");
#endif
	}
	for (CI = 0; CI < p->n; CI++) {
		struct op *o = &p->ops[CI];
		if (o->branch > 0) { CO = o; explore(o); shm->branch[0] = 0; }
		exec_op(o);
	}
	teardown();
	shm->hash = trace_hash;
}
