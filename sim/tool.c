/* Command-line tools run whole, inside the simulator: their standard streams, files, memory, clock
 * and threads are simulated; each execution is a process forked from here. */
#define _GNU_SOURCE
#include "hist.h"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#ifdef SIM_THREADS
#include "simthr.h"
#endif

unsigned O; struct plan *P; int CI; struct op *CO; char M[1400]; bool in_branch;

/* A plan is: which tool, its arguments, its files and standard input, and "run" lines, each an
 * execution under some faults, all compared with one execution without any. */
enum { K_TOOL, K_ARG, K_FILE, K_STDIN, K_RUN };
const struct opdef opdefs[] = { { "tool", NULL, 0 }, { "arg", NULL, 0 }, { "file", NULL, 0 }, { "stdin", NULL, 0 }, { "run", NULL, 0 } };
const int nopdefs = 5;
/* arguments of run */
enum { A_OUT, A_ONCE, A_BUF, A_IN, A_INAT, A_CHUNK, A_CREATE, A_OPEN, A_PERMIL, A_CONC, A_ORDER, A_ALARM };

int fsm_main(int, char **), re_main(int, char **), rx_main(int, char **), lx_main(int, char **), retest_main(int, char **), cvtpcre_main(int, char **), reperf_main(int, char **);
enum { T_FSM, T_RE, T_RX, T_LX, T_RETEST, T_CVTPCRE, T_REPERF };
static int (*const mains[])(int, char **) = {
#ifdef SIM_THREADS
	NULL, NULL, NULL, lx_main, NULL, NULL, NULL
#else
	fsm_main, re_main, rx_main, lx_main, retest_main, cvtpcre_main, reperf_main
#endif
};
static const char *const names[] = { "fsm", "re", "rx", "lx", "retest", "cvtpcre", "reperf" };

#define OUTCAP (3u << 20)
#define DECCAP (1u << 16)
#define KIDS 4
#define KIDCAP (1u << 17)
struct res { size_t n, nd, seen; bool rd, wr, fired, over, openf, createf, tripped, done; long allocs; u64 pts; unsigned char d[OUTCAP], dec[DECCAP]; size_t kn[KIDS]; unsigned char kd[KIDS][KIDCAP]; };
static struct res *ref, *var, *R;

/* ---- simulated files ---- */
struct in { const unsigned char *d; size_t n, pos; long errat; int chunk; struct rng r; };
static struct in ins[8]; static int nins; /* 0: standard input; k: file k-1 */
static struct { long errat; bool once; } out;
static int kid = -1; /* which of the tool's child processes this is */
static bool inside; /* the tool is running */
static int nopen, failopen, ncreate, failcreate;

static ssize_t in_rd(void *c, char *b, size_t n) {
	struct in *s = c; ST(io_reads);
	size_t end = s->n; if (s->errat >= 0 && (size_t)s->errat < end) end = (size_t)s->errat;
	if (s->pos >= end) { if (s->errat >= 0) { R->rd = true; ST(io_read_errors); errno = EIO; return -1; } return 0; }
	size_t m = n; if (s->chunk > 0 && m > (size_t)s->chunk) m = (size_t)s->chunk;
	if (s->chunk < 0) m = 1 + rn(&s->r, (unsigned)(m > 64 ? 64 : m));
	if (m < n) ST(io_short_reads);
	if (m > end - s->pos) m = end - s->pos;
	memcpy(b, s->d + s->pos, m); s->pos += m; STN(io_bytes, m); return (ssize_t)m;
}
static ssize_t out_wr(void *c, const char *b, size_t n) {
	(void)c; ST(io_writes); STN(io_bytes, n);
	size_t m = n;
	if (out.errat >= 0 && !(out.once && R->done) && R->seen + n > (size_t)out.errat) {
		m = (size_t)out.errat > R->seen ? (size_t)out.errat - R->seen : 0; R->done = true; R->wr = true; ST(io_write_errors); if (m) ST(io_short_writes); errno = ENOSPC;
	}
	unsigned char *d = kid < 0 ? R->d : R->kd[kid]; size_t *dn = kid < 0 ? &R->n : &R->kn[kid], cap = kid < 0 ? OUTCAP : KIDCAP;
	if (*dn + m > cap) { R->over = true; return (ssize_t)n; }
	memcpy(d + *dn, b, m); *dn += m; R->seen += m; return (ssize_t)m;
}
static struct { bool open; long errat; bool closefail; } dec;
static ssize_t dec_wr(void *c, const char *b, size_t n) {
	(void)c; ST(io_writes); size_t m = n;
	if (dec.errat >= 0 && R->nd + n > (size_t)dec.errat) { m = (size_t)dec.errat > R->nd ? (size_t)dec.errat - R->nd : 0; R->wr = true; ST(io_write_errors); errno = ENOSPC; }
	if (R->nd + m > DECCAP) { R->over = true; return (ssize_t)n; }
	memcpy(R->dec + R->nd, b, m); R->nd += m; return (ssize_t)m;
}
static int dec_cl(void *c) { (void)c; if (dec.closefail) { R->wr = true; ST(io_close_errors); errno = EIO; return -1; } return 0; }
static FILE *reader(int i) { cookie_io_functions_t io = { .read = in_rd }; FILE *f = fopencookie(&ins[i], "r", io); if (!f) sim_harness_error("fopencookie"); ins[i].pos = 0; return f; }
extern FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
	if (!inside) return __real_fopen(path, mode);
	if (nopen++ == failopen) { R->openf = true; ST(fault_open); errno = EMFILE; return NULL; }
	if (*mode == 'w') {
		if (strcmp(path, "declined")) { errno = EACCES; return NULL; }
		cookie_io_functions_t io = { .write = dec_wr, .close = dec_cl }; FILE *f = fopencookie(&dec, "w", io); if (!f) sim_harness_error("fopencookie"); return f;
	}
	if (path[0] == 'f' && path[1] >= '0' && path[1] <= '9' && (path[2] == 0 || path[2] == '.')) { int k = path[1] - '0' + 1; if (k < nins) return reader(k); }
	errno = ENOENT; return NULL;
}
extern void *__wrap_malloc(size_t), *__wrap_realloc(void *, size_t);
ssize_t __wrap_getline(char **b, size_t *cap, FILE *f) {
	size_t n = 0; int c;
	if (!*b) { *cap = 16; *b = __wrap_malloc(*cap); if (!*b) return -1; }
	while (c = fgetc(f), c != EOF) {
		if (n + 2 > *cap) { char *t = __wrap_realloc(*b, *cap * 2); if (!t) return -1; *b = t; *cap *= 2; }
		(*b)[n++] = (char)c; if (c == '\n') break;
	}
	(*b)[n] = 0;
	return n && !(ferror(f) && c == EOF) ? (ssize_t)n : -1;
}
/* ---- simulated clock ---- */
static u64 clk;
extern int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { if (!inside) return __real_clock_gettime(id, ts); (void)id; clk += 1234567; ST(sim_ticks); ts->tv_sec = (time_t)(clk / 1000000000); ts->tv_nsec = (long)(clk % 1000000000); return 0; }

/* ---- threads ---- */
#ifdef SIM_THREADS
static struct { void *(*fn)(void *); void *arg, *rv; int t; } td[64]; static int ntd;
static void td_body(void *p) { int i = (int)(intptr_t)p; td[i].rv = td[i].fn(td[i].arg); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	(void)a; if (ncreate++ == failcreate) { R->createf = true; ST(thread_faults); return EAGAIN; }
	if (ntd == 64) sim_harness_error("threads");
	int i = ntd++; td[i].fn = fn; td[i].arg = arg; td[i].t = sched_create(td_body, (void *)(intptr_t)i);
	if (td[i].t < 0) sim_harness_error("too many threads at once");
	*(unsigned long *)t = (unsigned long)i; sched_yield_point(); return 0;
}
int __wrap_pthread_join(pthread_t t, void **rv) {
	int i = (int)(unsigned long)t; if (i < 0 || i >= ntd || td[i].t < 0) sim_fail("bad-join", "a thread is waited for that was not started, or twice");
	sched_join(td[i].t); sched_reap(td[i].t); td[i].t = -1; if (rv) *rv = td[i].rv; return 0;
}
#else
static void *td[64]; static int ntd;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	(void)a; if (ncreate++ == failcreate) { R->createf = true; ST(thread_faults); return EAGAIN; }
	if (ntd == 64) sim_harness_error("threads");
	*(unsigned long *)t = (unsigned long)ntd; int i = ntd++; td[i] = fn(arg); return 0;
}
int __wrap_pthread_join(pthread_t t, void **rv) { if (rv) *rv = td[(int)(unsigned long)t]; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; return 0; }
#endif

extern void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int st) {
	if (!inside) __real_exit(st);
#ifdef SIM_THREADS
	for (int i = 0; i < ntd; i++) if (td[i].t >= 0 && !sched_done(td[i].t)) sim_fail("exit-while-running", "the tool exits (status %d) while a worker thread has not ended", st);
	R->pts = 0; for (int t = 0; t < MAXT; t++) R->pts += sched_points(t);
	sched_off();
#endif
	long al = sim_leave(); if (al > R->allocs) R->allocs = al;
	if (kid < 0 && R->over == false) for (int k = 0; k < KIDS; k++) { if (R->n + R->kn[k] > OUTCAP) { R->over = true; break; } memcpy(R->d + R->n, R->kd[k], R->kn[k]); R->n += R->kn[k]; }
	__real_exit(st);
}

/* ---- child processes: each is held back until it is forked (order 0) or waited for, and then runs to its end ---- */
static struct { pid_t pid; int go, st; bool ended; } kids[KIDS]; static int nkids, nalarm, tripalarm; static long korder; static struct rng korng;
static void pass_on(int st); static bool broken(int st);
static void kid_run(int i) {
	if (kids[i].ended) return;
	if (write(kids[i].go, "", 1) != 1) sim_harness_error("pipe"); close(kids[i].go);
	while (waitpid(kids[i].pid, &kids[i].st, 0) < 0) if (errno != EINTR) sim_harness_error("waitpid");
	kids[i].ended = true; if (broken(kids[i].st)) pass_on(kids[i].st);
}
extern pid_t __real_fork(void), __real_wait(int *); extern unsigned __real_alarm(unsigned);
pid_t __wrap_fork(void) {
	if (!inside) return __real_fork();
	if (ncreate++ == failcreate) { R->createf = true; ST(thread_faults); errno = EAGAIN; return -1; }
	if (nkids == KIDS) sim_harness_error("children"); int p[2]; if (pipe(p)) sim_harness_error("pipe");
	pid_t c = __real_fork(); if (c < 0) sim_harness_error("fork: %s", strerror(errno));
	ST(threads);
	if (c == 0) { close(p[1]); kid = nkids; nkids = 0; ncreate = 1000; char b; ssize_t k; while (k = read(p[0], &b, 1), k < 0 && errno == EINTR) ; if (k != 1) _exit(0); close(p[0]); return 0; }
	close(p[0]); kids[nkids].pid = c; kids[nkids].go = p[1]; kids[nkids].ended = false; nkids++;
	if (!korder) kid_run(nkids - 1);
	return c;
}
static bool waited[KIDS];
pid_t __wrap_wait(int *st) {
	if (!inside) return __real_wait(st);
	int c[KIDS], n = 0; for (int i = 0; i < nkids; i++) if (!waited[i]) c[n++] = i;
	if (!n) { errno = ECHILD; return -1; }
	int i = c[korder ? rn(&korng, (unsigned)n) : 0]; kid_run(i); waited[i] = true; if (st) *st = kids[i].st; return kids[i].pid;
}
unsigned __wrap_alarm(unsigned s) { if (!inside) return __real_alarm(s); if (s && nalarm++ == tripalarm) { R->tripped = true; ST(clock_jumps); raise(SIGALRM); } return 0; }

/* ---- executing ---- */
static int which;
static long place(long code, size_t n) { /* -1: never; 0..1000: permille; 2000+k: byte k; 3000+k: k before the end */
	if (code < 0) return -1;
	if (code <= 1000) return (long)(n * (size_t)code / 1000);
	if (code < 3000) return code - 2000 > (long)n ? (long)n : code - 2000;
	return (long)n - (code - 3000) < 0 ? 0 : (long)n - (code - 3000);
}
static void body(const struct op *v, struct fault ft) {
	static char *argv[80]; int argc = 0; static char cbuf[16];
	argv[argc++] = (char *)names[which];
	if (v ? v->a[A_CONC] > 0 : P->nthr) { snprintf(cbuf, sizeof cbuf, "%ld", v ? v->a[A_CONC] : 1L); argv[argc++] = "-C"; argv[argc++] = cbuf; }
	memset(ins, 0, sizeof ins); nins = 1; for (int i = 0; i < 8; i++) { ins[i].d = (const unsigned char *)""; ins[i].errat = -1; ins[i].r.s = mix64(P->seed, (u64)i); if (v) ins[i].chunk = (int)v->a[A_CHUNK]; }
	for (int i = 0; i < P->n; i++) {
		struct op *o = &P->ops[i];
		if (o->kind == K_ARG && argc < 78) argv[argc++] = o->s ? (char *)o->s : "";
		int k = o->kind == K_STDIN ? 0 : o->kind == K_FILE && o->a[0] >= 0 && o->a[0] < 7 ? (int)o->a[0] + 1 : -1;
		if (k >= 0) { if (k >= nins) nins = k + 1; ins[k].d = o->s ? o->s : (const unsigned char *)""; ins[k].n = o->s ? o->n : 0; }
	}
	argv[argc] = NULL;
	out.errat = dec.errat = -1; failopen = failcreate = tripalarm = -1;
	if (v) { korder = v->a[A_ORDER]; korng.s = mix64(P->seed, (u64)korder); tripalarm = (int)v->a[A_ALARM] - 1;
		if (v->a[A_OUT] >= 5000) { if (v->a[A_OUT] == 6001) dec.closefail = true; else dec.errat = place(v->a[A_OUT] - 5000, ref->nd); }
		else out.errat = place(v->a[A_OUT], ref->n);
		out.once = v->a[A_ONCE] != 0;
		if (v->a[A_IN] >= 0 && v->a[A_IN] < 8) ins[v->a[A_IN]].errat = place(v->a[A_INAT], ins[v->a[A_IN]].n);
		failcreate = (int)v->a[A_CREATE]; failopen = (int)v->a[A_OPEN];
	}
	static char ob[1 << 17];
	stdin = reader(0);
	cookie_io_functions_t io = { .write = out_wr }; FILE *so = fopencookie(NULL, "w", io); if (!so) sim_harness_error("fopencookie");
	switch (v ? v->a[A_BUF] % 6 : 0) {
	case 1: setvbuf(so, NULL, _IONBF, 0); break;
	case 2: setvbuf(so, ob, _IOFBF, 16); break;
	case 3: setvbuf(so, ob, _IOLBF, 64); break;
	case 4: setvbuf(so, ob, _IOFBF, 512); break;
	case 5: setvbuf(so, ob, _IOFBF, sizeof ob); break;
	}
	stdout = so;
	signal(SIGABRT, SIG_DFL); inside = true; sim_fired_flag = &R->fired;
	optind = 0; errno = 0;
	sim_enter(CI, ft, mix64(P->seed + P->run, 77));
#ifdef SIM_THREADS
	sched_setup();
	if (!v) sched_config(SM_NONE, 0, 1, 1);
	else { sched_config(P->smode, P->sseed, P->sgap, ref->pts); if (P->smode == SM_REPLAY) sched_replay(P->sw, P->nsw); }
#endif
	int st = mains[which](argc, argv);
	__wrap_exit(st);
}
/* the switches recorded are those of one execution: a failing one's, when a plan is written from them */
static u64 swh;
static void sw_flush(void) { for (int i = 0; i < shm->nsw && i < NSW; i++) { const struct sw *s = &shm->sw[i]; swh = mix64(swh, (u64)s->tid << 48 ^ (u64)s->to << 40 ^ s->pt); } shm->nsw = 0; }
static int launch(const struct op *v, struct fault ft, struct res *r, int cpu) {
	sw_flush();
	if (ftruncate(2, 0)) {} lseek(2, 0, SEEK_SET);
	r->n = r->nd = r->seen = 0; memset(r->kn, 0, sizeof r->kn); r->rd = r->wr = r->fired = r->over = r->openf = r->createf = r->tripped = r->done = false; r->allocs = 0; r->pts = 0; R = r;
	pid_t c = fork(); if (c < 0) sim_harness_error("fork: %s", strerror(errno));
	if (c == 0) { struct rlimit rl = { (rlim_t)cpu, (rlim_t)cpu + 2 }; setrlimit(RLIMIT_CPU, &rl); struct rlimit nc = { 0, 0 }; setrlimit(RLIMIT_CORE, &nc); body(v, ft); }
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	ST(tool_runs);
	return st;
}
static void pass_on(int st) { /* a crash, a hang or a verdict */
	if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
	signal(WTERMSIG(st), SIG_DFL); struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); kill(getpid(), WTERMSIG(st)); pause(); _exit(79);
}
static bool broken(int st) {
	if (WIFEXITED(st)) return WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 99;
	return WTERMSIG(st) != SIGABRT;
}
static void cmdline(char *b, size_t n) { size_t o = (size_t)snprintf(b, n, "%s", names[which]); for (int i = 0; i < P->n && o < n; i++) if (P->ops[i].kind == K_ARG) o += (size_t)snprintf(b + o, n - o, " %s", P->ops[i].s ? (char *)P->ops[i].s : ""); for (char *c = b; *c; c++) if ((unsigned char)*c < 32) *c = '.'; }
static bool same_out(char *why, size_t n) {
	if (ref->n != var->n || memcmp(ref->d, var->d, ref->n)) {
		size_t i = 0; while (i < ref->n && i < var->n && ref->d[i] == var->d[i]) i++;
		snprintf(why, n, "%zu bytes of output where there should be %zu, first difference at byte %zu", var->n, ref->n, i); return false;
	}
	if (ref->nd != var->nd || memcmp(ref->dec, var->dec, ref->nd)) { snprintf(why, n, "%zu bytes in the declined file where there should be %zu", var->nd, ref->nd); return false; }
	return true;
}
static int rst; static long refallocs;
static void judge(const struct op *o, struct fault ft) {
	char cmd[500], why[300] = ""; cmdline(cmd, sizeof cmd);
	int st = launch(o, ft, var, 40);
	if (var->over) { ST(ops_skipped); return; }
	if (broken(st)) pass_on(st);
	if (var->fired) { ST(faulted_ops); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ST(faulted_ops_reported); else ST(faulted_ops_tolerated); }
	else if (ft.mode) ST(unfired);
	bool inj = var->rd || var->wr || var->fired || var->openf || var->createf || var->tripped;
	trace_u64((u64)st); trace_bytes(var->d, var->n); trace_u64((u64)inj);
	char cls[64];
	if (WIFSIGNALED(st)) { ST(tool_abort); if (!WIFSIGNALED(rst) && !inj) { snprintf(cls, sizeof cls, "unprovoked-abort:%s", names[which]); sim_fail(cls, "%s: aborts although nothing was injected; with one thread and plain streams it exits with status %d", cmd, WEXITSTATUS(rst)); } return; }
	int s = WEXITSTATUS(st), r = WIFEXITED(rst) ? WEXITSTATUS(rst) : -1;
	if (s) ST(tool_fail_exit);
	if (!inj) {
		if (s != r) { snprintf(cls, sizeof cls, "status-differs:%s", names[which]); sim_fail(cls, "%s: exit status %d where the plain execution's is %d, with nothing injected", cmd, s, r); }
		if (!same_out(why, sizeof why)) { snprintf(cls, sizeof cls, "output-differs:%s", names[which]); sim_fail(cls, "%s: %s, with nothing injected", cmd, why); }
		return;
	}
	if (s) return;
	const char *what = var->rd ? "an error while reading" : var->wr ? "an error while writing" : var->createf ? which == T_RETEST ? "a process that could not be started" : "a thread that could not be started" : var->openf ? "a file that could not be opened" : var->tripped ? "an alarm that went off" : "a failed allocation";
	snprintf(cls, sizeof cls, "false-success:%s:%s", names[which], var->rd ? "read" : var->wr ? "write" : var->createf ? "thread" : var->openf ? "open" : var->tripped ? "alarm" : "memory");
	if (var->rd) sim_fail(cls, "%s: exits with status 0 after %s", cmd, what);
	if (r != 0) sim_fail(cls, "%s: exits with status 0 after %s; without, the status is %d", cmd, what, r);
	if (!same_out(why, sizeof why)) sim_fail(cls, "%s: exits with status 0 after %s, but with %s", cmd, what, why);
}
static void branch(struct op *o, struct fault f) {
	snprintf(shm->branch, sizeof shm->branch, "%d:%d:%ld:%ld", CI, (int)f.mode, f.k, f.n); ST(branches);
	judge(o, f); shm->branch[0] = 0;
}
void run_plan(struct plan *p) {
	P = p; sim_reset((unsigned char)p->fill); sim_rand_seed(p->seed, 0);
	shm->branch[0] = 0; shm->nsw = 0; swh = 0; trace_hash = 0; which = -1;
	if (!ref) { ref = mmap(NULL, 2 * sizeof *ref, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (ref == MAP_FAILED) sim_harness_error("mmap"); var = ref + 1; }
	for (int i = 0; i < p->n; i++) if (p->ops[i].kind == K_TOOL) which = (int)((unsigned long)p->ops[i].a[0] % 7);
	if (which < 0 || !mains[which]) { shm->hash = 0; return; }
	CI = p->n; rst = launch(NULL, (struct fault) { 0 }, ref, 8);
	if (WIFSIGNALED(rst) && WTERMSIG(rst) == SIGXCPU) { ST(too_long); shm->hash = 0; return; }
	if (broken(rst)) { shm->cur_op = p->n; pass_on(rst); }
	if (ref->over) { ST(ops_skipped); shm->hash = 0; return; }
	if (p->nthr && ref->pts > 6000000) { ST(too_long); shm->hash = 0; return; }
	if (WIFSIGNALED(rst)) ST(probe_a); else if (WEXITSTATUS(rst)) ST(probe_b);
	trace_u64((u64)rst); trace_bytes(ref->d, ref->n); refallocs = ref->allocs;
	for (CI = 0; CI < p->n; CI++) {
		struct op *o = &p->ops[CI]; if (o->kind != K_RUN) continue;
		CO = o; shm->cur_op = CI; ST(ops); shm->opruns[o->kind]++;
		if (o->branch > 0 && !o->f.mode) {
			struct rng r = { mix64(p->seed ^ p->run, (u64)o->idx) }; long n = refallocs, max = o->branch;
			if (n <= max) for (long k = 0; k < n; k++) branch(o, (struct fault) { F_SINGLE, k, 0 });
			else for (long j = 0; j < max; j++) branch(o, (struct fault) { F_SINGLE, (long)rn(&r, (unsigned)n), 0 });
			for (long j = 0; j < max / 3 + 1 && n; j++) { long k = (long)rn(&r, (unsigned)n); branch(o, rn(&r, 3) ? (struct fault) { F_FROM, k, 0 } : rn(&r, 2) ? (struct fault) { F_BURST, k, 2 + (long)rn(&r, 4) } : (struct fault) { F_RANDOM, k, 2 + (long)rn(&r, 4) }); }
			continue;
		}
		struct fault f = o->f; if (f.mode && o->a[A_PERMIL]) f.k = refallocs * f.k / 1000;
		judge(o, f);
	}
	sw_flush(); shm->hash = mix64(trace_hash, swh);
}
unsigned profile_oracles(const char *n) { (void)n; return 0; }

/* ---- generating plans ---- */
static struct plan *G; static int gcap;
static struct op *add(int kind) {
	if (G->n == gcap) { gcap = gcap ? gcap * 2 : 32; G->ops = hrealloc(G->ops, (size_t)gcap * sizeof *G->ops); }
	struct op *o = &G->ops[G->n]; memset(o, 0, sizeof *o); o->kind = kind; o->idx = G->n++; return o;
}
static void sets(struct op *o, const void *d, size_t n) { o->s = hmalloc(n + 1); memcpy(o->s, d, n); o->s[n] = 0; o->n = n; }
static void arg(const char *s) { sets(add(K_ARG), s, strlen(s)); }
static void arg2(const char *a, const char *b) { arg(a); arg(b); }
static void argn(const char *a, unsigned n) { char t[16]; snprintf(t, sizeof t, "%u", n); arg2(a, t); }
struct tx { char b[8192]; size_t n; };
static void tp(struct tx *t, const char *f, ...) __attribute__((format(printf, 2, 3)));
#include <stdarg.h>
static void tp(struct tx *t, const char *f, ...) { va_list ap; va_start(ap, f); int k = vsnprintf(t->b + t->n, sizeof t->b - t->n, f, ap); va_end(ap); if (k > 0) t->n += (size_t)k; if (t->n >= sizeof t->b) t->n = sizeof t->b - 1; }
static void file(int i, const struct tx *t) { struct op *o; if (i < 0) o = add(K_STDIN); else { o = add(K_FILE); o->a[0] = i; } sets(o, t->b, t->n); }
static void mutate(struct rng *r, struct tx *t) {
	for (unsigned m = 1 + rn(r, 3); m--; ) { if (!t->n) return; unsigned at = rn(r, (unsigned)t->n); switch (rn(r, 3)) {
		case 0: memmove(t->b + at, t->b + at + 1, t->n - at - 1); t->n--; break;
		case 1: t->b[at] = ";:>\"'/|&{}0aZ\n-"[rn(r, 15)]; break;
		case 2: t->n = at; break; } }
}
static void gen_fsmtext(struct rng *r, struct tx *t, bool dfa) {
	unsigned n = 1 + rn(r, 6), e = rn(r, 14); static const char al[] = "abcdx01";
	bool seen[6][8] = { { 0 } };
	for (unsigned i = 0; i < e; i++) {
		unsigned a = rn(r, n), b = rn(r, n), c = rn(r, 7);
		if (dfa && seen[a][c]) continue;
		seen[a][c] = true;
		unsigned q = rn(r, 20);
		if (q == 0 && !dfa) tp(t, "%u -> %u;\n", a, b);
		else if (q == 1 && !dfa) tp(t, "%u -> %u ?;\n", a, b);
		else if (q == 2) tp(t, "%u -> %u '%c';\n", a, b, al[c]);
		else if (q == 3) tp(t, "%u -> %u \"\\x%02x\"; # note\n", a, b, al[c]);
		else tp(t, "%u -> %u \"%c\";\n", a, b, al[c]);
	}
	tp(t, "\n"); if (chance(r, 19, 20)) tp(t, "start: %u;\n", rn(r, n));
	if (chance(r, 9, 10)) { tp(t, "end:   %u", rn(r, n)); if (chance(r, 1, 4)) tp(t, " = [%u, %u]", rn(r, 4), 4 + rn(r, 4)); if (chance(r, 1, 3)) tp(t, ", %u", rn(r, n)); tp(t, ";\n"); }
	if (chance(r, 1, 8)) mutate(r, t);
}
static void gen_words(struct rng *r, char *b, size_t n) { unsigned k = rn(r, n < 8 ? (unsigned)n : 8), i; for (i = 0; i < k; i++) b[i] = "abcd01x "[rn(r, 8)]; b[i] = 0; }
static const char *const langs[] = { "api", "awk", "c", "dot", "fsm", "ir", "json", "vmc", "vmdot", "rust", "llvm", "sh", "go", "amd64", "amd64_att", "amd64_go", "irjson", "vmops_c", "vmops_h", "vmops_main" };
static void common(struct rng *r) {
	if (chance(r, 1, 8)) arg("-a");
	if (chance(r, 1, 8)) arg("-c");
	if (chance(r, 1, 8)) arg("-C");
	if (chance(r, 1, 8)) arg("-w");
	if (chance(r, 1, 8)) arg("-X");
	if (chance(r, 1, 8)) arg2("-e", "p_");
	if (chance(r, 1, 2)) { static const char *const k[] = { "getc", "str", "pair" }; arg2("-k", k[rn(r, 3)]); }
}
static void gen_fsm(struct rng *r) {
	static const char *const un[] = { "complete", "complement", "reverse", "determinise", "minimise", "trim", "remove_epsilons" };
	static const char *const bin[] = { "concat", "union", "intersect", "subtract", "equal" };
	static const char *const qs[] = { "isdfa", "count", "epsilonclosure", "iscomplete", "hasend", "hasambiguity", "hasepsilons", "chars" };
	bool binary = chance(r, 1, 3), eq = false, q = false, x = false; unsigned mode = rn(r, 10);
	common(r);
	if (binary) { const char *o = bin[rn(r, 5)]; eq = !strcmp(o, "equal"); arg2("-t", o); }
	else if (chance(r, 1, 3) && mode != 6 && mode != 7) { if (chance(r, 1, 3)) arg(chance(r, 1, 2) ? "-d" : chance(r, 1, 2) ? "-m" : "-r"); else arg2("-t", un[rn(r, 7)]); }
	else if (mode == 6 || mode == 7) { arg2("-q", qs[rn(r, 8)]); q = true; if (chance(r, 1, 4)) argn("-S", rn(r, 30)); }
	if (!eq && !q) { if (mode < 5) { if (chance(r, 1, 3)) arg("-p"); else arg2("-l", langs[rn(r, 16)]); if (chance(r, 1, 2) && !binary) arg("-d"); } else if (mode == 5) argn("-G", 1 + rn(r, 5)); else if (mode == 8) { arg("-x"); x = true; } }
	if (chance(r, 1, 10)) arg2("-U", "abcd");
	if (chance(r, 1, 12)) argn("-i", 1 + rn(r, 3));
	int nf = 0; struct tx t;
	if (binary) { for (int i = 0; i < 2; i++) { t.n = 0; gen_fsmtext(r, &t, chance(r, 1, 2)); if (i == 0 && chance(r, 1, 5)) { file(-1, &t); arg("-"); } else { char nm[4]; snprintf(nm, sizeof nm, "f%d", nf); file(nf++, &t); arg(nm); } } }
	else { t.n = 0; gen_fsmtext(r, &t, mode >= 4 || chance(r, 1, 2)); if (chance(r, 1, 2)) { file(-1, &t); if (mode >= 8) arg("-"); } else { char nm[4]; snprintf(nm, sizeof nm, "f%d", nf); file(nf++, &t); arg(nm); } }
	if ((mode >= 8) && !q) { unsigned k = 1 + rn(r, 3); for (unsigned i = 0; i < k; i++) { char w[12]; gen_words(r, w, 8); if (x) { t.n = 0; tp(&t, "%s", w); char nm[4]; snprintf(nm, sizeof nm, "f%d", nf); file(nf++, &t); arg(nm); } else arg(w); } }
}
static const int dia[] = { RE_NATIVE, RE_PCRE, RE_GLOB, RE_LIKE, RE_SQL, RE_LITERAL };
static const char *const dian[] = { "native", "pcre", "glob", "like", "sql", "literal" };
static void gen_pat(struct rng *r, unsigned d, char *b, size_t n, bool line) {
	size_t k = gen_pattern(r, dia[d], b, n - 1, (chance(r, 1, 3) ? GEN_ANCHORS : 0) | (chance(r, 1, 12) ? GEN_BROKEN : 0));
	if (d == 1 && chance(r, 1, 8)) { static const char *const odd[] = { "^abc$", "abc", "\\Gx", "(?<n>a)", "a{5,1}", "[a", "(?=a)", "a\\bc", "$a", "" }; k = (size_t)snprintf(b, n, "%s", odd[rn(r, 10)]); }
	for (size_t i = 0; i < k; i++) if (b[i] == 0 || (line && b[i] == '\n')) b[i] = 'z';
	b[k] = 0;
}
static void gen_re(struct rng *r) {
	unsigned d = rn(r, 6), mode = rn(r, 10); bool y = false, f = false; int nf = 0; char p[64]; struct tx t;
	static const char *const astl[] = { "abnf", "ast", "pcre", "tree" };
	arg2("-r", dian[d]);
	if (chance(r, 1, 8)) arg("-b");
	if (chance(r, 1, 8)) arg("-i");
	if (chance(r, 1, 10)) arg("-u");
	if (chance(r, 1, 12)) arg("-s");
	common(r);
	unsigned np = 1 + (chance(r, 1, 3) ? rn(r, 3) : 0);
	switch (mode) {
	case 0: case 1: arg2("-l", langs[rn(r, 20)]); if (chance(r, 1, 6)) arg("-n"); break;
	case 2: arg2("-l", astl[rn(r, 4)]); np = 1; break;
	case 3: arg("-m"); if (chance(r, 1, 2)) arg("-z"); break;
	case 4: arg("-t"); np = 1; break;
	case 5: arg2("-q", "equal"); np = 1 + rn(r, 3); break;
	case 6: argn("-G", 1 + rn(r, 4)); np = 1; break;
	case 7: arg("-p"); break;
	case 8: if (chance(r, 1, 2)) arg("-M"); break;
	case 9: arg("-x"); if (chance(r, 1, 2)) arg("-M"); break;
	}
	if (chance(r, 1, 6)) { arg("-y"); y = true; } else if (chance(r, 1, 10) && mode != 4) { arg("-f"); f = true; }
	if (mode == 8 && chance(r, 1, 4)) arg("-z");
	for (unsigned i = 0; i < np; i++) {
		if (f) { t.n = 0; gen_fsmtext(r, &t, true); char nm[4]; snprintf(nm, sizeof nm, "f%d", nf); file(nf++, &t); arg(nm); continue; }
		gen_pat(r, d, p, sizeof p, false); if (p[0] == '-' && !y) p[0] = 'a';
		if (y) { t.n = 0; tp(&t, "%s", p); if (i == 0 && chance(r, 1, 3)) { file(-1, &t); arg("-"); } else { char nm[4]; snprintf(nm, sizeof nm, "f%d", nf); file(nf++, &t); arg(nm); } } else arg(p);
	}
	if (mode >= 8) { if (np > 1) arg("--"); unsigned k = 1 + rn(r, 3); for (unsigned i = 0; i < k && nf < 7; i++) { char w[12]; gen_words(r, w, 8); if (mode == 9) { t.n = 0; tp(&t, "%s", w); char nm[4]; snprintf(nm, sizeof nm, "f%d", nf); file(nf++, &t); arg(nm); } else arg(w); } }
}
static void gen_rx(struct rng *r) {
	unsigned d = rn(r, 6); static const char *const l[] = { "c", "dot", "fsm", "rust", "go", "ir", "irjson", "llvm", "vmdot", "vmops_c", "vmops_h", "vmops_main", "amd64_att", "amd64_nasm", "amd64_go" };
	arg2("-r", dian[d]);
	if (chance(r, 2, 3)) arg("-u"); else if (chance(r, 1, 2)) arg("-t");
	if (chance(r, 4, 5)) arg2("-l", l[rn(r, 15)]);
	if (chance(r, 1, 2)) arg2("-d", "declined");
	if (chance(r, 1, 4)) argn("-n", 1 + rn(r, 3));
	if (chance(r, 1, 6)) arg2("-F", chance(r, 1, 2) ? "b" : "i");
	if (chance(r, 1, 8)) arg("-q");
	if (chance(r, 1, 8)) arg("-v");
	if (chance(r, 1, 8)) arg("-x");
	if (chance(r, 1, 12)) arg("-i");
	if (chance(r, 1, 8)) arg("-c");
	if (chance(r, 1, 8)) arg2("-k", "str");
	if (chance(r, 1, 8)) arg("-w");
	unsigned nf = 1 + (chance(r, 1, 4) ? rn(r, 3) : 0); struct tx t; char p[64];
	for (unsigned i = 0; i < nf; i++) {
		t.n = 0; unsigned k = rn(r, 6); for (unsigned j = 0; j < k; j++) { gen_pat(r, d, p, 40, true); tp(&t, "%s\n", p); }
		if (chance(r, 1, 20) && t.n) t.n--;
		if (i == 0 && chance(r, 1, 6)) { file(-1, &t); arg("-"); } else { char nm[4]; snprintf(nm, sizeof nm, "f%u", i); file((int)i, &t); arg(nm); }
	}
}
static unsigned tokno;
static void zone(struct rng *r, struct tx *t, int depth, unsigned *budget) {
	static const char firsts[] = "abcdefghijklmnop"; unsigned k = 1 + rn(r, 5); unsigned at = rn(r, 16); bool var = false;
	if (chance(r, 1, 2)) tp(t, "/[ \\t\\n]+/;\n");
	if (chance(r, 1, 4)) { tp(t, "v%d = /[0-9]/;\n", depth); var = true; }
	for (unsigned i = 0; i < k && *budget; i++) {
		char c = firsts[(at + i) % 16], tok[24]; (*budget)--;
		if (chance(r, 1, 10)) tok[0] = 0; else snprintf(tok, sizeof tok, " -> $t%u", chance(r, 1, 6) && tokno ? rn(r, tokno) : tokno++);
		switch (rn(r, 12)) {
		case 0: tp(t, "'%c'%s;\n", c, tok); break;
		case 1: tp(t, "/%c[a-d]*/%s;\n", c, tok); break;
		case 2: tp(t, "/%cx?y+/i%s;\n", c == 'x' || c == 'y' ? 'q' : c, tok); break;
		case 3: tp(t, "'%c' ('u' | /v+/)* 'w'%s;\n", c, tok); break;
		case 4: tp(t, "/%c[a-z]+/ - '%cif'%s;\n", c, c, tok); break;
		case 5: if (var) tp(t, "'%c' v%d+ ('.' v%d*)?%s;\n", c, depth, depth, tok); else tp(t, "\"%c\\n\\\"\"%s;\n", c, tok); break;
		case 6: tp(t, "/%c.*z/ & /[a-z]+/%s;\n", c, tok); break;
		case 7: tp(t, "\"%c\\x41\\t\"%s;\n", c, tok); break;
		case 8: tp(t, "!('r' '%c')%s;\n", c, tok); break;
		case 9: if (depth < 2) { tp(t, "'%c' .. '%c'%s {\n", c, chance(r, 1, 2) ? '!' : '"', tok); zone(r, t, depth + 1, budget); tp(t, "}\n"); break; } /* fallthrough */
		case 10: if (depth < 3) { tp(t, "'%c'%s .. /[@]/ -> $u%u {\n", c, tok, depth); zone(r, t, depth + 1, budget); tp(t, "}\n"); break; } /* fallthrough */
		case 11: if (chance(r, 1, 2)) tp(t, "'%c' .. ';'%s;\n", c, tok); else tp(t, "'%c' /[^a]/%s;\n", c, tok); break;
		}
	}
	if (chance(r, 1, 12)) tp(t, "/%c+/ -> $amb;\n", firsts[at % 16]);
	if (depth == 0 && chance(r, 1, 40)) { unsigned n = 505 + rn(r, 20); char q = "'/"[rn(r, 2)]; tp(t, "%c", q); while (n--) tp(t, "%c", "xyz"[n % 3]); tp(t, "%c -> $long;\n", q); }
}
void gen_lxspec(struct rng *r, struct tx *t, unsigned budget) { t->n = 0; tokno = 0; zone(r, t, 0, &budget); if (chance(r, 1, 12)) mutate(r, t); }
static void gen_lx(struct rng *r, bool thr) {
	static const char *const l[] = { "c", "c", "c", "dot", "dump", "zdot", "h", "test" }; const char *lang = l[rn(r, 8)];
	if (thr && !strcmp(lang, "h")) lang = "c";
	arg2("-l", lang); bool b = !strcmp(lang, "c") || !strcmp(lang, "h") || !strcmp(lang, "dump");
	if (b && chance(r, 19, 20)) arg2("-b", chance(r, 1, 2) ? "dyn" : "fixed");
	if (b && chance(r, 3, 4)) { static const char *const g[] = { "fgetc", "sgetc", "agetc", "fdgetc" }; arg2("-g", g[rn(r, 4)]); if (chance(r, 1, 3)) arg2("-g", g[rn(r, 4)]); }
	else if (chance(r, 1, 6)) arg2("-k", chance(r, 1, 2) ? "str" : "pair");
	if (chance(r, 1, 6)) { static const char *const x[] = { "name", "example", "comments", "pos", "buf" }; arg2("-x", x[rn(r, 5)]); }
	if (chance(r, 1, 10)) arg2("-e", "q_");
	if (chance(r, 1, 10)) arg2("-t", "T_");
	if (chance(r, 1, 10)) arg("-Q");
	if (!strcmp(lang, "dot") && chance(r, 1, 4)) arg("-n");
	struct tx t; gen_lxspec(r, &t, thr ? 3 + rn(r, 8) : 2 + rn(r, 16)); file(-1, &t);
}
static void escaped(struct rng *r, struct tx *t, const char *w) { for (; *w; w++) switch (rn(r, 16)) { case 0: tp(t, "\\x%02x", *w); break; case 1: tp(t, "\\x{%x}", *w); break; case 2: tp(t, "\\%03o", *w); break; case 3: tp(t, chance(r, 1, 6) ? "\\q" : "\\n"); break; default: tp(t, "%c", *w); } }
static void gen_retest(struct rng *r) {
	if (chance(r, 1, 3)) argn("-O", rn(r, 2));
	if (chance(r, 1, 4)) arg2("-L", chance(r, 1, 2) ? "ir" : "enc");
	if (chance(r, 1, 3)) arg2("-x", chance(r, 1, 2) ? "v1" : "v2");
	if (chance(r, 1, 6)) { static const char *const k[] = { "getc", "str", "pair" }; arg2("-k", k[rn(r, 3)]); }
	if (chance(r, 1, 4)) argn("-E", rn(r, 4));
	if (chance(r, 1, 6)) arg("-t");
	if (chance(r, 1, 3)) argn("-w", 1 + rn(r, 5));
	unsigned d0 = 1; if (chance(r, 1, 2)) arg2("-r", dian[d0 = rn(r, 6)]);
	unsigned nf = 1 + (chance(r, 1, 2) ? rn(r, 3) : 0); struct tx t; char p[64];
	for (unsigned i = 0; i < nf; i++) {
		unsigned d = d0, k = rn(r, 5); bool neg = chance(r, 1, 3); t.n = 0;
		while (k--) {
			if (chance(r, 1, 8)) tp(&t, "# note\n");
			if (chance(r, 1, 5)) { if (chance(r, 1, 3)) { d = d0; tp(&t, "R\n"); } else tp(&t, "R %s\n", dian[d = rn(r, 6)]); }
			if (chance(r, 1, 5)) tp(&t, "M %s\n", chance(r, 1, 2) ? "i" : chance(r, 1, 2) ? "is" : "a");
			if (chance(r, 1, 8)) tp(&t, "O %s\n", chance(r, 1, 2) ? "+e" : chance(r, 1, 2) ? "&" : "-e");
			gen_pat(r, d, p, 40, true); if (!p[0]) strcpy(p, "a"); tp(&t, "~%s\n", p);
			for (unsigned j = rn(r, 4); j--; ) { char w[12]; gen_words(r, w, 8); tp(&t, "%c", neg ? '-' : "+-"[rn(r, 6) == 0]); escaped(r, &t, w); tp(&t, "\n"); }
			if (chance(r, 1, 4)) tp(&t, "%c%s\n", "+-"[rn(r, 2)], p);
			if (k || chance(r, 2, 3)) tp(&t, "\n");
		}
		if (chance(r, 1, 10)) mutate(r, &t);
		if (i == 0 && chance(r, 1, 6)) { file(-1, &t); arg("-"); } else { char nm[4]; snprintf(nm, sizeof nm, "f%u", i); file((int)i, &t); arg(nm); }
	}
}
static void gen_cvtpcre(struct rng *r) {
	struct tx t = { .n = 0 }; char p[64]; unsigned k = rn(r, 5);
	if (chance(r, 1, 4)) tp(&t, "#newline_default lf\n");
	while (k--) {
		char dl = chance(r, 1, 6) ? "!'`=_:;,%"[rn(r, 9)] : '/'; gen_pat(r, 1, p, 40, false); for (char *c = p; *c; c++) if (*c == dl) *c = 'q';
		static const char *const m[] = { "", "", "", "i", "s", "is", "caseless", "i,dotall", "x", "xx", "g", "m", "wrong" };
		tp(&t, "%c%s%c%s\n", dl, p, dl, m[rn(r, 13)]);
		for (unsigned j = rn(r, 4); j--; ) { char w[12]; gen_words(r, w, 8); tp(&t, "    "); escaped(r, &t, w); if (chance(r, 1, 10)) tp(&t, "\\=notbol"); tp(&t, "\n"); }
		if (chance(r, 1, 3)) { tp(&t, "\\= Expect no match\n"); for (unsigned j = rn(r, 3); j--; ) { char w[12]; gen_words(r, w, 8); tp(&t, "    %s\n", w); } }
		if (k || chance(r, 2, 3)) tp(&t, "\n");
	}
	if (chance(r, 1, 10)) mutate(r, &t);
	if (chance(r, 1, 6)) arg2("-s", "abc");
	if (chance(r, 1, 2)) file(-1, &t); else { file(0, &t); arg("f0"); if (chance(r, 1, 2)) arg("declined"); }
}
static void gen_reperf(struct rng *r) {
	if (chance(r, 1, 3)) argn("-O", rn(r, 2));
	if (chance(r, 1, 4)) arg2("-x", chance(r, 1, 2) ? "v1" : "v2");
	if (chance(r, 1, 3)) arg("-t");
	if (chance(r, 1, 4)) arg("-q");
	if (chance(r, 1, 4)) arg("-C");
	if (chance(r, 1, 8)) arg("-e");
	if (chance(r, 1, 3)) { static const char *const h[] = { "compile", "glushkovise", "determinise", "minimise" }; arg2("-H", h[rn(r, 4)]); }
	if (chance(r, 1, 5)) argn("-N", 1 + rn(r, 3));
	unsigned nf = 1 + (chance(r, 1, 4) ? rn(r, 2) : 0); struct tx t; char p[64];
	for (unsigned i = 0; i < nf; i++) {
		t.n = 0;
		for (unsigned k = rn(r, 4); k--; ) {
			unsigned d = rn(r, 6); char w[12]; gen_words(r, w, 8);
			if (chance(r, 1, 8)) tp(&t, "# note\n");
			tp(&t, "- case %u\n", k); if (chance(r, 5, 6)) tp(&t, "D %s\n", dian[d]); else d = 0;
			gen_pat(r, d, p, 40, true); tp(&t, "M %s\n", p);
			if (chance(r, 1, 5)) { tp(&t, "F f5\n"); } else for (unsigned j = rn(r, 3); j--; ) tp(&t, "S %s%s\n", j & 1 ? p : w, chance(r, 1, 8) ? "\\\nmore" : "");
			if (chance(r, 1, 3)) tp(&t, "N %u\n", 1 + rn(r, 3));
			if (chance(r, 1, 2)) tp(&t, "R %u\n", rn(r, 2));
			tp(&t, "X\n");
			if (chance(r, 1, 10)) tp(&t, "Q\n");
		}
		if (chance(r, 1, 10)) mutate(r, &t);
		if (i == 0 && chance(r, 1, 6)) { file(-1, &t); arg("-"); } else { char nm[4]; snprintf(nm, sizeof nm, "f%u", i); file((int)i, &t); arg(nm); }
	}
	if (chance(r, 3, 4)) { struct tx f = { .n = 0 }; char w[12]; gen_words(r, w, 8); tp(&f, "%s", w); file(5, &f); }
}
static struct op *run(void) { struct op *o = add(K_RUN); o->a[A_OUT] = o->a[A_IN] = o->a[A_CREATE] = o->a[A_OPEN] = -1; return o; }
static long anywhere(struct rng *r) { switch (rn(r, 4)) { case 0: return 2000 + rn(r, 4); case 1: return 3000 + rn(r, 4); default: return (long)rn(r, 1001); } }
struct plan *plan_gen(const char *profile, u64 seed, u64 runno) {
	struct plan *p = G = hcalloc(1, sizeof *p); gcap = 0; snprintf(p->profile, sizeof p->profile, "%s", profile); p->seed = seed; p->run = runno;
	struct rng rr = { mix64(seed * 2654435761u + 7, runno) }, *r = &rr; p->fill = "\xa5\xff\x01\x5a"[rn(r, 4)] & 0xff;
	bool thr = !strcmp(profile, "C14");
	static const unsigned char mix[] = {  T_FSM, T_FSM, T_FSM, T_FSM, T_RE, T_RE, T_RE, T_RE, T_RX, T_RX, T_RX, T_RX, T_LX, T_LX, T_LX, T_LX, T_RETEST, T_RETEST, T_CVTPCRE, T_REPERF };
	int tool = thr ? T_LX : mix[rn(r, sizeof mix)];
	add(K_TOOL)->a[0] = tool;
	switch (tool) { case 0: gen_fsm(r); break; case 1: gen_re(r); break; case 2: gen_rx(r); break; case 3: gen_lx(r, thr); break; case 4: gen_retest(r); break; case 5: gen_cvtpcre(r); break; default: gen_reperf(r); break; }
#ifdef SIM_THREADS
	{
		struct op *o = run(); o->a[A_CONC] = 2 + rn(r, 3); if (chance(r, 1, 12)) o->a[A_CONC] = 1;
		if (chance(r, 1, 3)) { static const enum fmode fm[] = { F_SINGLE, F_SINGLE, F_FROM, F_BURST, F_RANDOM, F_LARGE }; o->f.mode = fm[rn(r, 6)]; o->f.k = o->f.mode == F_LARGE ? 1l << (4 + rn(r, 11)) : (long)rn(r, 1000); o->f.n = 2 + rn(r, 4); o->a[A_PERMIL] = 1; }
		else if (chance(r, 1, 6)) o->a[A_CREATE] = rn(r, 2 * (unsigned)o->a[A_CONC]);
		static const int modes[] = { SM_RANDOM, SM_RANDOM, SM_PCT, SM_RR, SM_STALL };
		p->nthr = 1; p->smode = modes[rn(r, 5)]; p->sseed = rnd(r); static const long gaps[] = { 1, 2, 5, 20, 100, 1000, 10000 }; p->sgap = gaps[rn(r, 7)];
		return p;
	}
#else
	struct op *o;
	/* plain streams, in other pieces */
	o = run(); o->a[A_BUF] = rn(r, 6); o->a[A_CHUNK] = chance(r, 1, 2) ? -1 : 1 + (long)rn(r, 5); if (tool == 3) o->a[A_CONC] = 1 + rn(r, 4);
	/* a full or failing output */
	for (unsigned i = 0, k = 1 + rn(r, 3); i < k; i++) { o = run(); o->a[A_OUT] = anywhere(r); o->a[A_ONCE] = chance(r, 1, 3); o->a[A_BUF] = rn(r, 6); }
	if (tool == T_RETEST) { o = run(); o->a[A_ORDER] = 1 + rn(r, 9); if (chance(r, 1, 2)) { o = run(); o->a[A_CREATE] = rn(r, 3); } if (chance(r, 1, 2)) { o = run(); o->a[A_ALARM] = 1 + rn(r, 3); } }
	if (tool == 2 || tool == T_CVTPCRE) { o = run(); o->a[A_OUT] = chance(r, 1, 4) ? 6001 : 5000 + anywhere(r) % 3000; }
	/* a failing input */
	for (unsigned i = 0, k = 1 + rn(r, 3); i < k; i++) { o = run(); o->a[A_IN] = tool == T_REPERF && chance(r, 1, 3) ? 6 : (long)rn(r, 4); o->a[A_INAT] = anywhere(r); o->a[A_CHUNK] = chance(r, 1, 2) ? 0 : -1; }
	if (chance(r, 1, 4)) { o = run(); o->a[A_OPEN] = rn(r, 3); }
	if (tool == 3 && chance(r, 1, 2)) { o = run(); o->a[A_CONC] = 1 + rn(r, 4); o->a[A_CREATE] = rn(r, 8); }
	/* memory */
	o = run(); o->branch = chance(r, 1, 8) ? 60 : 12;
	if (tool == 3) o->a[A_CONC] = 1 + rn(r, 3);
	return p;
#endif
}
