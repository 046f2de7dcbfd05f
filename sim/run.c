/* Runner: seeds -> runs -> verdicts, one process per run. */
#define _GNU_SOURCE
#include "hist.h"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <ctype.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>

#define MAXW 16
#define HCAP (1u << 21)
struct worker { struct shm sh; u64 done; u64 nh; u64 hashes[HCAP / 8]; };
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

static void classify(int st, const char *err, char *cls, size_t cn, char *msg, size_t mn) {
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { snprintf(cls, cn, "%s", shm->cls); snprintf(msg, mn, "%s", shm->msg); return; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { snprintf(cls, cn, "harness"); snprintf(msg, mn, "%s", err); return; }
	char kind[64] = "", fn[64] = "";
	const char *p;
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) snprintf(kind, sizeof kind, "hang");
	else if ((p = strstr(err, "Assertion `"))) { snprintf(kind, sizeof kind, "assert"); const char *q = p; while (q > err && q[-1] != '\n') q--; /* prog: file:line: func: Assertion */
		const char *e = p; while (e > q && *e != ':') e--; const char *b = e; while (b > q && b[-1] != ' ' && b[-1] != '\n') b--; snprintf(fn, sizeof fn, "%.*s", (int)(e - b), b); snprintf(msg, mn, "%.*s", 300, q); }
	else if ((p = strstr(err, "runtime error:"))) { snprintf(kind, sizeof kind, "ub"); const char *q = p; while (q > err && q[-1] != '\n') q--; snprintf(msg, mn, "%.*s", (int)strcspn(q, "\n"), q); const char *sl = q; for (const char *t = q; t < p; t++) if (*t == '/') sl = t + 1; snprintf(fn, sizeof fn, "%.*s", (int)strcspn(sl, ":"), sl); }
	else if ((p = strstr(err, "AddressSanitizer: "))) { p += 18; snprintf(kind, sizeof kind, "%.*s", (int)strcspn(p, " \n:"), p); }
	else if (WIFSIGNALED(st)) snprintf(kind, sizeof kind, "signal%d", WTERMSIG(st));
	else snprintf(kind, sizeof kind, "exit%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
	if (!fn[0]) {
		/* first frame in the library */
		for (p = err; (p = strstr(p, " in ")); p += 4) { const char *l = p + 4; size_t k = strcspn(l, " \n"); const char *eol = l + strcspn(l, "\n"); const char *src = strstr(l, "/repo/"); if (src && src < eol) { snprintf(fn, sizeof fn, "%.*s", (int)k, l); break; } }
	}
	for (char *c = fn; *c; c++) if (!isalnum((unsigned char)*c) && *c != '_' && *c != '.') *c = '_';
	snprintf(cls, cn, "crash:%s%s%s", kind, fn[0] ? ":" : "", fn);
	if (!msg[0]) { const char *q = strstr(err, "ERROR:"); if (!q) q = err; snprintf(msg, mn, "%.*s", 400, q); }
}
static int one(struct plan *p, char *errbuf, size_t errn) {
	static int mf = -1; if (mf < 0) mf = memfd_create("stderr", 0);
	if (ftruncate(mf, 0)) {} lseek(mf, 0, SEEK_SET);
	shm->failed = 0; shm->cls[0] = shm->msg[0] = shm->branch[0] = 0; shm->cur_op = -1; shm->nsw = 0;
	fflush(NULL);
	pid_t c = fork();
	if (c < 0) { perror("fork"); exit(2); }
	if (c == 0) { dup2(mf, 2); dup2(mf, 1); run_plan(p); _exit(0); }
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	ssize_t k = pread(mf, errbuf, errn - 1, 0); errbuf[k > 0 ? k : 0] = 0;
	return st;
}
static void emit_plan(struct plan *p, const char *path) {
	FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
	O = profile_oracles(p->profile);
	if (p->nthr && shm->nsw <= NSW) { p->smode = 5; if (!p->sw) p->sw = hcalloc(NSW, sizeof *p->sw); p->nsw = shm->nsw; memcpy(p->sw, shm->sw, sizeof *p->sw * (size_t)p->nsw); }
	if (shm->branch[0]) { int at, m; struct fault ft; sscanf(shm->branch, "%d:%d:%ld:%ld", &at, &m, &ft.k, &ft.n); ft.mode = (enum fmode)m; plan_write(p, f, at + 4, at, ft); }
	else { for (int i = 0; i < p->n; i++) p->ops[i].branch = 0; plan_write(p, f, shm->cur_op >= 0 ? p->n : p->n, -1, (struct fault) { 0 }); }
	fclose(f);
}
static int cmp64(const void *a, const void *b) { u64 x = *(const u64 *)a, y = *(const u64 *)b; return x < y ? -1 : x > y; }

int main(int argc, char **argv) {
	int per = personality(0xffffffff);
	if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) { if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_ASLR", "0", 1); execv("/proc/self/exe", argv); } }
	static char err[1 << 16];
	if (argc >= 3 && !strcmp(argv[1], "exec")) {
		shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
		struct plan *p = plan_read(f); fclose(f);
		int st = one(p, err, sizeof err); char cls[160] = "", msg[1600] = "";
		bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
		if (!ok) classify(st, err, cls, sizeof cls, msg, sizeof msg);
		printf("{\"ok\":%s,\"cls\":", ok ? "true" : "false"); jstr(stdout, cls); printf(",\"msg\":"); jstr(stdout, msg); printf(",\"step\":%d,\"hash\":\"%016llx\"}\n", shm->cur_op, (unsigned long long)shm->hash);
		if (argc > 3) fputs(err, stderr);
		return ok ? 0 : 1;
	}
	if (argc >= 5 && !strcmp(argv[1], "plan")) { struct plan *p = plan_gen(argv[2], strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0)); plan_write(p, stdout, p->n, -1, (struct fault) { 0 }); return 0; }
	if (argc < 8 || strcmp(argv[1], "run")) { fprintf(stderr, "usage: run profile seed seconds jobs maxruns outdir | exec plan [v] | plan profile seed run\n"); return 2; }
	const char *prof = argv[2]; u64 seed = strtoull(argv[3], 0, 0); double secs = atof(argv[4]); int jobs = atoi(argv[5]); u64 maxruns = strtoull(argv[6], 0, 0); const char *out = argv[7];
	if (jobs < 1) jobs = 1;
	if (jobs > MAXW) jobs = MAXW;
	struct worker *ws = mmap(NULL, sizeof *ws * (size_t)jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (ws == MAP_FAILED) { perror("mmap"); return 2; }
	double t0 = now();
	for (int w = 0; w < jobs; w++) {
		pid_t c = fork(); if (c < 0) { perror("fork"); return 2; }
		if (c) continue;
		shm = &ws[w].sh; struct { char c[160]; int n; } seen[64]; int ns = 0;
		for (u64 i = (u64)w; i < maxruns && now() - t0 < secs; i += (u64)jobs) {
			struct plan *p = plan_gen(prof, seed, i); ST(runs);
			double t1 = now(); int st = one(p, err, sizeof err);
			if (getenv("SIM_SLOW") && now() - t1 > atof(getenv("SIM_SLOW"))) fprintf(stderr, "SLOW run %llu %.1f s\n", (unsigned long long)i, now() - t1);
			ws[w].done++;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (ws[w].nh < HCAP / 8) ws[w].hashes[ws[w].nh++] = shm->hash; plan_free(p); continue; }
			char cls[160] = "", msg[1600] = ""; classify(st, err, cls, sizeof cls, msg, sizeof msg);
			int k; for (k = 0; k < ns; k++) if (!strcmp(seen[k].c, cls)) break;
			if (k == ns && ns < 64) { snprintf(seen[ns].c, sizeof seen[ns].c, "%s", cls); seen[ns].n = 0; ns++; }
			if (k < 64 && seen[k].n++ < 2) {
				char safe[160]; snprintf(safe, sizeof safe, "%s", cls); for (char *c2 = safe; *c2; c2++) if (!isalnum((unsigned char)*c2) && *c2 != '.' && *c2 != '_' && *c2 != '-') *c2 = '_';
				char path[700]; snprintf(path, sizeof path, "%s/fail-%s-%llu.plan", out, safe, (unsigned long long)i); emit_plan(p, path);
				char line[4000]; FILE *m = fmemopen(line, sizeof line, "w"); fprintf(m, "FAIL {\"run\":%llu,\"cls\":", (unsigned long long)i); jstr(m, cls); fprintf(m, ",\"msg\":"); jstr(m, msg); fprintf(m, ",\"plan\":"); jstr(m, path); fprintf(m, "}\n"); fclose(m);
				if (write(1, line, strlen(line)) < 0) {}
			}
			plan_free(p);
			if (ns >= 40) break;
		}
		_exit(0);
	}
	while (wait(NULL) > 0 || errno == EINTR) ;
	static struct shm tot; u64 nh = 0, done = 0;
	for (int w = 0; w < jobs; w++) {
		for (int i = 0; i < ST_MAX; i++) tot.st[i] += ws[w].sh.st[i];
		for (int i = 0; i < NOPSTAT; i++) { tot.opruns[i] += ws[w].sh.opruns[i]; tot.opfaults[i] += ws[w].sh.opfaults[i]; tot.opfail[i] += ws[w].sh.opfail[i]; }
		nh += ws[w].nh; done += ws[w].done;
	}
	u64 *all = hmalloc((nh + 1) * 8); u64 k = 0; for (int w = 0; w < jobs; w++) { memcpy(all + k, ws[w].hashes, ws[w].nh * 8); k += ws[w].nh; }
	qsort(all, nh, 8, cmp64); u64 dist = nh ? 1 : 0; for (u64 i = 1; i < nh; i++) if (all[i] != all[i - 1]) dist++;
	printf("STATS {\"profile\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"wall\":%.3f,\"clean\":%llu,\"distinct\":%llu,\"counters\":{", prof, (unsigned long long)seed, (unsigned long long)done, now() - t0, (unsigned long long)nh, (unsigned long long)dist);
	bool first = true; for (int i = 0; i < ST_MAX; i++) if (tot.st[i]) { printf("%s\"%s\":%llu", first ? "" : ",", stat_names[i], (unsigned long long)tot.st[i]); first = false; }
	printf("},\"ops\":{"); first = true;
	for (int i = 0; i < nopdefs && i < NOPSTAT; i++) if (tot.opruns[i]) { printf("%s\"%s\":[%llu,%llu,%llu]", first ? "" : ",", opdefs[i].name, (unsigned long long)tot.opruns[i], (unsigned long long)tot.opfaults[i], (unsigned long long)tot.opfail[i]); first = false; }
	printf("}}\n");
	return 0;
}
const char *__asan_default_options(void) { return "exitcode=99:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=2048"; }
