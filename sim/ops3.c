/* Generated programs: printed, compiled by the real compilers, loaded and executed. */
#define _GNU_SOURCE
#include <stdarg.h>
#include "hist.h"
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <spawn.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
extern char **environ;

enum { N_C, N_VMC, N_VMOPS, N_LLVM, N_ATT, N_NASM, N_RUST, N_SH, N_GO, N_GOASM };
static const char *const nname[] = { "c", "vmc", "vmops", "llvm", "amd64_att", "amd64_nasm", "rust", "sh", "go", "amd64_go" };
static const char *const ioname[] = { "getc", "str", "pair" };
struct tbuf { char *d; size_t n, cap; };
static void tadd(struct tbuf *b, const void *d, size_t n) { if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->d = hrealloc(b->d, b->cap); } memcpy(b->d + b->n, d, n); b->n += n; b->d[b->n] = 0; }
static void tfmt(struct tbuf *b, const char *f, ...) { char t[2000]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap); tadd(b, t, (size_t)n); }

struct variant { int lang; enum fsm_io io; enum fsm_ambig am; struct fsm_options fo; char prefix[16]; void *fn; };

static int memf(const char *name, const void *d, size_t n) {
	int fd = memfd_create(name, 0); if (fd < 0) sim_harness_error("memfd");
	for (size_t i = 0; i < n; ) { ssize_t k = write(fd, (const char *)d + i, n - i); if (k <= 0) sim_harness_error("memfd write"); i += (size_t)k; }
	lseek(fd, 0, SEEK_SET); return fd;
}
/* run a program; its diagnostics end up in err */
static int run_cmd(char *const argv[], struct tbuf *err) {
	int e = memf("diag", "", 0); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, e, 2); posix_spawn_file_actions_adddup2(&fa, e, 1); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	pid_t pid; int r = posix_spawnp(&pid, argv[0], &fa, NULL, argv, environ); posix_spawn_file_actions_destroy(&fa);
	if (r) sim_harness_error("cannot run %s: %s", argv[0], strerror(r));
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	char b[3000]; ssize_t n = pread(e, b, sizeof b, 0); if (n > 0) tadd(err, b, (size_t)n); close(e);
	if (WIFSIGNALED(st)) sim_harness_error("%s was killed by signal %d", argv[0], WTERMSIG(st));
	return WEXITSTATUS(st);
}
static void shorten(struct tbuf *e, char *out, size_t n) { size_t k = 0; for (size_t i = 0; i < e->n && k + 1 < n; i++) out[k++] = e->d[i] == '\n' ? ' ' : e->d[i]; out[k] = 0; }

/* the text of one variant appended to a source file; false when the language refuses the options */
static bool emit(struct slot *a, struct variant *v, int lang, struct tbuf *b, struct rng *r0) {
	if (chance(r0, 1, 3)) { /* an attempt in which something fails: if it claims success, its program is the one tested */
		u64 fs = rnd(r0); bool io = chance(r0, 1, 3); struct fault flt = { io ? F_NONE : chance(r0, 1, 2) ? F_SINGLE : F_FROM, (long)rn(r0, chance(r0, 1, 2) ? 12 : 80), 0 };
		struct stream s; stream_init(&s, NULL, 0, fs, 0, io ? (long)rn(r0, 3000) : -1); FILE *f = stream_writer(&s, (int)rn(r0, 5));
		sim_enter(CI, flt, fs); int r = fsm_print(f, a->f, &v->fo, NULL, (enum fsm_print_lang)lang); sim_leave(); bool err = ferror(f) != 0; if (fclose(f)) err = true;
		if (r >= 0 && !err) { tadd(b, s.d ? (char *)s.d : "", s.n); tadd(b, "\n", 1); stream_fini(&s); return true; }
		stream_fini(&s);
	}
	struct stream s; stream_init(&s, NULL, 0, 1, 0, -1); FILE *f = stream_writer(&s, 0); struct fault none = { 0 };
	sim_enter(CI, none, 0); errno = 0; int r = fsm_print(f, a->f, &v->fo, NULL, (enum fsm_print_lang)lang); int e = errno; sim_leave();
	if (fclose(f)) sim_harness_error("memory stream");
	if (r < 0) { stream_fini(&s); if (e != ENOTSUP && e != EINVAL) sim_fail("spurious-failure", "step %d: printing %s failed although nothing was injected (errno %d)", CI, nname[v->lang], e); return false; }
	tadd(b, s.d ? (char *)s.d : "", s.n); tadd(b, "\n", 1);
	stream_fini(&s); return true;
}
static void rust_tramp(struct tbuf *b, const struct variant *v) {
	const char *p = v->prefix;
	tfmt(b, "#[no_mangle]\npub unsafe extern \"C\" fn %srun(p: *const u8, n: usize, id: *mut u32, ids: *mut *const u32, cnt: *mut usize) -> i32 {\n let s: &[u8] = std::slice::from_raw_parts(p, n);\n let _ = (id, ids, cnt);\n match %smain(%s) {\n None => 0,\n", p, p,
		v->io == FSM_IO_GETC ? "s.iter().copied()" : v->io == FSM_IO_STR ? "std::str::from_utf8_unchecked(s)" : "s");
	tfmt(b, v->am == AMBIG_NONE ? " Some(()) => 1,\n" : v->am == AMBIG_MULTIPLE ? " Some(a) => { *ids = a.as_ptr(); *cnt = a.len(); 1 }\n" : " Some(x) => { *id = x; 1 }\n");
	tfmt(b, " }\n}\n");
}
static void llvm_tramp(struct tbuf *b, const struct variant *v) {
	const char *p = v->prefix, *args = v->io == FSM_IO_STR ? "ptr %a" : "ptr %a, ptr %b";
	tfmt(b, "define i32 @%srun(ptr %%a, ptr %%b, ptr %%id, ptr %%ids, ptr %%cnt) {\n %%r = call %%rt @%smain(%s)\n", p, p, args);
	if (v->am == AMBIG_NONE) tfmt(b, " %%z = zext i1 %%r to i32\n ret i32 %%z\n}\n");
	else if (v->am == AMBIG_MULTIPLE) tfmt(b, " %%q = extractvalue %%rt %%r, 0\n %%n = extractvalue %%rt %%r, 1\n store ptr %%q, ptr %%ids\n store i64 %%n, ptr %%cnt\n %%g = icmp ne i64 %%n, -1\n %%z = zext i1 %%g to i32\n ret i32 %%z\n}\n");
	else tfmt(b, " %%g = extractvalue %%rt %%r, 0\n %%i = extractvalue %%rt %%r, 1\n store i32 %%i, ptr %%id\n %%z = zext i1 %%g to i32\n ret i32 %%z\n}\n");
}

struct gsrc { const unsigned char *d; size_t n, i; bool ended; };
static int gsrc_getc(void *p) { struct gsrc *s = p; ST(getc_calls); if (s->ended) sim_fail("read-after-end", "step %d: the generated program asked for a character after the input had ended", CI); if (s->i == s->n) { s->ended = true; return EOF; } return s->d[s->i++]; }

static int call_variant(const struct variant *v, const unsigned char *d, size_t n, struct gsrc *g, unsigned *id, const unsigned **ids, size_t *cnt) {
	const char *s = (const char *)d; void *fn = v->fn;
	if (v->lang == N_RUST) return ((int (*)(const unsigned char *, size_t, unsigned *, const unsigned **, size_t *))fn)(d, n, id, ids, cnt);
	if (v->lang == N_LLVM) { if (v->io == FSM_IO_GETC) return ((int (*)(int (*)(void *), void *, unsigned *, const unsigned **, size_t *))fn)(gsrc_getc, g, id, ids, cnt); return ((int (*)(const char *, const char *, unsigned *, const unsigned **, size_t *))fn)(s, s + n, id, ids, cnt); }
	if (v->lang == N_ATT || v->lang == N_NASM) return ((int (*)(const char *, size_t))fn)(s, n);
	switch (v->io) {
	case FSM_IO_GETC: return v->am == AMBIG_NONE ? ((int (*)(int (*)(void *), void *))fn)(gsrc_getc, g) : v->am == AMBIG_MULTIPLE ? ((int (*)(int (*)(void *), void *, const unsigned **, size_t *))fn)(gsrc_getc, g, ids, cnt) : ((int (*)(int (*)(void *), void *, unsigned *))fn)(gsrc_getc, g, id);
	case FSM_IO_STR: return v->am == AMBIG_NONE ? ((int (*)(const char *))fn)(s) : v->am == AMBIG_MULTIPLE ? ((int (*)(const char *, const unsigned **, size_t *))fn)(s, ids, cnt) : ((int (*)(const char *, unsigned *))fn)(s, id);
	default: return v->am == AMBIG_NONE ? ((int (*)(const char *, const char *))fn)(s, s + n) : v->am == AMBIG_MULTIPLE ? ((int (*)(const char *, const char *, const unsigned **, size_t *))fn)(s, s + n, ids, cnt) : ((int (*)(const char *, const char *, unsigned *))fn)(s, s + n, id);
	}
}
static long dstep(const struct nfa *m, long q, unsigned char c) { for (unsigned j = 0; j < m->s[q].ne; j++) if (m->s[q].e[j].sym[c >> 6] >> (c & 63) & 1) return m->s[q].e[j].to; return -1; }

/* judge one execution */
static void judge(const struct variant *v, const struct nfa *m, const unsigned char *d, size_t n, int r, unsigned id, const unsigned *ids, size_t cnt) {
	long q = m->start; for (size_t i = 0; i < n && q >= 0; i++) q = dstep(m, q, d[i]);
	bool exp = q >= 0 && m->s[q].end; char w[300]; fmt_bytes(w, sizeof w, d, n);
	ST(native_runs); ST(strings_run); if (exp) ST(strings_accepted);
	if ((r != 0) != exp) sim_fail("generated-differs", "step %d: the generated %s program (%s) says %d for %s (%zu bytes), the automaton %s it", CI, nname[v->lang], ioname[v->io], r, w, n, exp ? "accepts" : "rejects");
	if (!exp || v->am == AMBIG_NONE || v->lang == N_ATT || v->lang == N_NASM || v->lang == N_SH || v->lang == N_GOASM) return;
	const struct nst *s = &m->s[q];
	if (v->am == AMBIG_MULTIPLE) {
		if (cnt != s->nids) sim_fail("generated-ids", "step %d: the generated %s program (%s) gives %zu ids for %s, the automaton %u", CI, nname[v->lang], ioname[v->io], cnt, w, s->nids);
		for (size_t i = 0; i < cnt; i++) if (ids[i] != s->ids[i]) sim_fail("generated-ids", "step %d: the generated %s program (%s) gives id %u for %s where the automaton has %u", CI, nname[v->lang], ioname[v->io], ids[i], w, s->ids[i]);
	} else if (id != s->ids[0]) sim_fail("generated-ids", "step %d: the generated %s program (%s) gives id %u for %s, the automaton's lowest is %u", CI, nname[v->lang], ioname[v->io], id, w, s->ids[0]);
}

static void run_sh(const struct variant *v, struct tbuf *src, const struct nfa *m, const unsigned char *d, size_t n) {
	int sf = memf("prog", src->d, src->n), in = memf("input", d, n), out = memf("out", "", 0); char path[60]; snprintf(path, sizeof path, "/proc/self/fd/%d", sf);
	char *argv[] = { "bash", "--norc", path, NULL }; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, in, 0); posix_spawn_file_actions_adddup2(&fa, out, 1); posix_spawn_file_actions_adddup2(&fa, out, 2);
	static char *env[] = { "PATH=/usr/bin:/bin", "LC_ALL=C", NULL }; pid_t pid; int r = posix_spawnp(&pid, "bash", &fa, NULL, argv, env); posix_spawn_file_actions_destroy(&fa); if (r) sim_harness_error("cannot run bash");
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	char b[400]; ssize_t k = pread(out, b, sizeof b - 1, 0); b[k > 0 ? k : 0] = 0; close(sf); close(in); close(out);
	bool ok = WIFEXITED(st) && !strcmp(b, "match\n") && WEXITSTATUS(st) == 0, no = WIFEXITED(st) && !strcmp(b, "fail\n") && WEXITSTATUS(st) == 1;
	if (!ok && !no) sim_fail("generated-broken", "step %d: the generated shell script ended with status %#x and said %s", CI, st, b);
	judge(v, m, d, n, ok, 0, NULL, 0);
}

/* Go has its own linker: a whole program with the inputs in it, whose answers it prints */
static void wfile(const char *dir, const char *name, const void *d, size_t n, const char *mode) { char p[200]; snprintf(p, sizeof p, "%s/%s", dir, name); FILE *f = fopen(p, mode); if (!f || fwrite(d, 1, n, f) != n || fclose(f)) sim_harness_error("writing %s", p); }
static void run_go(struct slot *a, const struct variant *v, struct tbuf *src, const struct nfa *m, unsigned char (*in)[700], size_t *len, unsigned n) {
	static char base[400], tool[400]; if (!base[0]) {
		ssize_t k = readlink("/proc/self/exe", base, sizeof base - 40); if (k <= 0) sim_harness_error("readlink"); base[k] = 0; *strrchr(base, '/') = 0; strcat(base, "/../go");
		char p[450]; snprintf(p, sizeof p, "%s/tooldir", base); FILE *f = fopen(p, "r"); if (!f || !fgets(tool, sizeof tool, f)) sim_harness_error("%s: not prepared", p); fclose(f);
	}
	char dir[60] = "/tmp/simgo.XXXXXX", cfg[450], tc[450], tl[450], ta[450], inc[450]; if (!mkdtemp(dir)) sim_harness_error("mkdtemp");
	snprintf(cfg, sizeof cfg, "%s/importcfg", base); snprintf(tc, sizeof tc, "%s/compile", tool); snprintf(tl, sizeof tl, "%s/link", tool); snprintf(ta, sizeof ta, "%s/asm", tool); snprintf(inc, sizeof inc, "%s/../../include", tool);
	struct tbuf g = { 0 }; bool asm_ = v->lang == N_GOASM; const char *ty = v->io == FSM_IO_STR ? "string" : "[]byte";
	tfmt(&g, "package main\n");
	if (asm_) tfmt(&g, "func %sMatch(data %s) int\n", v->prefix, ty);
	else { char *nl = memchr(src->d, '\n', src->n); if (strncmp(src->d, "package ", 8) || !nl) sim_fail("generated-broken", "step %d: the generated go program does not begin with its package", CI); tadd(&g, nl + 1, src->n - (size_t)(nl + 1 - src->d)); }
	tfmt(&g, "var inputs = []string{\n"); for (unsigned j = 0; j < n; j++) { tadd(&g, "\"", 1); for (size_t i = 0; i < len[j]; i++) tfmt(&g, "\\x%02x", in[j][i]); tadd(&g, "\",\n", 3); }
	tfmt(&g, "}\nfunc main() {\n for _, s := range inputs {\n  "); char call[80]; snprintf(call, sizeof call, "%sMatch(%s(s))", v->prefix, ty);
	if (asm_) tfmt(&g, "println(%s != 0)\n", call); else if (v->am == AMBIG_NONE) tfmt(&g, "println(%s)\n", call);
	else if (v->am == AMBIG_MULTIPLE) tfmt(&g, "r, ids := %s\n  print(r, \" \", len(ids)); for _, i := range ids { print(\" \", i) }; println()\n", call);
	else tfmt(&g, "r, id := %s\n  println(r, id)\n", call);
	tfmt(&g, " }\n}\n"); wfile(dir, "m.go", g.d, g.n, "w"); if (asm_) wfile(dir, "a.s", src->d, src->n, "w");
	struct tbuf err = { 0 }; int rc = 0; const char *what = "compiler"; char *cwd = getcwd(NULL, 0); if (chdir(dir)) sim_harness_error("chdir");
	if (asm_) { what = "assembler"; char *av[] = { ta, "-p", "main", "-I", inc, "-gensymabis", "-o", "sym", "a.s", NULL }; rc = run_cmd(av, &err); if (!rc) { char *aw[] = { ta, "-p", "main", "-I", inc, "-o", "a.o", "a.s", NULL }; rc = run_cmd(aw, &err); } }
	if (!rc) { char *av[] = { tc, "-p", "main", "-importcfg", cfg, "-pack", "-o", "m.a", "m.go", NULL }; if (asm_) { char *aw[] = { tc, "-p", "main", "-symabis", "sym", "-importcfg", cfg, "-pack", "-o", "m.a", "m.go", NULL }; rc = run_cmd(aw, &err); } else rc = run_cmd(av, &err); if (rc) what = "compiler"; }
	if (!rc && asm_) { /* what "go tool pack" would do */
		FILE *f = fopen("a.o", "r"); char *b = hmalloc(1 << 22); size_t k = fread(b, 1, 1 << 22, f); fclose(f); char h[70]; snprintf(h, sizeof h, "%-16s%-12d%-6d%-6d%-8s%-10zu`\n", "a.o", 0, 0, 0, "644", k);
		wfile(dir, "m.a", h, 60, "a"); wfile(dir, "m.a", b, k, "a"); if (k & 1) wfile(dir, "m.a", "\0", 1, "a"); hfree(b);
	}
	if (!rc) { char *av[] = { tl, "-s", "-w", "-importcfg", cfg, "-o", "m", "m.a", NULL }; rc = run_cmd(av, &err); if (rc) what = "linker"; }
	struct tbuf out = { 0 }; int xc = 0;
	if (!rc) { char *av[] = { "./m", NULL }; xc = run_cmd(av, &out); }
	if (chdir(cwd)) sim_harness_error("chdir"); free(cwd);
	static const char *const files[] = { "m.go", "a.s", "sym", "a.o", "m.a", "m" }; if (!getenv("SIM_KEEP")) { for (unsigned i = 0; i < 6; i++) { char p[100]; snprintf(p, sizeof p, "%s/%s", dir, files[i]); unlink(p); } rmdir(dir); }
	char eb[700]; if (rc) { shorten(&err, eb, sizeof eb); sim_fail("generated-not-compiled", "step %d: the %s refused the generated %s program: %s", CI, what, nname[v->lang], eb); }
	if (xc) { shorten(&out, eb, sizeof eb); sim_fail("generated-broken", "step %d: the generated %s program ended with status %d: %s", CI, nname[v->lang], xc, eb); }
	char *p = out.d;
	for (unsigned j = 0; j < n; j++) {
		char *nl = p ? strchr(p, '\n') : NULL; if (!nl) sim_fail("generated-broken", "step %d: the generated %s program answered %u of %u times", CI, nname[v->lang], j, n);
		*nl = 0; int res = !strncmp(p, "true", 4); unsigned id = 0; size_t cnt = 0; unsigned ids[300]; char *q = p + (res ? 4 : 5);
		if (v->am == AMBIG_MULTIPLE) { cnt = strtoul(q, &q, 10); for (size_t i = 0; i < cnt && i < 300; i++) ids[i] = (unsigned)strtoul(q, &q, 10); } else if (v->am != AMBIG_NONE) id = (unsigned)strtoul(q, &q, 10);
		judge(v, m, in[j], len[j], res, id, ids, cnt); p = nl + 1;
	}
	hfree(g.d); hfree(err.d); hfree(out.d); (void)a;
}

/* native a seed langs optbits nstrings : generate programs, compile and run them */
int op_native(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || in_branch || !a->snap->n || !has_start(a) || !ensure_dfa(a) || a->snap->n > 120) return OP_SKIP;
	struct rng r = { mix64((u64)o->a[1], 41) };
	struct nfa *m = nfa_clone(a->snap); bool allids = true, nul = false;
	for (unsigned i = 0; i < m->n; i++) { if (m->s[i].end && !m->s[i].nids) allids = false; for (unsigned j = 0; j < m->s[i].ne; j++) if (m->s[i].e[j].sym[0] & 1) nul = true; }
	bool others = o->a[2] & 1; int fam = !others ? 0 : 1 + (int)((unsigned long)o->a[2] >> 1) % 7; /* 0: C family; 1 llvm 2 att 3 nasm 4 rust 5 sh 6 go 7 go assembly */
	static const int famlang[] = { 0, N_LLVM, N_ATT, N_NASM, N_RUST, N_SH, N_GO, N_GOASM };
	unsigned nv = fam == 0 ? 1 + rn(&r, 6) : fam == 1 || fam == 2 || fam == 3 || fam >= 5 ? 1 : 1 + rn(&r, 3); struct variant v[6]; unsigned k = 0; struct tbuf src = { 0 };
	if (fam == 0) tfmt(&src, "#include <stdio.h>\n#include <stddef.h>\n#include <string.h>\n");
	bool ops_used = false;
	for (unsigned i = 0; i < nv; i++) {
		struct variant *x = &v[k]; memset(x, 0, sizeof *x); unsigned b = (unsigned)rnd(&r);
		x->lang = fam ? famlang[fam] : (b & 15) == 15 && !ops_used ? N_VMOPS : b & 1 ? N_VMC : N_C;
		x->io = (enum fsm_io)(rn(&r, 3)); if (x->lang == N_ATT || x->lang == N_NASM) x->io = FSM_IO_PAIR; if (x->lang == N_SH) x->io = FSM_IO_STR; if (x->lang == N_GO || x->lang == N_GOASM) x->io = rn(&r, 2) ? FSM_IO_STR : FSM_IO_PAIR;
		static const enum fsm_ambig ams[] = { AMBIG_NONE, AMBIG_MULTIPLE, AMBIG_EARLIEST, AMBIG_ERROR };
		x->am = allids && fam != 2 && fam != 3 && fam != 5 && fam != 7 ? ams[rn(&r, 4)] : AMBIG_NONE;
		if (x->lang == N_VMOPS && x->am != AMBIG_NONE) x->am = AMBIG_MULTIPLE; /* it always lists them */
		if (x->am == AMBIG_ERROR) for (unsigned s = 0; s < m->n; s++) if (m->s[s].end && m->s[s].nids > 1) x->am = AMBIG_EARLIEST;
		x->fo.io = x->io; x->fo.ambig = x->am; x->fo.comments = b >> 8 & 1; x->fo.consolidate_edges = b >> 9 & 1; x->fo.case_ranges = b >> 10 & 1; x->fo.always_hex = b >> 11 & 1; x->fo.anonymous_states = b >> 12 & 1; x->fo.group_edges = b >> 13 & 1;
		snprintf(x->prefix, sizeof x->prefix, "v%u_", i); x->fo.prefix = x->prefix;
		size_t at = src.n; bool ok;
		if (x->lang == N_VMOPS) {
			ops_used = true; tfmt(&src, "#define main v%u_main\n", i);
			ok = emit(a, x, FSM_PRINT_VMOPS_H, &src, &r) && emit(a, x, FSM_PRINT_VMOPS_C, &src, &r) && emit(a, x, FSM_PRINT_VMOPS_MAIN, &src, &r); tfmt(&src, "#undef main\n");
		} else { static const int pl[] = { FSM_PRINT_C, FSM_PRINT_VMC, 0, FSM_PRINT_LLVM, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_NASM, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_GO, FSM_PRINT_AMD64_GO }; ok = emit(a, x, pl[x->lang], &src, &r); }
		if (!ok) { src.n = at; continue; }
		if (x->lang == N_RUST) rust_tramp(&src, x); if (x->lang == N_LLVM) llvm_tramp(&src, x);
		k++;
	}
	if (!k) { nfa_free(m); hfree(src.d); return OP_SKIP; }
	trace_bytes(src.d, src.n);
	ST(compiles_ok); for (unsigned i = 0; i < k; i++) shm->st[ST_native_c + v[i].lang]++;
	int sf = -1, of = -1; void *h = NULL; char sp[40], op[40]; struct tbuf err = { 0 }; char eb[700];
	if (fam < 5) {
		sf = memf("src", src.d, src.n); of = memf("so", "", 0); snprintf(sp, sizeof sp, "/proc/self/fd/%d", sf); snprintf(op, sizeof op, "/proc/self/fd/%d", of);
		int mid = -1; char mp[40]; int rc = 0; char td[40] = "";
		switch (fam) {
		case 0: { char *argv[] = { "gcc", "-pipe", "-w", "-std=gnu99", "-O0", "-fsanitize=address", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-x", "c", sp, "-o", op, NULL }; rc = run_cmd(argv, &err); break; }
		case 1: { char *argv[] = { "clang", "-w", "-O1", "-shared", "-fPIC", "-x", "ir", sp, "-o", op, NULL }; rc = run_cmd(argv, &err); break; }
		case 2: { char *argv[] = { "gcc", "-pipe", "-shared", "-Wl,-z,noexecstack", "-x", "assembler", sp, "-o", op, NULL }; rc = run_cmd(argv, &err); break; }
		case 3: mid = memf("obj", "", 0); snprintf(mp, sizeof mp, "/proc/self/fd/%d", mid);
			{ char *argv[] = { "nasm", "-felf64", sp, "-o", mp, NULL }; rc = run_cmd(argv, &err); if (!rc) { char *lv[] = { "ld", "-shared", "-z", "noexecstack", mp, "-o", op, NULL }; rc = run_cmd(lv, &err); } break; }
		case 4: snprintf(td, sizeof td, "/tmp/simrs.XXXXXX"); if (!mkdtemp(td)) sim_harness_error("mkdtemp"); snprintf(op, sizeof op, "%s/p.so", td);
			{ char *argv[] = { "rustc", "--edition", "2021", "-Copt-level=0", "-Cdebuginfo=0", "-Cpanic=abort", "-Awarnings", "--crate-name", "prog", "--crate-type", "cdylib", sp, "-o", op, NULL }; rc = run_cmd(argv, &err); break; }
		}
		if (td[0] && !rc) h = dlopen(op, RTLD_NOW | RTLD_LOCAL);
		if (td[0]) { unlink(op); rmdir(td); }
		if (rc) { shorten(&err, eb, sizeof eb); sim_fail("generated-not-compiled", "step %d: the generated %s program was refused: %s", CI, nname[v[0].lang], eb); }
		if (!h) h = dlopen(op, RTLD_NOW | RTLD_LOCAL);
		if (!h) sim_harness_error("dlopen: %s", dlerror());
		if (mid >= 0) close(mid);
		for (unsigned i = 0; i < k; i++) {
			char fn[40]; snprintf(fn, sizeof fn, "%s%s", v[i].prefix, v[i].lang == N_VMOPS || v[i].lang == N_ATT || v[i].lang == N_NASM ? "match" : v[i].lang == N_RUST || v[i].lang == N_LLVM ? "run" : "main");
			v[i].fn = dlsym(h, fn); if (!v[i].fn) sim_fail("generated-broken", "step %d: the generated %s program defines no %s", CI, nname[v[i].lang], fn);
		}
	}
	unsigned n = 2 + (unsigned)((unsigned long)o->a[4] % 30); unsigned char buf[700]; if (fam == 5) n = 1 + n % 4;
	if (fam >= 6) { unsigned char (*in)[700] = hmalloc(n * 700); size_t *len = hmalloc(n * sizeof *len); for (unsigned j = 0; j < n; j++) len[j] = nfa_sample(m, &r, in[j], chance(&r, 1, 10) ? 600 : 24); run_go(a, &v[0], &src, m, in, len, n); hfree(in); hfree(len); n = 0; }
	for (unsigned j = 0; j < n; j++) {
		size_t l = nfa_sample(m, &r, buf, chance(&r, 1, 10) ? 600 : 24);
		for (unsigned i = 0; i < k; i++) {
			struct variant *x = &v[i]; size_t n2 = l;
			if (x->io == FSM_IO_STR && x->lang != N_RUST && x->lang != N_SH) { void *z = memchr(buf, 0, l); if (z) n2 = (size_t)((unsigned char *)z - buf); }
			if (x->lang == N_SH) { bool odd = nul; for (size_t c = 0; c < n2; c++) if (buf[c] == 0 || buf[c] == '\n') odd = true; if (!odd) run_sh(x, &src, m, buf, n2); continue; }
			/* exactly as much memory as the interface promises */
			unsigned char *in = hmalloc(n2 + (x->io == FSM_IO_STR)); memcpy(in, buf, n2); if (x->io == FSM_IO_STR) in[n2] = 0;
			struct gsrc g = { in, n2, 0, false }; unsigned id = 0xdeadbeef; const unsigned *ids = NULL; size_t cnt = 4242;
			int res = call_variant(x, in, n2, &g, &id, &ids, &cnt);
			judge(x, m, in, n2, res, id, ids, cnt); trace_u64((u64)(res != 0));
			hfree(in);
		}
	}
	if (h) dlclose(h);
	if (sf >= 0) close(sf); if (of >= 0) close(of);
	hfree(src.d); hfree(err.d); nfa_free(m);
	return OP_OK;
}
