/* Printed descriptions (JSON, IR as JSON, dot, calls of the API), read back by parsers of our own and compared with the automaton. */
#define _GNU_SOURCE
#include <stdarg.h>
#include "hist.h"
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <spawn.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <ctype.h>
extern char **environ;

enum { D_JSON, D_IRJSON, D_DOT, D_API };
static const char *const dname[] = { "json", "irjson", "dot", "api" };
static const char *what; static const unsigned char *B, *Bp, *Be;
static void broken(const char *f, ...) __attribute__((format(printf, 1, 2), noreturn));
static void broken(const char *f, ...) { char t[300], w[100]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); fmt_bytes(w, sizeof w, Bp, Bp && Be > Bp ? ((size_t)(Be - Bp) < 20 ? (size_t)(Be - Bp) : 20) : 0); sim_fail("description-broken", "step %d: the %s text is malformed: %s (at byte %ld: %s)", CI, what, t, Bp ? (long)(Bp - B) : 0, w); abort(); }

/* ---- JSON, strictly by RFC 8259 ---- */
struct jv { char t; double num; unsigned *s; unsigned n, cap; struct jv **k; struct jv *key; }; /* { [ " 0 t f n */
static void ws(void) { while (Bp < Be && (*Bp == ' ' || *Bp == '\t' || *Bp == '\n' || *Bp == '\r')) Bp++; }
static struct jv *jnew(char t) { struct jv *v = hcalloc(1, sizeof *v); v->t = t; return v; }
static void jfree(struct jv *v) { if (!v) return; if (v->k) for (unsigned i = 0; i < v->n; i++) jfree(v->k[i]); jfree(v->key); hfree(v->k); hfree(v->s); hfree(v); }
static struct jv *jstring(void) {
	if (Bp == Be || *Bp != '"') broken("a string was expected"); Bp++; struct jv *v = jnew('"');
	for (;;) {
		if (Bp == Be) broken("a string does not end"); unsigned c = *Bp++;
		if (c == '"') return v; if (c < 0x20 || c >= 0x7f) { Bp--; broken("a raw byte %#x in a string", c); }
		if (c == '\\') { if (Bp == Be) broken("a string does not end"); c = *Bp++; static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t"; const char *q = c ? strchr(from, (int)c) : NULL;
			if (q) c = (unsigned char)to[q - from]; else if (c == 'u') { c = 0; for (int i = 0; i < 4; i++) { if (Bp == Be || !isxdigit(*Bp)) broken("a bad \\u escape"); unsigned d = *Bp++; c = c * 16 + (isdigit((int)d) ? d - '0' : (d | 32) - 'a' + 10); } } else { Bp--; broken("a bad escape"); } }
		if (v->n == v->cap) { v->cap = v->cap * 2 + 8; v->s = hrealloc(v->s, v->cap * sizeof *v->s); } v->s[v->n++] = c;
	}
}
static struct jv *jvalue(int depth) {
	ws(); if (Bp == Be || depth > 20) broken("a value was expected");
	if (*Bp == '"') return jstring();
	if (*Bp == '{' || *Bp == '[') {
		struct jv *v = jnew((char)*Bp); unsigned char close = *Bp == '{' ? '}' : ']'; Bp++; ws();
		if (Bp < Be && *Bp == close) { Bp++; return v; }
		for (;;) {
			struct jv *key = NULL; ws(); if (close == '}') { key = jstring(); ws(); if (Bp == Be || *Bp != ':') broken("':' was expected"); Bp++; }
			struct jv *x = jvalue(depth + 1); x->key = key; if (v->n == v->cap) { v->cap = v->cap * 2 + 8; v->k = hrealloc(v->k, v->cap * sizeof *v->k); } v->k[v->n++] = x;
			if (key) for (unsigned i = 0; i + 1 < v->n; i++) if (v->k[i]->key->n == key->n && !memcmp(v->k[i]->key->s, key->s, key->n * sizeof *key->s)) broken("the same name twice in an object");
			ws(); if (Bp == Be) broken("it does not end"); if (*Bp == close) { Bp++; return v; } if (*Bp != ',') broken("',' or '%c' was expected", close); Bp++;
		}
	}
	if (*Bp == '-' || isdigit(*Bp)) { struct jv *v = jnew('0'); const unsigned char *q = Bp; if (*q == '-') broken("a negative number"); if (*q == '0' && q + 1 < Be && isdigit(q[1])) broken("a number with a leading zero"); while (Bp < Be && isdigit(*Bp)) v->num = v->num * 10 + (*Bp++ - '0'); return v; }
	static const char *const lit[] = { "true", "false", "null" }; for (int i = 0; i < 3; i++) { size_t k = strlen(lit[i]); if ((size_t)(Be - Bp) >= k && !memcmp(Bp, lit[i], k)) { Bp += k; return jnew(lit[i][0]); } }
	broken("a value was expected");
}
static struct jv *jparse(const unsigned char *d, size_t n) { B = Bp = d; Be = d + n; struct jv *v = jvalue(0); ws(); if (Bp != Be) broken("text after the value"); if (v->t != '{') broken("not an object"); return v; }
static struct jv *jget(const struct jv *o, const char *name, char t) {
	if (o->t == '{') for (unsigned i = 0; i < o->n; i++) { const struct jv *k = o->k[i]->key; if (k->n != strlen(name)) continue; bool eq = true; for (unsigned j = 0; j < k->n; j++) if (k->s[j] != (unsigned char)name[j]) eq = false; if (eq) { if (t && o->k[i]->t != t) broken("\"%s\" is of the wrong kind", name); return o->k[i]; } }
	if (t) broken("\"%s\" is missing", name);
	return NULL;
}
static unsigned jnum(const struct jv *o, const char *name, unsigned below) { unsigned u = (unsigned)jget(o, name, '0')->num; if (jget(o, name, '0')->num >= below) broken("\"%s\" is %.0f, there are %u states", name, jget(o, name, '0')->num, below); return u; }
static bool jis(const struct jv *v, const char *s) { size_t k = strlen(s); if (v->t != '"' || v->n != k) return false; for (size_t i = 0; i < k; i++) if (v->s[i] != (unsigned char)s[i]) return false; return true; }

/* exp: the automaton with what the form does not carry taken away; groups: sets of symbols are for humans only */
static void same(const struct nfa *got, const struct nfa *exp) { if (!nfa_same(got, exp, M, sizeof M)) { char t[700]; snprintf(t, sizeof t, "%.600s", M); sim_fail("description-differs", "step %d: the %s text does not describe the automaton: %s", CI, what, t); } }
static void blur(struct nfa *m) { for (unsigned i = 0; i < m->n; i++) for (unsigned j = 0; j < m->s[i].ne; j++) memset(m->s[i].e[j].sym, 0xff, sizeof m->s[i].e[j].sym); }
static void strip(struct nfa *m, bool ids) { for (unsigned i = 0; i < m->n; i++) { if (ids) m->s[i].nids = 0; m->s[i].neo = 0; } }
static bool hasedge(const struct nfa *m, unsigned a, unsigned b) { for (unsigned j = 0; j < m->s[a].ne; j++) if (m->s[a].e[j].to == b) return true; return false; }
static bool hassym(const struct nfa *m, unsigned a, unsigned b, unsigned c) { for (unsigned j = 0; j < m->s[a].ne; j++) if (m->s[a].e[j].to == b && m->s[a].e[j].sym[c >> 6] >> (c & 63) & 1) return true; return false; }
static void addsym(struct nfa *m, unsigned a, unsigned b, unsigned c) { if (hassym(m, a, b, c)) sim_fail("description-differs", "step %d: the %s text has the same edge twice (%u to %u by \\x%02x)", CI, what, a, b, c); nfa_addsym(m, a, b, (unsigned char)c); }

static void d_json(const unsigned char *d, size_t n, const struct nfa *m, const struct fsm_options *fo) {
	struct jv *v = jparse(d, n); struct nfa *g = nfa_new(), *x = nfa_clone(m); strip(x, true);
	struct jv *sc = jget(v, "statecount", '0'), *st = jget(v, "start", 0); if (sc->num != m->n) sim_fail("description-differs", "step %d: the %s text says %.0f states, there are %u", CI, what, sc->num, m->n);
	for (unsigned i = 0; i < m->n; i++) nfa_addstate(g);
	g->start = st ? (long)jnum(v, "start", m->n) : -1;
	struct jv *e = jget(v, "end", '['); for (unsigned i = 0; i < e->n; i++) { if (e->k[i]->t != '0' || e->k[i]->num >= m->n) broken("an end state that is none"); struct nst *s = &g->s[(unsigned)e->k[i]->num]; if (s->end) broken("an end state twice"); s->end = true; }
	e = jget(v, "edges", '['); if (fo->consolidate_edges) blur(x);
	for (unsigned i = 0; i < e->n; i++) {
		unsigned a = jnum(e->k[i], "src", m->n), b = jnum(e->k[i], "dst", m->n); struct jv *sy = jget(e->k[i], "symbol", 0), *la = jget(e->k[i], "label", 0);
		if (sy && la) broken("an edge with a symbol and a label");
		if (la && (la->t != '"' || !la->n)) broken("a label that is no text");
		if ((!sy && !la) || (la && la->n == 1 && la->s[0] == 0x3b5)) { nfa_addeps(g, a, b); continue; }
		if (la) { if (hasedge(g, a, b)) sim_fail("description-differs", "step %d: the %s text has two edges from %u to %u", CI, what, a, b); nfa_addany(g, a, b); if (la->n == 1 && !hassym(m, a, b, la->s[0] & 255)) sim_fail("description-differs", "step %d: the %s text has an edge from %u to %u by \\x%02x, the automaton has not", CI, what, a, b, la->s[0]); continue; }
		if (sy->t == '"' && (sy->n != 1 || sy->s[0] > 255)) broken("a symbol of %u characters", sy->n);
		if (sy->t == '0' && sy->num > 255) broken("a symbol greater than 255");
		addsym(g, a, b, sy->t == '"' ? sy->s[0] : (unsigned)sy->num);
	}
	same(g, x); nfa_free(g); nfa_free(x); jfree(v);
}
static unsigned endpoint(const struct jv *r, const char *name) { struct jv *s = jget(r, name, '"'); if (s->n != 1 || s->s[0] > 255) broken("an endpoint of %u characters", s->n); return s->s[0]; }
static void ranges(const struct jv *l, struct nfa *g, unsigned a, long to, unsigned char *used) {
	if (l->t != '[' || !l->n) broken("no ranges"); 
	for (unsigned i = 0; i < l->n; i++) { unsigned lo = endpoint(l->k[i], "start"), hi = endpoint(l->k[i], "end"); if (lo > hi) broken("a range from \\x%02x to \\x%02x", lo, hi);
		for (unsigned c = lo; c <= hi; c++) { if (used[c]) sim_fail("description-differs", "step %d: the %s text has \\x%02x twice for state %u", CI, what, c, a); used[c] = 1; if (to >= 0) nfa_addsym(g, a, (unsigned)to, (unsigned char)c); } }
}
static void d_irjson(const unsigned char *d, size_t n, const struct nfa *m, bool ids) {
	struct jv *v = jparse(d, n); struct nfa *g = nfa_new(), *x = nfa_clone(m); strip(x, !ids);
	struct jv *l = jget(v, "states", '['); for (unsigned i = 0; i < l->n; i++) nfa_addstate(g); g->start = (long)jnum(v, "start", l->n);
	for (unsigned i = 0; i < l->n; i++) {
		struct jv *s = l->k[i], *en = jget(s, "end", 0), *st = jget(s, "strategy", '"'), *id = jget(s, "end_id", 0), *gr = jget(s, "groups", 0); unsigned char used[256] = { 0 };
		if (!en || (en->t != 't' && en->t != 'f')) broken("\"end\" is of the wrong kind"); g->s[i].end = en->t == 't';
		if (id && ids) { if (id->t != '[') broken("\"end_id\" is of the wrong kind"); for (unsigned k = 0; k < id->n; k++) { if (id->k[k]->t != '0') broken("an end id that is no number"); nfa_addid(g, i, (unsigned)id->k[k]->num); } }
		bool part = jis(st, "partial"), comp = jis(st, "complete"), dom = jis(st, "dominant"), err = jis(st, "error");
		if (jis(st, "same")) { nfa_addany(g, i, jnum(s, "to", l->n)); continue; }
		if (jis(st, "none")) continue;
		if (!part && !comp && !dom && !err) broken("an unknown strategy");
		if (!gr || gr->t != '[') broken("no groups"); if (err) ranges(jget(s, "error", '['), g, i, -1, used);
		for (unsigned k = 0; k < gr->n; k++) ranges(jget(gr->k[k], "ranges", '['), g, i, (long)jnum(gr->k[k], "to", l->n), used);
		if (dom || err) { unsigned mo = jnum(s, "mode", l->n); for (unsigned c = 0; c < 256; c++) if (!used[c]) nfa_addsym(g, i, mo, (unsigned char)c); }
		if (comp) for (unsigned c = 0; c < 256; c++) if (!used[c]) sim_fail("description-differs", "step %d: the %s text calls state %u complete without \\x%02x", CI, what, i, c);
	}
	same(g, x); nfa_free(g); nfa_free(x); jfree(v);
}
/* the label of one symbol, undone */
static long unlabel(const char *s, size_t n) {
	static const struct { const char *s; int c; } t[] = { { "&amp;", '&' }, { "&quot;", '"' }, { "&#x5D;", ']' }, { "&#x3C;", '<' }, { "&#x3E;", '>' }, { "&#x2423;", ' ' }, { "\\a", 7 }, { "\\b", 8 }, { "\\f", 12 }, { "\\n", 10 }, { "\\r", 13 }, { "\\t", 9 }, { "\\v", 11 }, { "&#x3B5;", 256 } };
	for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (strlen(t[i].s) == n && !memcmp(t[i].s, s, n)) return t[i].c;
	if (n == 1 && (unsigned char)*s >= 0x20 && (unsigned char)*s < 0x7f && !strchr("<>&", *s)) return (unsigned char)*s;
	if (n == 4 && s[0] == '\\' && s[1] == 'x' && isxdigit((unsigned char)s[2]) && isxdigit((unsigned char)s[3])) { char h[3] = { s[2], s[3], 0 }; return strtol(h, NULL, 16); }
	return -1;
}
static bool pnum(const char **p, const char *pre, const char *end, unsigned n, unsigned *out) {
	size_t k = strlen(pre); const char *q = *p; if ((size_t)(end - q) < k + 2 || memcmp(q, pre, k)) return false; q += k; if (*q++ != 'S' || !isdigit((unsigned char)*q)) return false;
	unsigned long u = 0; while (q < end && isdigit((unsigned char)*q)) u = u * 10 + (unsigned)(*q++ - '0'); if (u >= n) broken("state %lu, of %u", u, n); while (q < end && *q == ' ') q++; *p = q; *out = (unsigned)u; return true;
}
static void d_dot(const unsigned char *d, size_t n, const struct nfa *m, const struct fsm_options *fo) {
	struct nfa *g = nfa_new(), *x = nfa_clone(m); const char *pre = fo->prefix ? fo->prefix : ""; strip(x, false); if (fo->consolidate_edges) blur(x); if (fo->fragment) x->start = -1;
	for (unsigned i = 0; i < m->n; i++) nfa_addstate(g); g->start = -1; B = d; Be = d + n; int open = 0; bool done = false;
	for (const unsigned char *p = d; p < Be; ) {
		const unsigned char *nl = memchr(p, '\n', (size_t)(Be - p)); Bp = p; if (!nl) broken("the last line does not end"); const char *q = (const char *)p, *e = (const char *)nl; p = nl + 1;
		while (q < e && (*q == '\t' || *q == ' ')) q++; if (q == e) continue; if (done) broken("text after the graph");
		if (e[-1] == '{') { open++; continue; } if (*q == '}') { if (--open == 0) done = true; continue; }
		unsigned a, b; if (e[-1] != ';') broken("a statement without ';'");
		if ((size_t)(e - q) > 9 && !memcmp(q, "start -> ", 9)) { q += 9; if (!pnum(&q, pre, e, m->n, &a)) broken("no start state"); if (g->start >= 0) broken("two start states"); g->start = a; continue; }
		if (!pnum(&q, pre, e, m->n, &a)) continue;
		const char *la = memmem(q, (size_t)(e - q), "label = <", 9); const char *le = e - 1; while (le > q && *le != '>') le--; /* label = <...> ]; */
		if ((size_t)(e - q) > 3 && !memcmp(q, "-> ", 3)) {
			q += 3; if (!pnum(&q, pre, e, m->n, &b)) broken("an edge to nowhere"); if (!la || le < la + 9) broken("an edge without a label"); la += 9; if ((size_t)(e - le) != 4 || memcmp(le, "> ];", 4)) broken("an edge's attributes do not end");
			long c = unlabel(la, (size_t)(le - la)); if (c == 256) { nfa_addeps(g, a, b); continue; }
			if (fo->consolidate_edges) { if (hasedge(g, a, b)) sim_fail("description-differs", "step %d: the %s text has two edges from %u to %u", CI, what, a, b); nfa_addany(g, a, b); if (c >= 0 && !hassym(m, a, b, (unsigned)c)) sim_fail("description-differs", "step %d: the %s text has an edge from %u to %u by \\x%02lx, the automaton has not", CI, what, a, b, c); continue; }
			if (c < 0) broken("the label of an edge"); addsym(g, a, b, (unsigned)c); continue;
		}
		if (memmem(q, (size_t)(e - q), "doublecircle", 12)) {
			if (g->s[a].end) broken("a state twice"); g->s[a].end = true; if (!la || le < la + 9) broken("an end state without a label");
			for (const char *h = la + 9; h < le; h++) if (*h == '#') nfa_addid(g, a, (unsigned)strtoul(h + 1, NULL, 10));
		}
	}
	if (open || (!fo->fragment && !done)) { Bp = Be; broken("the graph does not end"); }
	same(g, x); nfa_free(g); nfa_free(x);
}
/* compiled, and called with functions which note what they are asked for */
static int d_api(const unsigned char *d, size_t n, const struct nfa *m, const struct fsm_options *fo) {
	unsigned ends = 0, end = 0; for (unsigned i = 0; i < m->n; i++) if (m->s[i].end) { ends++; end = i; }
	if (!ends || (ends == 1 && (long)end == m->start)) return OP_SKIP; /* where it begins and where it ends are given by the caller, as two states */
	static const char post[] = "\nunsigned lf_log[300000][4], lf_n, lf_states = 2;\n#define NOTE(k, a, b, c) (lf_n < 300000 ? (lf_log[lf_n][0] = (k), lf_log[lf_n][1] = (a), lf_log[lf_n][2] = (b), lf_log[lf_n][3] = (c), lf_n++, 1) : (lf_n++, 1))\n"
		"int fsm_addstate(struct fsm *f, fsm_state_t *s) { *s = lf_states++; return 1; }\nint fsm_addedge_epsilon(struct fsm *f, fsm_state_t a, fsm_state_t b) { return NOTE(0, a, b, 0); }\n"
		"int fsm_addedge_any(struct fsm *f, fsm_state_t a, fsm_state_t b) { return NOTE(1, a, b, 0); }\nint fsm_addedge_literal(struct fsm *f, fsm_state_t a, fsm_state_t b, char c) { return NOTE(2, a, b, (unsigned char)c); }\n"
		"int fsm_isend(const struct fsm *f, fsm_state_t s) { return s == 1; }\nint fsm_endid_set(struct fsm *f, fsm_state_t s, fsm_end_id_t id) { return NOTE(3, s, id, 0); }\nvoid fsm_setend(struct fsm *f, fsm_state_t s, int e) { NOTE(4, s, e, 0); }\n"
		"int lf_run(void) { fsm_state_t x = 0, y = 1; return LF_NAME((struct fsm *)0, &x, &y); }\n";
	int sf = memfd_create("src", 0), of = memfd_create("so", 0), df = memfd_create("diag", 0); if (sf < 0 || of < 0 || df < 0) sim_harness_error("memfd");
	FILE *f = fdopen(dup(sf), "w"); if (!f) sim_harness_error("fdopen");
	if (fo->fragment) fprintf(f, "#include <assert.h>\n#include <stddef.h>\n#include <fsm/fsm.h>\n#include <fsm/pred.h>\nint lf_frag(struct fsm *fsm, fsm_state_t *x, fsm_state_t *y)\n{\n");
	fwrite(d, 1, n, f); if (fo->fragment) fprintf(f, "return 1;\n}\n");
	fprintf(f, "\n#define LF_NAME %s%s\n", fo->fragment || !fo->prefix ? "" : fo->prefix, fo->fragment ? "lf_frag" : "fsm"); fputs(post, f); if (fclose(f)) sim_harness_error("writing");
	char sp[40], op[40]; snprintf(sp, sizeof sp, "/proc/self/fd/%d", sf); snprintf(op, sizeof op, "/proc/self/fd/%d", of);
	char *argv[] = { "gcc", "-pipe", "-w", "-std=gnu99", "-O0", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-DLF_HEADER=<stddef.h>", "-I" REPOINC, "-x", "c", sp, "-o", op, NULL };
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, df, 2); posix_spawn_file_actions_adddup2(&fa, df, 1); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	pid_t pid; int r = posix_spawnp(&pid, argv[0], &fa, NULL, argv, environ); posix_spawn_file_actions_destroy(&fa); if (r) sim_harness_error("cannot run gcc: %s", strerror(r));
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	if (WIFSIGNALED(st)) sim_harness_error("gcc was killed by signal %d", WTERMSIG(st));
	if (WEXITSTATUS(st)) { char eb[600]; ssize_t k = pread(df, eb, sizeof eb - 1, 0); eb[k > 0 ? k : 0] = 0; for (char *p = eb; *p; p++) if (*p == '\n') *p = ' '; sim_fail("description-not-compiled", "step %d: the calls printed as %s are refused by the compiler: %s", CI, what, eb); }
	void *h = dlopen(op, RTLD_NOW | RTLD_LOCAL); if (!h) sim_harness_error("dlopen: %s", dlerror());
	int (*run)(void) = (int (*)(void))dlsym(h, "lf_run"); unsigned (*log)[4] = dlsym(h, "lf_log"), *ln = dlsym(h, "lf_n"), *ls = dlsym(h, "lf_states"); if (!run || !log || !ln || !ls) sim_harness_error("dlsym");
	if (run() != 1) sim_fail("description-broken", "step %d: the calls printed as %s report failure though each succeeds", CI, what);
	if (*ln <= 300000) {
		struct nfa *g = nfa_new(); for (unsigned i = 0; i < *ls; i++) nfa_addstate(g); g->start = 0; g->s[1].end = true;
		for (unsigned i = 0; i < *ln; i++) {
			unsigned *e = log[i]; if (e[1] >= g->n || (e[0] < 3 && e[2] >= g->n)) sim_fail("description-broken", "step %d: the calls printed as %s name a state that was not made", CI, what);
			if (e[0] == 0) nfa_addeps(g, e[1], e[2]); else if (e[0] == 1) nfa_addany(g, e[1], e[2]); else if (e[0] == 2) nfa_addsym(g, e[1], e[2], (unsigned char)e[3]); else if (e[0] == 3) nfa_addid(g, e[1], e[2]);
		}
		int q = nfa_equiv(g, m, CMP_LANG | (ends == 1 ? CMP_IDS : 0), BUDGET, M, sizeof M);
		if (q == 0) { char t[700]; snprintf(t, sizeof t, "%.600s", M); sim_fail("description-differs", "step %d: the calls printed as %s do not build the automaton: %s", CI, what, t); }
		nfa_free(g);
	}
	dlclose(h); close(sf); close(of); close(df); return OP_OK;
}

/* describe a seed lang optbits */
int op_describe(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || in_branch || !a->snap->n || a->snap->n > 150 || nfa_edges(a->snap) > 3000) return OP_SKIP;
	struct rng r = { mix64((u64)o->a[1], 43) }; unsigned b = (unsigned)((unsigned long)o->a[3]); int lang = (int)((unsigned long)o->a[2] % 10); lang = lang < 3 ? D_JSON : lang < 6 ? D_IRJSON : lang < 8 ? D_DOT : D_API;
	if (lang == D_IRJSON && (!has_start(a) || !ensure_dfa(a))) return OP_SKIP;
	if (lang == D_API && (!has_start(a) || a->snap->n > 50)) return OP_SKIP;
	struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.anonymous_states = b & 1; fo.consolidate_edges = b >> 1 & 1; fo.fragment = b >> 2 & 1; fo.comments = b >> 3 & 1; fo.case_ranges = b >> 4 & 1; fo.always_hex = b >> 5 & 1; fo.group_edges = b >> 6 & 1; if (b & 128) fo.prefix = "pfx_"; fo.ambig = AMBIG_MULTIPLE; fo.io = FSM_IO_STR;
	bool allids = true; for (unsigned i = 0; i < a->snap->n; i++) if (a->snap->s[i].end && !a->snap->s[i].nids) allids = false; if (!allids) fo.ambig = AMBIG_NONE;
	static const enum fsm_print_lang pl[] = { FSM_PRINT_JSON, FSM_PRINT_IRJSON, FSM_PRINT_DOT, FSM_PRINT_API }; what = dname[lang];
	struct stream s; bool have = false;
	if (chance(&r, 1, 2)) { /* an attempt in which something fails: if it claims success, its text is the one read */
		u64 fs = rnd(&r); bool io = chance(&r, 1, 3); struct fault flt = { io ? F_NONE : chance(&r, 1, 2) ? F_SINGLE : F_FROM, (long)rn(&r, chance(&r, 1, 2) ? 12 : 80), 0 };
		stream_init(&s, NULL, 0, fs, 0, io ? (long)rn(&r, 3000) : -1); FILE *f = stream_writer(&s, (int)rn(&r, 5));
		sim_enter(CI, flt, fs); int q = fsm_print(f, a->f, &fo, NULL, pl[lang]); sim_leave(); bool err = ferror(f) != 0; if (fclose(f)) err = true;
		if (q >= 0 && !err) have = true; else stream_fini(&s);
	}
	if (!have) {
		stream_init(&s, NULL, 0, 1, 0, -1); FILE *f = stream_writer(&s, 0); struct fault none = { 0 };
		sim_enter(CI, none, 0); errno = 0; int q = fsm_print(f, a->f, &fo, NULL, pl[lang]); int e = errno; sim_leave(); if (fclose(f)) sim_harness_error("memory stream");
		if (q < 0) { stream_fini(&s); if (e != ENOTSUP && e != EINVAL) sim_fail("spurious-failure", "step %d: printing %s failed although nothing was injected (errno %d)", CI, what, e); return OP_SKIP; }
	}
	trace_bytes(s.d, s.n); const unsigned char *d = s.d ? s.d : (const unsigned char *)""; int rc = OP_OK; B = Bp = Be = NULL; shm->st[ST_describe_json + lang]++;
	switch (lang) {
	case D_JSON: d_json(d, s.n, a->snap, &fo); break;
	case D_IRJSON: d_irjson(d, s.n, a->snap, fo.ambig == AMBIG_MULTIPLE); break;
	case D_DOT: d_dot(d, s.n, a->snap, &fo); break;
	default: rc = d_api(d, s.n, a->snap, &fo); break;
	}
	stream_fini(&s); return rc;
}
