/* Generated lexers: a specification is generated, given to the real lx, its output compiled, and the
 * lexer run over simulated inputs against an executable model of the specification (derivatives). */
#define _GNU_SOURCE
#include "hist.h"
#include "lexdrv.h"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>

unsigned O; struct plan *P; int CI; struct op *CO; char M[1400]; bool in_branch;
enum { K_MAP, K_ZONE, K_ENTRY, K_EXIT, K_BIND, K_VAR, K_INPUT, K_EXEC };
/* map zone tok s:pattern          a mapping
 * zone parent id tok flags s:pat  a zone and its (first) entry; flags 1: implicit body
 * entry id tok s:pat, exit id tok s:pat   more ways in, ways out
 * bind zone name s:pat            a variable
 * var io getc buf flags low high factor dump   a way to generate the lexer
 * input s:bytes
 * exec var input kind at chunk */
const struct opdef opdefs[] = { { "map", NULL, 0 }, { "zone", NULL, 0 }, { "entry", NULL, 0 }, { "exit", NULL, 0 }, { "bind", NULL, 0 }, { "var", NULL, 0 }, { "input", NULL, 0 }, { "exec", NULL, 0 } };
const int nopdefs = 8;
enum { X_POS = 1, X_BUF = 2, X_NAME = 4, X_EXAMPLE = 8, X_HEX = 16, X_PREFIX = 32, X_COMMENTS = 64, X_NOPUSH = 128 };
enum { E_PLAIN, E_READERR, E_EINTR, E_ALLOC, E_FIXED };

/* ---- patterns: postfix text -> tree ---- */
struct pt { char op; struct pt *l, *r; unsigned char set[32]; unsigned char *s; size_t n; long m, k; };
static struct pt *pt_new(char op, struct pt *l, struct pt *r) { struct pt *p = hcalloc(1, sizeof *p); p->op = op; p->l = l; p->r = r; return p; }
static void set_add(unsigned char *set, unsigned c) { set[c / 8] |= (unsigned char)(1u << (c % 8)); }
static bool set_has(const unsigned char *set, unsigned c) { return set[c / 8] >> (c % 8) & 1; }
static struct pt *pt_parse(const char *s) { /* NULL: malformed */
	struct pt *st[64]; int n = 0; char tok[600];
	while (*s) {
		size_t k = strcspn(s, " "); if (k == 0) { s++; continue; }
		if (k >= sizeof tok) return NULL;
		memcpy(tok, s, k); tok[k] = 0; s += k;
		char c = tok[0];
		if (strchr("*+?!~^i", c) && !tok[1]) { if (n < 1) return NULL; st[n - 1] = pt_new(c, st[n - 1], NULL); continue; }
		if (strchr("|,&-", c) && !tok[1]) { if (n < 2) return NULL; st[n - 2] = pt_new(c, st[n - 2], st[n - 1]); n--; continue; }
		if (c == 'q') { if (n < 1) return NULL; struct pt *p = pt_new('q', st[n - 1], NULL); if (sscanf(tok, "q:%ld:%ld", &p->m, &p->k) != 2 || p->m < 0 || p->k < p->m || p->k > 6 || p->k < 1) return NULL; st[n - 1] = p; continue; }
		if (n >= 64) return NULL;
		if (c == '.') { st[n] = pt_new('.', NULL, NULL); memset(st[n]->set, 0xff, 32); n++; continue; }
		if (c == 'v') { st[n] = pt_new('v', NULL, NULL); st[n]->m = atol(tok + 1); n++; continue; }
		if (tok[1] != ':') return NULL;
		if (c == 's') { size_t l = strlen(tok + 2) / 2; if (!l) return NULL; struct pt *p = st[n++] = pt_new('s', NULL, NULL); p->s = hmalloc(l + 1); p->n = l; for (size_t i = 0; i < l; i++) { unsigned v; if (sscanf(tok + 2 + 2 * i, "%2x", &v) != 1) return NULL; p->s[i] = (unsigned char)v; } continue; }
		if (c == 'r' || c == 'n') {
			struct pt *p = st[n++] = pt_new(c, NULL, NULL); bool any = false;
			for (char *t = tok + 2; *t; ) { unsigned a, b; if (sscanf(t, "%2x-%2x", &a, &b) != 2 || a > b) return NULL; for (unsigned x = a; x <= b; x++) set_add(p->set, x); any = true; t += 5; if (*t == ',') t++; }
			if (!any) return NULL;
			continue;
		}
		return NULL;
	}
	return n == 1 ? st[0] : NULL;
}
static bool regexable(const struct pt *p) { if (strchr("&-!~^iv", p->op)) return false; return (!p->l || regexable(p->l)) && (!p->r || regexable(p->r)); }

/* ---- rendering ---- */
struct tx { char *b; size_t n, cap; };
static void tp(struct tx *t, const char *f, ...) __attribute__((format(printf, 2, 3)));
#include <stdarg.h>
static void tp(struct tx *t, const char *f, ...) {
	char tmp[700]; va_list ap; va_start(ap, f); int k = vsnprintf(tmp, sizeof tmp, f, ap); va_end(ap);
	if (k < 0 || (size_t)k >= sizeof tmp) sim_harness_error("tp");
	if (t->n + (size_t)k + 1 > t->cap) { t->cap = (t->n + (size_t)k) * 2 + 256; t->b = hrealloc(t->b, t->cap); }
	memcpy(t->b + t->n, tmp, (size_t)k + 1); t->n += (size_t)k;
}
static void rx_byte(struct tx *t, unsigned c) { if ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z')) tp(t, "%c", c); else tp(t, "\\x%02x", c); }
static void rx(struct tx *t, const struct pt *p) {
	switch (p->op) {
	case '.': tp(t, "."); return;
	case 's': for (size_t i = 0; i < p->n; i++) rx_byte(t, p->s[i]); return;
	case 'r': case 'n':
		tp(t, p->op == 'n' ? "[^" : "[");
		for (unsigned c = 0; c < 256; c++) if (set_has(p->set, c)) { unsigned e = c; while (e < 255 && set_has(p->set, e + 1)) e++; rx_byte(t, c); if (e > c) { if (e > c + 1) tp(t, "-"); rx_byte(t, e); } c = e; }
		tp(t, "]"); return;
	case '|': tp(t, "(("); rx(t, p->l); tp(t, ")|("); rx(t, p->r); tp(t, "))"); return;
	case ',': tp(t, "(("); rx(t, p->l); tp(t, ")("); rx(t, p->r); tp(t, "))"); return;
	case '*': case '+': case '?': tp(t, "(("); rx(t, p->l); tp(t, ")%c)", p->op); return;
	case 'q': tp(t, "(("); rx(t, p->l); tp(t, "){%ld,%ld})", p->m, p->k); return;
	}
}
static void expr(struct tx *t, struct rng *r, const struct pt *p) {
	if (p->op == 'i') { tp(t, "/"); rx(t, p->l); tp(t, "/i"); return; }
	if (p->op == 'q' || p->op == '.' || p->op == 'r' || p->op == 'n' || (regexable(p) && chance(r, 1, 2))) { tp(t, "/"); rx(t, p); tp(t, "/"); return; }
	switch (p->op) {
	case 's': {
		bool open = false;
		for (size_t i = 0; i < p->n; ) {
			size_t k = 0; while (i + k < p->n && p->s[i + k] >= 32 && p->s[i + k] < 127 && !strchr("'\"\\", p->s[i + k])) k++;
			if (i) tp(t, " ");
			if (k) { char q = chance(r, 1, 2) ? '\'' : '"'; tp(t, "%c%.*s%c", q, (int)k, p->s + i, q); i += k; }
			else { unsigned c = p->s[i++]; if (c == '\n' && chance(r, 1, 2)) tp(t, "\"\\n\""); else if (c == '"' && chance(r, 1, 2)) tp(t, "'\"'"); else if (c == '\'' && chance(r, 1, 2)) tp(t, "\"'\""); else if (chance(r, 1, 3)) tp(t, "\"\\%o\"", c); else tp(t, "\"\\x%02x\"", c); }
		}
		(void)open; return;
	}
	case 'v': tp(t, "v%ld", p->m); return;
	case '|': case '&': case '-': tp(t, "("); expr(t, r, p->l); tp(t, ") %c (", p->op); expr(t, r, p->r); tp(t, ")"); return;
	case ',': tp(t, "("); expr(t, r, p->l); tp(t, ") ("); expr(t, r, p->r); tp(t, ")"); return;
	case '*': case '+': case '?': tp(t, "("); expr(t, r, p->l); tp(t, ")%c", p->op); return;
	case '!': case '~': case '^': tp(t, "%c(", p->op); expr(t, r, p->l); tp(t, ")"); return;
	}
}

/* ---- the model: hash-consed expressions and their derivatives ---- */
enum { N_SET, N_EPS, N_CAT, N_STAR, N_OR, N_AND, N_NOT };
struct nd { int k, a, b; unsigned char set[32]; bool nul; signed char ne; int *d; };
#define NDMAX 60000
static struct nd *N; static int nn; static int hsh[1 << 17]; static bool toobig;
static unsigned char cls_rep[256]; static int cls_of[256], ncls;
static int mk(int k, int a, int b, const unsigned char *set) {
	struct nd x; memset(&x, 0, sizeof x); x.k = k; x.a = a; x.b = b; if (set) memcpy(x.set, set, 32);
	u64 h = mix64((u64)k * 1000003u + (u64)(unsigned)a, (u64)(unsigned)b); if (set) for (int i = 0; i < 32; i++) h = h * 131 + set[i];
	h = mix64(h, 1);
	for (unsigned i = (unsigned)h & 0x1ffff;; i = (i + 1) & 0x1ffff) {
		if (!hsh[i]) {
			if (nn >= NDMAX) { toobig = true; return 0; }
			switch (k) { case N_EPS: case N_STAR: x.nul = true; break; case N_CAT: case N_AND: x.nul = N[a].nul && N[b].nul; break; case N_OR: x.nul = N[a].nul || N[b].nul; break; case N_NOT: x.nul = !N[a].nul; break; }
			N[nn] = x; hsh[i] = nn + 1; return nn++;
		}
		struct nd *y = &N[hsh[i] - 1]; if (y->k == k && y->a == a && y->b == b && !memcmp(y->set, x.set, 32)) return hsh[i] - 1;
	}
}
static int n_empty, n_eps, n_all;
static void n_init(void) {
	if (!N) N = hcalloc(NDMAX, sizeof *N);
	for (int i = 0; i < nn; i++) hfree(N[i].d);
	memset(hsh, 0, sizeof hsh); nn = 0; toobig = false;
	unsigned char z[32] = { 0 }; n_empty = mk(N_SET, 0, 0, z); n_eps = mk(N_EPS, 0, 0, NULL); n_all = mk(N_NOT, n_empty, 0, NULL);
}
static int n_cat(int a, int b) { if (a == n_empty || b == n_empty) return n_empty; if (a == n_eps) return b; if (b == n_eps) return a; if (N[a].k == N_CAT) return mk(N_CAT, N[a].a, n_cat(N[a].b, b), NULL); return mk(N_CAT, a, b, NULL); }
static int n_star(int a) { if (a == n_empty || a == n_eps) return n_eps; if (N[a].k == N_STAR) return a; return mk(N_STAR, a, 0, NULL); }
/* OR and AND are right-nested sorted lists without repeats */
static int n_bin(int k, int a, int b) {
	if (a == b) return a;
	int z = k == N_OR ? n_empty : n_all, one = k == N_OR ? n_all : n_empty;
	if (a == z) return b;
	if (b == z) return a;
	if (a == one || b == one) return one;
	if (N[a].k == k && N[b].k == k) return n_bin(k, N[a].a, n_bin(k, N[a].b, b));
	if (N[a].k == k) { int t = a; a = b; b = t; }
	if (N[b].k == k) { if (N[b].a == a) return b; if (N[b].a < a) return mk(k, N[b].a, n_bin(k, a, N[b].b), NULL); return mk(k, a, b, NULL); }
	return a < b ? mk(k, a, b, NULL) : mk(k, b, a, NULL);
}
static int n_not(int a) { if (N[a].k == N_NOT) return N[a].a; return mk(N_NOT, a, 0, NULL); }
static int n_set(const unsigned char *set) { return mk(N_SET, 0, 0, set); }
static int deriv(int a, unsigned c) { /* c: a byte */
	int q = cls_of[c]; if (N[a].d && N[a].d[q]) return N[a].d[q] - 1;
	int r; c = cls_rep[q];
	switch (N[a].k) {
	case N_SET: r = set_has(N[a].set, c) ? n_eps : n_empty; break;
	case N_EPS: r = n_empty; break;
	case N_CAT: { int x = N[a].a, y = N[a].b; r = n_cat(deriv(x, c), y); if (N[x].nul) r = n_bin(N_OR, r, deriv(y, c)); break; }
	case N_STAR: r = n_cat(deriv(N[a].a, c), a); break;
	case N_OR: case N_AND: { int k = N[a].k, x = N[a].a, y = N[a].b; r = n_bin(k, deriv(x, c), deriv(y, c)); break; }
	default: r = n_not(deriv(N[a].a, c)); break;
	}
	if (toobig) return n_empty;
	if (!N[a].d) N[a].d = hcalloc((size_t)ncls, sizeof(int));
	N[a].d[q] = r + 1; return r;
}
static bool nonempty(int a) {
	if (N[a].ne) return N[a].ne > 0;
	static int st[NDMAX]; static unsigned seen[NDMAX]; static unsigned gen; gen++;
	int n = 0; st[n++] = a; seen[a] = gen; bool yes = false;
	for (int i = 0; i < n && !yes && !toobig; i++) {
		int x = st[i]; if (N[x].nul || N[x].ne > 0) { yes = true; break; }
		if (N[x].ne < 0) continue;
		for (int q = 0; q < ncls; q++) { int y = deriv(x, cls_rep[q]); if (seen[y] != gen) { seen[y] = gen; st[n++] = y; } }
	}
	if (toobig) return true;
	if (yes) N[a].ne = 1; else for (int i = 0; i < n; i++) N[st[i]].ne = -1;
	return yes;
}

/* ---- specifications ---- */
#define MAXM 48
struct zmap { int node, tok, to; bool dead; };
struct zone { bool used, oneway, implicit; int parent; struct zmap m[MAXM]; int nm; int exitn; struct { long name; int node; } v[8]; int nv; };
static struct zone Z[12]; static int ntok; static bool tokused[64]; static int nthings; static bool spec_bad; static bool empties, empty_inside;
static unsigned char classes_done;
static void collect(const struct pt *p) { /* split byte classes */
	if (p->l) collect(p->l);
	if (p->r) collect(p->r);
	if (p->op == 'r' || p->op == 'n') {
		int nw[512]; int k = 0; memset(nw, -1, sizeof nw); int of[256];
		for (unsigned c = 0; c < 256; c++) { int key = cls_of[c] * 2 + set_has(p->set, c); if (nw[key] < 0) nw[key] = k++; of[c] = nw[key]; }
		memcpy(cls_of, of, sizeof of); ncls = k;
	}
	if (p->op == 's') for (size_t i = 0; i < p->n; i++) { unsigned char s1[32]; for (int w = 0; w < 2; w++) { memset(s1, 0, 32); unsigned c = p->s[i]; if (w && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) c ^= 32; set_add(s1, c); struct pt t = { 'r', NULL, NULL, { 0 }, NULL, 0, 0, 0 }; memcpy(t.set, s1, 32); collect(&t); } }
	if (p->op == 'i') { for (unsigned c = 'a'; c <= 'z'; c++) { struct pt t = { 'r', NULL, NULL, { 0 }, NULL, 0, 0, 0 }; set_add(t.set, c); collect(&t); memset(t.set, 0, 32); set_add(t.set, c ^ 32); collect(&t); } }
}
static int zvar(int z, long name) { for (; z >= 0; z = Z[z].parent) for (int i = 0; i < Z[z].nv; i++) if (Z[z].v[i].name == name) return Z[z].v[i].node; return -1; }
static int node_of1(const struct pt *p, int z, bool rev, bool fold);
/* an operand of a concatenation which matches nothing is left out of it: the library takes an FSM without states for nothing yet built */
static int node_of(const struct pt *p, int z, bool rev, bool fold) {
	int a = node_of1(p, z, rev, fold);
	if (!nonempty(a)) empty_inside = true;
	return a;
}
static int node_of1(const struct pt *p, int z, bool rev, bool fold) {
	unsigned char set[32];
	switch (p->op) {
	case '.': return n_set(p->set);
	case 'r': case 'n':
		memcpy(set, p->set, 32);
		if (fold) for (unsigned c = 'a'; c <= 'z'; c++) if (set_has(p->set, c) || set_has(p->set, c ^ 32)) { set_add(set, c); set_add(set, c ^ 32); }
		if (p->op == 'n') for (int i = 0; i < 32; i++) set[i] = (unsigned char)~set[i];
		return n_set(set);
	case 's': { int r = n_eps; for (size_t i = 0; i < p->n; i++) { unsigned c = p->s[rev ? i : p->n - 1 - i]; memset(set, 0, 32); set_add(set, c); if (fold && ((c | 32) >= 'a' && (c | 32) <= 'z')) set_add(set, c ^ 32); r = n_cat(n_set(set), r); } return r; }
	case ',': { int a = node_of(p->l, z, rev, fold), b = node_of(p->r, z, rev, fold); return rev ? n_cat(b, a) : n_cat(a, b); }
	case '|': return n_bin(N_OR, node_of(p->l, z, rev, fold), node_of(p->r, z, rev, fold));
	case '&': return n_bin(N_AND, node_of(p->l, z, rev, fold), node_of(p->r, z, rev, fold));
	case '-': return n_bin(N_AND, node_of(p->l, z, rev, fold), n_not(node_of(p->r, z, rev, fold)));
	case '*': return n_star(node_of(p->l, z, rev, fold));
	case '+': { int a = node_of(p->l, z, rev, fold); return n_cat(a, n_star(a)); }
	case '?': return n_bin(N_OR, n_eps, node_of(p->l, z, rev, fold));
	case 'q': { int a = node_of(p->l, z, rev, fold), r = n_eps; for (long i = 0; i < p->k - p->m; i++) r = n_bin(N_OR, n_eps, n_cat(a, r)); for (long i = 0; i < p->m; i++) r = n_cat(a, r); return r; }
	case '!': return node_of(p->l, z, !rev, fold);
	case '~': return n_not(node_of(p->l, z, rev, fold));
	case '^': return node_of(p->l, z, rev, fold);
	case 'i': return node_of(p->l, z, rev, true);
	case 'v': { int v = zvar(z, p->m); if (v < 0 || rev) { spec_bad = true; return n_empty; } return v; }
	}
	return n_empty;
}
static struct pt *trees[256];
static bool norev_v(const struct pt *p, bool rev) { if (p->op == 'v') return !rev; if (p->op == '!') return norev_v(p->l, !rev); return (!p->l || norev_v(p->l, rev)) && (!p->r || norev_v(p->r, rev)); }
static bool fold_ok(const struct pt *p, bool in) { /* i only above what a regex can hold; no n under i (folding of complements is the dialect's business) */
	if (p->op == 'i' && (in || !regexable(p->l))) return false;
	if (in && p->op == 'n') return false;
	if ((p->op == 'q') && !regexable(p)) return false;
	return (!p->l || fold_ok(p->l, in || p->op == 'i')) && (!p->r || fold_ok(p->r, in || p->op == 'i'));
}
/* builds the model and the text lx reads; lines whose zone or pattern is missing are left out */
static void build(struct plan *p, struct tx *t);
static void add_map(struct zone *z, int node, int tok, int to, bool dead) {
	for (int i = 0; i < z->nm; i++) if (z->m[i].tok == tok && z->m[i].to == to) { z->m[i].node = n_bin(N_OR, z->m[i].node, node); if (!nonempty(node)) empties = true; return; }
	if (z->nm == MAXM) { spec_bad = true; return; }
	if (!nonempty(node)) empties = true;
	z->m[z->nm++] = (struct zmap) { node, tok, to, dead };
}
static void tokname(struct tx *t, long tok) { if (tok >= 0) { tp(t, " -> $t%ld", tok); if (tok < 64) tokused[tok] = true; if (tok >= ntok) ntok = (int)tok + 1; } }
static int sub_exit(int node, int zid) { return Z[zid].exitn >= 0 ? n_bin(N_AND, node, n_not(Z[zid].exitn)) : node; }
static struct rng rr_of(const struct op *o) { struct rng r = { mix64(P->seed ^ 0x5bd1, (u64)o->idx) }; return r; }
static void body(struct plan *p, struct tx *t, int zid, int depth) {
	for (int i = 0; i < p->n && i < 256; i++) {
		struct op *o = &p->ops[i]; struct rng r = rr_of(o);
		if (!trees[i] || o->a[0] != zid) continue;
		if (o->kind != K_ENTRY && o->kind != K_EXIT) nthings++;
		if (o->kind == K_BIND) {
			int nd = node_of(trees[i], zid, false, false); long nm = o->a[1]; int k;
			for (k = 0; k < Z[zid].nv; k++) if (Z[zid].v[k].name == nm) break;
			if (k == 8) continue;
			Z[zid].v[k].name = nm; Z[zid].v[k].node = nd; if (k == Z[zid].nv) Z[zid].nv++;
			tp(t, "v%ld = ", nm); expr(t, &r, trees[i]); tp(t, ";\n");
		} else if (o->kind == K_MAP) {
			int nd = node_of(trees[i], zid, false, false);
			expr(t, &r, trees[i]); tokname(t, o->a[1]); tp(t, ";\n");
			add_map(&Z[zid], sub_exit(nd, zid), (int)o->a[1], -1, false);
		} else if (o->kind == K_ZONE && depth < 5) {
			long id = o->a[1]; if (id < 1 || id >= 12 || Z[id].used) continue;
			int ex = -1; int exits = 0;
			for (int j = 0; j < p->n && j < 256; j++) if (p->ops[j].kind == K_EXIT && p->ops[j].a[0] == id && trees[j]) exits++;
			Z[id].used = true; Z[id].parent = zid; Z[id].oneway = !exits; Z[id].implicit = exits && (o->a[3] & 1); Z[id].exitn = -1;
			int nd = node_of(trees[i], zid, false, false);
			expr(t, &r, trees[i]); tokname(t, o->a[2]);
			add_map(&Z[zid], sub_exit(nd, zid), (int)o->a[2], (int)id, false);
			if (exits) {
				for (int j = 0; j < p->n && j < 256; j++) if (p->ops[j].kind == K_ENTRY && p->ops[j].a[0] == id && trees[j]) {
					struct rng r2 = rr_of(&p->ops[j]); tp(t, ", "); int n2 = node_of(trees[j], zid, false, false); expr(t, &r2, trees[j]); tokname(t, p->ops[j].a[1]); add_map(&Z[zid], sub_exit(n2, zid), (int)p->ops[j].a[1], (int)id, false);
				}
				tp(t, " .. "); bool first = true;
				for (int j = 0; j < p->n && j < 256; j++) if (p->ops[j].kind == K_EXIT && p->ops[j].a[0] == id && trees[j]) {
					struct rng r2 = rr_of(&p->ops[j]); if (!first) tp(t, ", ");
					first = false; int n2 = node_of(trees[j], zid, false, false); expr(t, &r2, trees[j]); tokname(t, p->ops[j].a[1]); add_map(&Z[id], n2, (int)p->ops[j].a[1], zid, false); ex = ex < 0 ? n2 : n_bin(N_OR, ex, n2);
				}
				Z[id].exitn = ex;
			}
			if (Z[id].implicit) { tp(t, ";\n"); unsigned char all[32]; memset(all, 0xff, 32); int any = sub_exit(n_set(all), (int)id); add_map(&Z[id], any, -1, -1, true); }
			else { int nt = nthings; tp(t, " {\n"); body(p, t, (int)id, depth + 1); tp(t, "}\n"); if (nthings == nt) spec_bad = true; } /* the grammar has no empty body */
		}
	}
}
static void build(struct plan *p, struct tx *t) {
	P = p; n_init(); memset(Z, 0, sizeof Z); for (int i = 0; i < 12; i++) { Z[i].parent = -1; Z[i].exitn = -1; } Z[0].used = true; ntok = 0; memset(tokused, 0, sizeof tokused); spec_bad = empties = empty_inside = false; (void)classes_done;
	memset(cls_of, 0, sizeof cls_of); ncls = 1;
	for (int i = 0; i < 256; i++) trees[i] = NULL;
	for (int i = 0; i < p->n && i < 256; i++) if (p->ops[i].kind <= K_BIND && p->ops[i].s) { struct pt *q = pt_parse((char *)p->ops[i].s); if (q && norev_v(q, false) && fold_ok(q, false)) { trees[i] = q; collect(q); } }
	for (int c = 255; c >= 0; c--) cls_rep[cls_of[c]] = (unsigned char)c;
	body(p, t, 0, 0);
}
/* where the lexer is */
struct cur { int z; int v[MAXM]; };
static void c_start(struct cur *c, int z) { c->z = z; for (int i = 0; i < Z[z].nm; i++) c->v[i] = Z[z].m[i].node; }
static bool c_step(struct cur *c, unsigned b) { /* false, and unchanged, when no token goes on with b */
	int nx[MAXM]; bool any = false;
	for (int i = 0; i < Z[c->z].nm; i++) { nx[i] = deriv(c->v[i], b); if (nonempty(nx[i])) any = true; }
	if (any) memcpy(c->v, nx, sizeof nx[0] * (size_t)Z[c->z].nm);
	return any;
}
static int c_match(const struct cur *c, bool *ambig) { int m = -1; for (int i = 0; i < Z[c->z].nm; i++) if (N[c->v[i]].nul) { if (m >= 0) *ambig = true; else m = i; } return m; }
/* what the specification says of an input */
struct exp { int tok, alt; size_t from, to; bool at_end; size_t need; };
#define MAXE 70000
static struct exp *EX; static int nex; static bool exambig; static size_t exrun;
static void expect(const unsigned char *in, size_t n) {
	size_t i = 0, need = 0; int z = 0; nex = 0; exambig = false; exrun = 0; struct cur c;
	for (;;) {
		if (nex >= MAXE - 2) { nex = 0; exambig = true; return; }
		if (i == n) { EX[nex++] = (struct exp) { LXT_EOF, LXT_EOF, n, n, true, need ? need : 1 }; return; }
		c_start(&c, z); size_t j = i; while (j < n && c_step(&c, in[j])) j++;
		size_t here = j - i + 1; if (here > exrun) exrun = here;
		if (here > need) need = here;
		int m = c_match(&c, &exambig);
		if (exambig || toobig) return;
		if (m < 0 || j == i) { EX[nex++] = (struct exp) { LXT_UNKNOWN, LXT_UNKNOWN, i, j, j == n, need + 1 }; return; }
		struct zmap *x = &Z[z].m[m];
		if (x->tok >= 0) { EX[nex++] = (struct exp) { x->tok, x->tok, i, j, j == n, need }; need = 0; }
		else if (x->to < 0 && j == n) {
			/* input ended on something skipped: unexpected inside the implicit body of a zone, nothing to
			 * remark on in the outermost zone, and either within the body a zone was given */
			bool in_zone = Z[z].parent >= 0;
			EX[nex++] = (struct exp) { x->dead ? LXT_UNKNOWN : LXT_EOF, in_zone ? LXT_UNKNOWN : LXT_EOF, i, n, true, need }; return;
		}
		if (x->to >= 0) z = x->to;
		i = j;
	}
}
/* 1: some text has two meanings, or none is needed for one; 0: no; -1: too large to say */
static int ambiguous(bool *empty_match) {
	static struct cur *q; if (!q) q = hcalloc(3001, sizeof *q);
	int ans = 0;
	for (int z = 0; z < 12; z++) {
		if (!Z[z].used) continue;
		int n = 0; c_start(&q[n++], z); bool am = false; if (c_match(&q[0], &am) >= 0) *empty_match = true;
		for (int i = 0; i < n; i++) {
			bool a = false; c_match(&q[i], &a); if (a) return 1;
			for (int k = 0; k < ncls; k++) {
				struct cur c = q[i]; if (!c_step(&c, cls_rep[k])) continue;
				int j; for (j = 0; j < n; j++) if (!memcmp(q[j].v, c.v, sizeof c.v[0] * (size_t)Z[z].nm)) break;
				if (j < n) continue;
				if (n == 3000 || toobig) { ans = -1; goto next; }
				q[n++] = c;
			}
		}
	next: ;
	}
	return ans;
}

/* ---- the world around the lexer ---- */
static struct { long n, failat; bool from; long live; bool fired; } al;
static void *h_realloc(void *p, size_t n) {
	long k = al.n++; ST(alloc_calls);
	if (al.failat >= 0 && (k == al.failat || (al.from && k > al.failat))) { al.fired = true; ST(alloc_faults); if (al.from) ST(alloc_faults_persistent); else ST(alloc_faults_single); errno = ENOMEM; return NULL; }
	if (!p) al.live++;
	return hrealloc(p, n);
}
static void h_free(void *p) { if (p) { al.live--; hfree(p); } }
static struct { const unsigned char *d; size_t n, pos; long errat; int eintr; int chunk; struct rng r; bool fired, ever; int row; } fl;
static long rd(void *b, size_t n) {
	ST(io_reads);
	if (fl.eintr && fl.row < 3 && chance(&fl.r, 1, (unsigned)fl.eintr)) { ST(io_eintr); fl.row++; fl.fired = fl.ever = true; errno = EINTR; return -1; }
	if (fl.errat < 0) fl.fired = false; /* the interrupted read was tried again */
	fl.row = 0;
	size_t end = fl.errat >= 0 && (size_t)fl.errat < fl.n ? (size_t)fl.errat : fl.n;
	if (fl.pos >= end) { if (fl.errat >= 0) { ST(io_read_errors); fl.fired = fl.ever = true; errno = EIO; return -1; } return 0; }
	size_t m = n; if (fl.chunk > 0 && m > (size_t)fl.chunk) m = (size_t)fl.chunk; else if (fl.chunk < 0) m = 1 + rn(&fl.r, (unsigned)(m > 64 ? 64 : m));
	if (m > n) m = n;
	if (m < n) ST(io_short_reads);
	if (m > end - fl.pos) m = end - fl.pos;
	memcpy(b, fl.d + fl.pos, m); fl.pos += m; STN(io_bytes, m); return (long)m;
}
static long h_read(int fd, void *b, size_t n) { if (fd != 7) sim_harness_error("read from descriptor %d", fd); return rd(b, n); }
static ssize_t ck_read(void *c, char *b, size_t n) { (void)c; return rd(b, n); }
static const struct lxhost host = { h_realloc, h_free, h_read };

/* ---- watching the tokens ---- */
static struct { const unsigned char *in; size_t n; int e, after; size_t fixed; bool isfixed; bool ended, error; struct lxpos3 at; size_t atn, nl; } w;
static char what[200];
static const char *tn(int t, char *b) { if (t == LXT_EOF) return "EOF"; if (t == LXT_ERROR) return "ERROR"; if (t == LXT_UNKNOWN) return "UNKNOWN"; if (t == LXT_BAD) return "a token not in the specification"; sprintf(b, "T%d", t); return b; }
static struct lxpos3 pos_of(size_t i) {
	if (i < w.atn) { w.atn = 0; w.nl = 0; w.at = (struct lxpos3) { 0, 1, 1 }; }
	for (; w.atn < i; w.atn++) { w.at.byte++; w.at.col++; if (w.in[w.atn] == '\n') { w.at.line++; w.at.col = 1; } }
	return w.at;
}
static bool same_pos(const struct lxpos3 *a, struct lxpos3 b) { return a->byte == b.byte && a->line == b.line && a->col == b.col; }
static int on_token(void *o, int t, const char *name, const struct lxpos3 *s, const struct lxpos3 *e, const char *text, size_t len) {
	(void)o; char b1[16], b2[16]; ST(tokens); trace_u64((u64)(t + 10));
	if (w.ended) {
		if (t != LXT_EOF) sim_fail("after-end", "%s: %s after the end was reported", what, tn(t, b1));
		return ++w.after < 2;
	}
	struct exp *x = &EX[w.e]; bool fired = al.fired || fl.fired;
	if (name && t >= LXT_UNKNOWN && strcmp(name, tn(t, b1))) sim_fail("name", "%s: token %s is named %.40s", what, tn(t, b1), name);
	if (t == LXT_ERROR) {
		if (!fired && !fl.ever && !(w.isfixed && w.fixed < x->need)) sim_fail("spurious-error", "%s: ERROR at byte %zu, where %s is due and nothing failed", what, x->from, tn(x->tok, b1));
		w.error = true; return 0;
	}
	if (fl.fired && (t == LXT_EOF || (t == LXT_UNKNOWN && x->at_end))) sim_fail("error-as-end", "%s: reading failed after %zu of %zu bytes and the lexer reports %s", what, fl.pos, w.n, tn(t, b1));
	if (t != x->tok && t != x->alt) sim_fail(fired || w.isfixed ? "token-damaged" : "token", "%s: %s where %s is due, bytes %zu to %zu of %zu%s", what, tn(t, b1), tn(x->tok, b2), x->from, x->to, w.n, fired ? ", after a fault" : "");
	if (t >= 0 && text) {
		size_t want = x->to - x->from;
		if (len != want + 1 || memcmp(text, w.in + x->from, want) || text[len - 1]) sim_fail(fired ? "text-damaged" : "text", "%s: token %s is given with %zu bytes of text, which are not the %zu bytes %zu to %zu%s", what, tn(t, b1), len ? len - 1 : 0, want, x->from, x->to, fired ? ", after a fault" : "");
	}
	if (s && !fired) {
		struct lxpos3 a; struct lxpos3 z = pos_of(t == LXT_EOF ? w.n : x->from); bool bad = false;
		if (t != LXT_EOF && !same_pos(s, a = z)) bad = true;
		if (t >= 0) { z = pos_of(x->to); if (!same_pos(e, z)) bad = true; }
		if (t == LXT_EOF && !same_pos(e, z)) { bad = true; a = z; }
		if (bad) sim_fail("position", "%s: %s is given as byte %u line %u column %u to byte %u line %u column %u, it is bytes %zu to %zu ending at line %u column %u", what, tn(t, b1), s->byte, s->line, s->col, e->byte, e->line, e->col, x->from, x->to, z.line, z.col);
	}
	if (t < 0) { w.ended = true; w.after = 0; return 1; }
	w.e++; if (w.e >= nex) sim_harness_error("past the expected end");
	return 1;
}
static bool is_example(const char *s, size_t n, int t, bool *am) {
	struct cur c; c_start(&c, 0); size_t i; for (i = 0; i < n; i++) if (!c_step(&c, (unsigned char)s[i])) return false;
	struct cur c2 = c; if (c_step(&c2, 0)) return true; /* an example with a NUL byte cannot be given in full */
	int m = c_match(&c, am); return m >= 0 && !*am && Z[0].m[m].tok == t;
}
static void on_example(void *o, int t, const char *s) {
	(void)o; bool here = false; char b1[16];
	for (int i = 0; i < Z[0].nm; i++) if (Z[0].m[i].tok == t && nonempty(Z[0].m[i].node)) here = true;
	if (!s) { if (here) sim_fail("example", "%s: no example for %s", what, tn(t, b1)); return; }
	if (!here) sim_fail("example", "%s: an example of %s, which is not a token of the zone", what, tn(t, b1));
	size_t n = strlen(s); if (n >= 49) return;
	bool am = false; if (is_example(s, n, t, &am)) return;
	/* the library writes the bytes which cannot be printed as \\xNN */
	char u[64]; size_t k = 0; for (size_t i = 0; i < n;) if (n - i >= 4 && s[i] == '\\' && s[i + 1] == 'x' && isxdigit((unsigned char)s[i + 2]) && isxdigit((unsigned char)s[i + 3])) { char h[3] = { s[i + 2], s[i + 3], 0 }; u[k++] = (char)strtol(h, NULL, 16); i += 4; } else u[k++] = s[i++];
	if (is_example(u, k, t, &am)) return;
	sim_fail("example", "%s: the example of %s, %zu bytes, is not one", what, tn(t, b1), n);
}

/* ---- running lx and the compiler ---- */
static char dir[64];
static const char *const IOS[] = { "getc", "str", "pair" }, *const GETCS[] = { "fgetc", "sgetc", "agetc", "fdgetc" };
int lx_main(int, char **);
static int run_lx(const struct op *v, const char *lang, const char *outname) {
	pid_t c = fork(); if (c < 0) sim_harness_error("fork: %s", strerror(errno));
	if (c == 0) {
		char *a[32]; int n = 0; a[n++] = "lx"; a[n++] = "-l"; a[n++] = (char *)lang; a[n++] = "-k"; a[n++] = (char *)IOS[v->a[0]];
		if (v->a[0] == 0) { a[n++] = "-g"; a[n++] = (char *)GETCS[v->a[1]]; }
		a[n++] = "-b"; a[n++] = v->a[2] == 1 ? "dyn" : "fixed";
		long fl2 = v->a[3]; static const char *const xs[] = { "pos", "buf", "name", "example" }; for (int i = 0; i < 4; i++) if (fl2 >> i & 1) { a[n++] = "-x"; a[n++] = (char *)xs[i]; }
		if (fl2 & X_HEX) a[n++] = "-X";
		if (fl2 & X_PREFIX) { a[n++] = "-e"; a[n++] = "q_"; a[n++] = "-t"; a[n++] = "K_"; }
		if (fl2 & X_COMMENTS) { a[n++] = "-x"; a[n++] = "comments"; }
		a[n] = NULL;
		if (!freopen("spec.lx", "r", stdin) || !freopen(outname, "w", stdout)) sim_harness_error("freopen: %s", strerror(errno));
		optind = 0; exit(lx_main(n, a));
	}
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	ST(tool_runs); return st;
}
static bool unsupported(void) { char b[8192]; ssize_t n = pread(2, b, sizeof b - 1, 0); if (n < 0) return false; b[n] = 0; return strstr(b, "Unsupported") != NULL; }
static void pass_on(int st) {
	if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
	signal(WTERMSIG(st), SIG_DFL); struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); kill(getpid(), WTERMSIG(st)); pause(); _exit(79);
}
static int (*compile(const struct op *v, int no))(struct lxreq *) {
	FILE *f = fopen("toks.h", "w"); if (!f) sim_harness_error("toks.h");
	for (int i = 0; i < ntok && i < 64; i++) if (tokused[i]) fprintf(f, "T(T%d, %d)\n", i, i);
	fclose(f);
	bool pre = v->a[3] & X_PREFIX; char so[32], *a[64]; int n = 0; static char d[32][64]; int k = 0;
	snprintf(so, sizeof so, "./v%d.so", no);
#define D(...) (snprintf(d[k], 64, __VA_ARGS__), a[n++] = d[k++])
	a[n++] = "gcc"; a[n++] = "-std=gnu99"; a[n++] = "-w"; a[n++] = "-O0"; a[n++] = "-fPIC"; a[n++] = "-shared"; a[n++] = "-Wl,-Bsymbolic"; a[n++] = "-fsanitize=address,undefined"; a[n++] = "-fno-sanitize-recover=undefined"; a[n++] = "-I."; a[n++] = "-I" SIMDIR;
	a[n++] = "-DLX_HEADER=\"lexgen.h\""; a[n++] = "-DLX_C=\"lexgen.c\"";
	D("-DV_IO=%ld", v->a[0]); D("-DV_GETC=%s", v->a[1] == 3 ? "dgetc" : GETCS[v->a[1]]); D("-DV_GETCNO=%ld", v->a[1]); D("-DV_BUF=%ld", v->a[2]);
	D("-DV_POS=%d", !(v->a[3] & X_POS)); D("-DV_PUSH=%d", !(v->a[3] & X_BUF)); D("-DV_NAME=%d", !(v->a[3] & X_NAME)); D("-DV_EX=%d", !(v->a[3] & X_EXAMPLE));
	D("-DV_API=%s", pre ? "q_" : "lx_"); D("-DV_TOK=%s", pre ? "K_" : "TOK_"); D("-DV_EOF=%sEOF", pre ? "K_" : "TOK_"); D("-DV_ERROR=%sERROR", pre ? "K_" : "TOK_"); D("-DV_UNKNOWN=%sUNKNOWN", pre ? "K_" : "TOK_"); D("-DV_LX=%s", pre ? "q_lx" : "lx");
	if (v->a[4]) { D("-DLX_DYN_LOW=%ld", v->a[4]); D("-DLX_DYN_HIGH=%ld", v->a[5]); D("-DLX_DYN_FACTOR=%s", v->a[6] == 3 ? "1.5" : "2"); }
	a[n++] = "-o"; a[n++] = so; a[n++] = SIMDIR "/lexdrv.c"; a[n] = NULL;
	pid_t c = fork(); if (c < 0) sim_harness_error("fork");
	if (c == 0) { int fd = open("cc.err", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); unsetenv("LD_PRELOAD"); execvp("gcc", a); _exit(127); }
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	if (!WIFEXITED(st) || WEXITSTATUS(st) == 127) sim_harness_error("cannot run gcc");
	if (WEXITSTATUS(st)) { char b[600] = ""; FILE *e = fopen("cc.err", "r"); if (e) { b[fread(b, 1, sizeof b - 1, e)] = 0; fclose(e); } char *l = strstr(b, "error:"); sim_fail("does-not-compile", "the lexer generated with -k %s -g %s -b %s, flags %ld, is not accepted by the compiler: %.300s", IOS[v->a[0]], GETCS[v->a[1]], v->a[2] == 1 ? "dyn" : "fixed", v->a[3], l ? l : b); }
	void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) sim_harness_error("dlopen: %s", dlerror());
	int (*fn)(struct lxreq *) = (int (*)(struct lxreq *))dlsym(h, "lxdrv"); if (!fn) sim_harness_error("dlsym");
	ST(compiles_ok); return fn;
}
/* one execution */
static void execute(const struct op *v, int (*fn)(struct lxreq *), const unsigned char *in, size_t n, int kind, long at, int chunk, u64 seed) {
	static const char *const kinds[] = { "", ", read error", ", interrupted reads", ", allocation failure", ", fixed buffer" };
	snprintf(what, sizeof what, "-k %s%s%s -b %s flags %ld%s", IOS[v->a[0]], v->a[0] ? "" : " -g ", v->a[0] ? "" : GETCS[v->a[1]], v->a[2] == 1 ? "dyn" : "fixed", v->a[3], kinds[kind]);
	memset(&al, 0, sizeof al); al.failat = -1; memset(&fl, 0, sizeof fl); fl.d = in; fl.n = n; fl.errat = -1; fl.chunk = chunk; fl.r.s = seed;
	if (kind == E_READERR) fl.errat = at;
	if (kind == E_EINTR) fl.eintr = 1 + (int)(at % 4) * 2;
	if (kind == E_ALLOC) { al.failat = at / 2; al.from = at & 1; }
	memset(&w, 0, sizeof w); w.in = in; w.n = n; w.at = (struct lxpos3) { 0, 1, 1 };
	struct lxreq q = { &host, NULL, n, NULL, NULL, 0, NULL, 0, (v->a[3] & X_NOPUSH) != 0, on_token, on_example, NULL };
	q.in = hmalloc(n + (v->a[0] == 1 || v->a[1] == 1)); memcpy(q.in, in, n); if (v->a[0] == 1 || v->a[1] == 1) q.in[n] = 0;
	q.rbufsz = chunk > 0 ? (size_t)chunk : 1 + seed % 97; q.rbuf = hmalloc(q.rbufsz);
	if (v->a[2] == 2) { q.fixedsz = kind == E_FIXED ? (size_t)(at < 1 ? 1 : at) : exrun + 2; q.fixed = hmalloc(q.fixedsz); w.fixed = q.fixedsz; w.isfixed = true; }
	if (v->a[0] == 0 && v->a[1] == 0) { cookie_io_functions_t io = { .read = ck_read }; q.f = fopencookie(NULL, "r", io); static char sb[512]; switch (seed % 3) { case 0: setvbuf(q.f, NULL, _IONBF, 0); break; case 1: setvbuf(q.f, sb, _IOFBF, 16); break; } }
	ST(probe_a); fn(&q);
	if (!w.error && al.live) sim_fail("leak", "%s: %ld blocks not released", what, al.live);
	if (q.f) fclose(q.f);
	hfree(q.in); hfree(q.rbuf); hfree(q.fixed);
	trace_u64((u64)w.e); trace_u64(w.error);
}
/* the program which lx gives for seeing the tokens (-l dump): what it prints, against the same expectation */
static void dump_program(const struct op *v, struct plan *p, int no) {
	int st = run_lx(v, "dump", "dump.c"); if (!WIFEXITED(st)) pass_on(st);
	if (WEXITSTATUS(st)) { if (WEXITSTATUS(st) == 99) pass_on(st); sim_fail("refused", "lx -l dump refuses (status %d) what lx -l c accepts", WEXITSTATUS(st)); }
	snprintf(what, sizeof what, "the dump program of -k %s%s%s -b %s flags %ld", IOS[v->a[0]], v->a[0] ? "" : " -g ", v->a[0] ? "" : GETCS[v->a[1]], v->a[2] == 1 ? "dyn" : "fixed", v->a[3]);
	pid_t c = fork(); if (c < 0) sim_harness_error("fork");
	if (c == 0) { int fd = open("cc.err", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); unsetenv("LD_PRELOAD"); execlp("gcc", "gcc", "-std=gnu99", "-w", "-O0", "-I.", "-DLX_HEADER=\"lexgen.h\"", "-o", "./dump", "lexgen.c", "dump.c", (char *)NULL); _exit(127); }
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	if (!WIFEXITED(st) || WEXITSTATUS(st) == 127) sim_harness_error("cannot run gcc");
	if (WEXITSTATUS(st)) { char b[600] = ""; FILE *e = fopen("cc.err", "r"); if (e) { b[fread(b, 1, sizeof b - 1, e)] = 0; fclose(e); } char *l = strstr(b, "error:"); sim_fail("does-not-compile", "%s is not accepted by the compiler: %.300s", what, l ? l : b); }
	bool pos = !(v->a[3] & X_POS), named = !(v->a[3] & X_NAME), text = !(v->a[3] & X_BUF), arg = v->a[0] != 0 || v->a[1] == 1 || v->a[1] == 2;
	long nos[64]; for (int i = 0; i < 64; i++) nos[i] = -1;
	for (int j = 0; j < p->n; j++) {
		struct op *e = &p->ops[j]; if (e->kind != K_EXEC || e->a[0] != no || e->a[2] != E_PLAIN) continue;
		const struct op *in = NULL; int k = 0; for (int m = 0; m < p->n; m++) if (p->ops[m].kind == K_INPUT) { if (k == e->a[1]) { in = &p->ops[m]; break; } k++; }
		if (!in) continue;
		const unsigned char *d = in->s ? in->s : (const unsigned char *)""; size_t n = in->s ? in->n : 0;
		if (memchr(d, 0, n)) n = (size_t)((unsigned char *)memchr(d, 0, n) - d);
		if (n > 60000) continue;
		shm->cur_op = -1; expect(d, n); if (exambig || toobig || (v->a[2] == 2 && exrun + 2 > 256)) continue;
		FILE *f = fopen("dump.in", "w"); if (!f || fwrite(d, 1, n, f) != n || fclose(f)) sim_harness_error("dump.in");
		char *av = hmalloc(n + 1); memcpy(av, d, n); av[n] = 0;
		c = fork(); if (c < 0) sim_harness_error("fork");
		if (c == 0) {
			struct rlimit r1 = { 1 << 24, 1 << 24 }, r2 = { 10, 12 }; setrlimit(RLIMIT_FSIZE, &r1); setrlimit(RLIMIT_CPU, &r2); unsetenv("LD_PRELOAD");
			int i = open("dump.in", O_RDONLY), o = open("dump.out", O_RDWR | O_CREAT | O_TRUNC, 0600), er = open("dump.err", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(i, 0); dup2(o, 1); dup2(er, 2);
			execl("./dump", "dump", arg ? av : (char *)NULL, (char *)NULL); _exit(127);
		}
		while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
		hfree(av); ST(lx_dumps);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 127) sim_harness_error("cannot run the dump program");
		if (!WIFEXITED(st)) sim_fail("dump-died", "%s dies of signal %d on %zu bytes", what, WTERMSIG(st), n);
		if (WEXITSTATUS(st)) sim_fail("dump-status", "%s exits with %d on %zu bytes, where nothing failed", what, WEXITSTATUS(st), n);
		static char *ob; if (!ob) ob = hmalloc((1 << 24) + 1);
		f = fopen("dump.out", "r"); if (!f) sim_harness_error("dump.out"); size_t on = fread(ob, 1, 1 << 24, f); fclose(f); ob[on] = 0; trace_bytes(ob, on);
		memset(&w, 0, sizeof w); w.in = d; w.n = n; w.at = (struct lxpos3) { 0, 1, 1 };
		size_t q = 0; char nm[16];
		for (int i = 0; i < nex; i++) {
			struct exp *x = &EX[i]; bool unk = x->tok == LXT_UNKNOWN, eof = x->tok == LXT_EOF;
			if (x->alt != x->tok && (x->tok < 0)) { bool u = strstr(ob + q, "lexically uncategorised:") != NULL; unk = u; eof = !u; }
			struct lxpos3 a = pos_of(eof ? n : x->from), z = unk ? a : pos_of(eof ? n : x->to); char pre[200] = ""; int pn = 0;
			if (unk) {
				if (pos && (strtoul(ob + q, NULL, 10) != a.byte || !isdigit((unsigned char)ob[q]))) sim_fail("dump", "%s: the uncategorised text is not at byte %u: %.40s", what, (unsigned)a.byte, ob + q);
				if (!strstr(ob + q, "lexically uncategorised:") || (!pos && strncmp(ob + q, "lexically", 9))) sim_fail("dump", "%s: nothing is called uncategorised at byte %zu of %zu: %.40s", what, x->from, n, ob + q);
				break;
			}
			if (pos) {
				pn += sprintf(pre + pn, "%u", (unsigned)a.byte); if (z.byte != a.byte) pn += sprintf(pre + pn, "-%u", (unsigned)z.byte);
				pn += sprintf(pre + pn, ":%u", (unsigned)a.line); if (z.line != a.line) pn += sprintf(pre + pn, "-%u", (unsigned)z.line);
				pn += sprintf(pre + pn, ",%u", (unsigned)a.col); if (z.col != a.col) pn += sprintf(pre + pn, "-%u", (unsigned)z.col);
				pn += sprintf(pre + pn, ": ");
			}
			if (eof && pos) { /* where the end begins is not said: something skipped may come before it */
				unsigned long y[3][2]; char *c2 = ob + q; static const char seps[] = ":,:"; bool ok = true;
				for (int m = 0; m < 3 && ok; m++) { char *en; ok = isdigit((unsigned char)*c2); y[m][0] = y[m][1] = strtoul(c2, &en, 10); if (*en == '-') { ok = ok && isdigit((unsigned char)en[1]); y[m][1] = strtoul(en + 1, &en, 10); } ok = ok && *en == seps[m]; c2 = en + 1; }
				if (!ok || y[0][1] != z.byte || y[1][1] != z.line || y[2][1] != z.col || y[0][0] > z.byte || strcmp(c2, " <EOF>\n")) sim_fail("dump", "%s: the end of %zu bytes, line %u column %u, is printed as: %.60s", what, n, z.line, z.col, ob + q);
				q = on; break;
			}
			if (on - q < (size_t)pn || memcmp(ob + q, pre, (size_t)pn)) sim_fail("dump", "%s: %s is due at '%s' of %zu bytes, and printed is: %.60s", what, tn(x->tok, nm), pre, n, ob + q);
			q += (size_t)pn;
			if (eof) { if (strcmp(ob + q, "<EOF>\n")) sim_fail("dump", "%s: the end of %zu bytes is printed as: %.60s", what, n, ob + q); q = on; break; }
			if (named) { int l = snprintf(pre, sizeof pre, "<%s", tn(x->tok, nm)); if (strncmp(ob + q, pre, (size_t)l)) sim_fail("dump", "%s: %s, bytes %zu to %zu, is printed as: %.60s", what, nm, x->from, x->to, ob + q); q += (size_t)l; }
			else {
				char *en; if (strncmp(ob + q, "<#", 2) || !isdigit((unsigned char)ob[q + 2])) sim_fail("dump", "%s: %s, bytes %zu to %zu, is printed as: %.60s", what, tn(x->tok, nm), x->from, x->to, ob + q);
				long id = strtol(ob + q + 2, &en, 10); q = (size_t)(en - ob);
				if (x->tok < 64) { if (nos[x->tok] >= 0 && nos[x->tok] != id) sim_fail("dump", "%s: %s is number %ld here and was %ld before", what, tn(x->tok, nm), id, nos[x->tok]); nos[x->tok] = id; for (int y = 0; y < 64; y++) if (y != x->tok && nos[y] == id) sim_fail("dump", "%s: two tokens are both number %ld", what, id); }
			}
			size_t tl = x->to - x->from;
			if (named && text) { if (on - q < tl + 3 || memcmp(ob + q, " '", 2) || memcmp(ob + q + 2, d + x->from, tl) || ob[q + 2 + tl] != '\'') sim_fail("dump", "%s: the text of %s is not printed as bytes %zu to %zu: %.60s", what, tn(x->tok, nm), x->from, x->to, ob + q); q += tl + 3; }
			else if (named && !strncmp(ob + q, " ''", 3)) q += 3;
			if (strncmp(ob + q, ">\n", 2)) sim_fail("dump", "%s: after %s, bytes %zu to %zu, comes: %.60s", what, tn(x->tok, nm), x->from, x->to, ob + q);
			q += 2;
		}
	}
}
static void work(struct plan *p) {
	struct tx t = { 0 }; EX = hcalloc(MAXE, sizeof *EX); build(p, &t);
	if (spec_bad || toobig || !t.n) { ST(ops_skipped); return; }
	if (getenv("SIM_DUMP")) fwrite(t.b, 1, t.n, stderr);
	FILE *f = fopen("spec.lx", "w"); if (!f) sim_harness_error("spec.lx"); fwrite(t.b, 1, t.n, f); fclose(f); trace_bytes(t.b, t.n);
	bool em = false; int am = ambiguous(&em); int vno = 0; bool any = false;
	for (int i = 0; i < 12; i++) if (Z[i].used && !Z[i].nm) { ST(ops_skipped); return; } /* lx has nothing to say of a zone without mappings */
	for (int i = 0; i < p->n; i++) {
		struct op *v = &p->ops[i]; if (v->kind != K_VAR) continue;
		if (v->a[0] < 0 || v->a[0] > 2 || v->a[1] < 0 || v->a[1] > 3 || v->a[2] < 1 || v->a[2] > 2) { vno++; continue; }
		shm->cur_op = i;
		int st = run_lx(v, "c", "lexgen.c");
		if (!WIFEXITED(st) || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 99) pass_on(st);
		if (WEXITSTATUS(st)) {
			ST(compiles_err); trace_u64(1);
			if (unsupported()) return; /* what a dialect has is its own business */
			if (am == 0 && !em && !empties && !empty_inside && !toobig) sim_fail("refused", "lx refuses (status %d) a specification in which every text has one meaning and none is empty", WEXITSTATUS(st));
			return;
		}
		if (empty_inside) { ST(ops_skipped); return; } /* not judged, see node_of */
		if (em) sim_fail("accepted", "lx accepts a specification in which the empty text is a token");
		if (am == 1) sim_fail("accepted", "lx accepts a specification in which a text has two meanings");
		st = run_lx(v, "h", "lexgen.h"); if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!WIFEXITED(st) || WEXITSTATUS(st) == 99) pass_on(st); sim_fail("refused", "lx -l h refuses (status %d) what lx -l c accepts", WEXITSTATUS(st)); }
		int (*fn)(struct lxreq *) = compile(v, vno++); any = true;
		for (int j = 0; j < p->n; j++) {
			struct op *e = &p->ops[j]; if (e->kind != K_EXEC || e->a[0] != vno - 1) continue;
			const struct op *in = NULL; int k = 0; for (int m = 0; m < p->n; m++) if (p->ops[m].kind == K_INPUT) { if (k == e->a[1]) { in = &p->ops[m]; break; } k++; }
			if (!in) continue;
			const unsigned char *d = in->s ? in->s : (const unsigned char *)""; size_t n = in->s ? in->n : 0;
			if ((v->a[0] == 1 || (v->a[0] == 0 && v->a[1] == 1)) && memchr(d, 0, n)) n = (size_t)((unsigned char *)memchr(d, 0, n) - d);
			shm->cur_op = -1; expect(d, n); if (exambig || toobig) continue;
			u64 seed = mix64(p->seed + 99, (u64)e->idx); int kind = (int)e->a[2]; int chunk = (int)e->a[4]; ST(branches);
			switch (kind) {
			case E_PLAIN: case E_EINTR: execute(v, fn, d, n, kind, e->a[3], chunk, seed); break;
			case E_READERR: execute(v, fn, d, n, kind, (long)(n * (size_t)(e->a[3] % 1001) / 1000), chunk, seed); break;
			case E_FIXED: execute(v, fn, d, n, kind, (long)exrun + e->a[3], chunk, seed); break;
			case E_ALLOC: {
				execute(v, fn, d, n, E_PLAIN, 0, chunk, seed); long na = al.n; if (w.error) break;
				for (long q = 0; q < 2 * na && q < 2 * e->a[3]; q++) execute(v, fn, d, n, E_ALLOC, q, chunk, seed);
				break; }
			}
		}
		if (v->a[7]) dump_program(v, p, vno - 1);
	}
	if (any) ST(ops_ok);
}
static void rmdirs(void) { DIR *d = opendir(dir); if (d) { struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.') { char p[400]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); unlink(p); } closedir(d); } rmdir(dir); }
void run_plan(struct plan *p) {
	P = p; trace_hash = 0;
	snprintf(dir, sizeof dir, "/tmp/lxsim.XXXXXX"); if (!mkdtemp(dir)) sim_harness_error("mkdtemp: %s", strerror(errno));
	static u64 *th; th = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t c = fork(); if (c < 0) sim_harness_error("fork: %s", strerror(errno));
	if (c == 0) { struct rlimit nc = { 0, 0 }; setrlimit(RLIMIT_CORE, &nc); struct rlimit rl = { 60, 62 }; setrlimit(RLIMIT_CPU, &rl); if (chdir(dir)) sim_harness_error("chdir"); work(p); *th = trace_hash; _exit(0); }
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
	rmdirs();
	shm->hash = *th;
	if (!WIFEXITED(st) || WEXITSTATUS(st)) pass_on(st);
}
unsigned profile_oracles(const char *p) { (void)p; return 0; }

/* ---- generating ---- */
static struct plan *G; static int gcap;
static struct op *add(int kind) {
	if (G->n >= gcap) { gcap = gcap ? gcap * 2 : 32; G->ops = hrealloc(G->ops, sizeof *G->ops * (size_t)gcap); }
	struct op *o = &G->ops[G->n]; memset(o, 0, sizeof *o); o->kind = kind; o->idx = G->n; G->n++; return o;
}
static void sets(struct op *o, const void *d, size_t n) { o->s = hmalloc(n + 1); memcpy(o->s, d, n); o->s[n] = 0; o->n = n; }
static const char alpha[] = "abcdefgh";
static void g_str(struct rng *r, struct tx *t) { unsigned n = 1 + rn(r, 4); tp(t, "s:"); while (n--) { unsigned c = chance(r, 5, 6) ? (unsigned)alpha[rn(r, 8)] : chance(r, 1, 2) ? 32 + rn(r, 95) : rn(r, 256); tp(t, "%02x", c); } tp(t, " "); }
static void g_class(struct rng *r, struct tx *t, bool neg) {
	tp(t, neg && chance(r, 1, 4) ? "n:" : "r:"); unsigned n = 1 + rn(r, 2);
	for (unsigned i = 0; i < n; i++) { unsigned a, b; switch (rn(r, 6)) { case 0: a = '0'; b = '9'; break; case 1: a = rn(r, 256); b = a + rn(r, 256 - a); break; case 2: a = 'A'; b = 'A' + rn(r, 26); break; default: a = (unsigned)alpha[rn(r, 8)]; b = a + rn(r, 5); break; } tp(t, "%s%02x-%02x", i ? "," : "", a, b); }
	tp(t, " ");
}
static int gvar;
static void g_pat(struct rng *r, struct tx *t, int d, bool in_rx) {
	if (d <= 0) { switch (rn(r, 8)) { case 0: case 1: g_class(r, t, !in_rx || 1); return; case 2: if (chance(r, 1, 3)) { tp(t, ". "); return; } /* fallthrough */ default: if (gvar > 0 && !in_rx && chance(r, 1, 4)) { tp(t, "v%u ", rn(r, (unsigned)gvar)); return; } g_str(r, t); return; } }
	switch (rn(r, in_rx ? 8 : 13)) {
	case 0: case 1: case 2: g_pat(r, t, d - 1, in_rx); g_pat(r, t, d - 1, in_rx); tp(t, ", "); return;
	case 3: g_pat(r, t, d - 1, in_rx); g_pat(r, t, d - 1, in_rx); tp(t, "| "); return;
	case 4: case 5: case 6: g_pat(r, t, d - 1, in_rx); tp(t, "%c ", "*+?"[rn(r, 3)]); return;
	case 7: g_pat(r, t, d - 2, true); { unsigned m = rn(r, 3); tp(t, "q:%u:%u ", m, m + 1 + rn(r, 2)); } return;
	case 8: g_pat(r, t, d - 1, false); g_pat(r, t, d - 1, false); tp(t, "- "); return;
	case 9: g_pat(r, t, d - 1, false); g_pat(r, t, d - 1, false); tp(t, "& "); return;
	case 10: if (chance(r, 1, 3)) { g_pat(r, t, d - 1, false); tp(t, "~ "); return; } /* fallthrough */
	case 11: { int sv = gvar; gvar = 0; g_pat(r, t, d - 1, false); gvar = sv; tp(t, "%c ", chance(r, 1, 2) ? '!' : '^'); return; }
	case 12: { /* case-insensitive: strings, ranges without complement */ g_str(r, t); if (chance(r, 1, 2)) { tp(t, "r:61-%02x ", 0x61 + rn(r, 26)); tp(t, ", "); } tp(t, "i "); return; }
	}
}
static unsigned gtok, gzone; static int gbudget;
static long g_tok(struct rng *r) { if (chance(r, 1, 6)) return -1; if (gtok && chance(r, 1, 6)) return rn(r, gtok); if (gtok < 40) return gtok++; return rn(r, gtok); }
/* a pattern that begins with a given byte, so that mappings mostly have nothing in common */
static void g_lead(struct rng *r, struct tx *t, unsigned first) {
	t->n = 0; tp(t, "s:%02x ", first);
	if (chance(r, 3, 4)) { g_pat(r, t, (int)rn(r, 4), false); if (chance(r, 1, 4)) tp(t, "? "); tp(t, ", "); }
}
static void g_zone(struct rng *r, long z, int depth) {
	struct tx t = { 0 }; unsigned at = rn(r, 26); unsigned k = 1 + rn(r, 5); int sv = gvar;
	if (chance(r, 1, 2)) { struct op *o = add(K_MAP); o->a[0] = z; o->a[1] = chance(r, 5, 6) ? -1 : g_tok(r); sets(o, "r:20-20,0a-0a +", 15); }
	if (chance(r, 1, 4)) { gvar = 0; t.n = 0; g_pat(r, &t, 1 + (int)rn(r, 2), false); gvar = sv; struct op *o = add(K_BIND); o->a[0] = z; o->a[1] = gvar; sets(o, t.b, t.n); if (gvar < 4) gvar++; }
	for (unsigned i = 0; i < k && gbudget-- > 0; i++) {
		unsigned first = 'a' + (at + i) % 26; if (chance(r, 1, 12)) first = rn(r, 256);
		if (depth < 3 && gzone < 11 && chance(r, 1, 3)) {
			long id = ++gzone; g_lead(r, &t, first); struct op *o = add(K_ZONE); o->a[0] = z; o->a[1] = id; o->a[2] = g_tok(r); bool imp = chance(r, 1, 3); o->a[3] = imp; sets(o, t.b, t.n);
			bool oneway = !imp && chance(r, 1, 6);
			if (!oneway) {
				if (chance(r, 1, 5)) { g_lead(r, &t, '0' + rn(r, 10)); o = add(K_ENTRY); o->a[0] = id; o->a[1] = g_tok(r); sets(o, t.b, t.n); }
				unsigned ne = chance(r, 1, 4) ? 2 : 1;
				for (unsigned j = 0; j < ne; j++) { t.n = 0; static const char ends[] = "\n\"';)]}"; if (chance(r, 2, 3)) tp(&t, "s:%02x ", ends[(rn(r, 7) + j) % 7]); else g_lead(r, &t, (unsigned)ends[(rn(r, 7) + j) % 7]); o = add(K_EXIT); o->a[0] = id; o->a[1] = g_tok(r); sets(o, t.b, t.n); }
			}
			if (!imp) {
				if (chance(r, 1, 3)) { o = add(K_MAP); o->a[0] = id; o->a[1] = g_tok(r); sets(o, ". ", 2); if (oneway || chance(r, 1, 2)) continue; continue; }
				if (z == 0 && chance(r, 1, 8) && G->n > 3) { /* the same body again, elsewhere */ }
				g_zone(r, id, depth + 1);
			}
			continue;
		}
		if (chance(r, 1, 8)) { t.n = 0; g_pat(r, &t, 1 + (int)rn(r, 3), false); } else g_lead(r, &t, first);
		struct op *o = add(K_MAP); o->a[0] = z; o->a[1] = g_tok(r); sets(o, t.b, t.n);
	}
	if (chance(r, 1, 8)) { struct op *o = add(K_MAP); o->a[0] = z; o->a[1] = -1; sets(o, "r:20-20,09-09,0a-0a ", 20); }
	gvar = sv;
}
static size_t g_input(struct rng *r, unsigned char *b, size_t want) { /* mostly follows the specification */
	size_t n = 0; int z = 0; struct cur c; c_start(&c, 0); bool fresh = true; unsigned burst = rn(r, 4);
	while (n < want && !toobig) {
		bool am = false; int m = fresh ? -1 : c_match(&c, &am);
		if (m >= 0 && chance(r, 1, burst ? burst * 4 : 2)) { /* end the token here, if something else can begin */
			int to = Z[z].m[m].to >= 0 ? Z[z].m[m].to : z; unsigned x = 0; int tries; struct cur c2;
			for (tries = 0; tries < 60; tries++) { x = cls_rep[rn(r, (unsigned)ncls)]; struct cur c3 = c; if (c_step(&c3, x)) continue; c_start(&c2, to); if (c_step(&c2, x)) break; }
			if (tries < 60) { z = to; c = c2; b[n++] = (unsigned char)x; fresh = false; continue; }
		}
		unsigned x = 0; int tries; struct cur c3;
		for (tries = 0; tries < 80; tries++) { x = cls_rep[rn(r, (unsigned)ncls)]; if (chance(r, 1, 3)) { unsigned y = rn(r, 256); if (cls_of[y] == cls_of[x]) x = y; } c3 = c; if (c_step(&c3, x)) break; }
		if (tries < 80 && !chance(r, 1, 400)) { c = c3; b[n++] = (unsigned char)x; fresh = false; continue; }
		if (m >= 0) { int to = Z[z].m[m].to >= 0 ? Z[z].m[m].to : z; z = to; c_start(&c, z); fresh = true; if (chance(r, 1, 20)) break; continue; }
		if (n < want) b[n++] = (unsigned char)(chance(r, 1, 2) ? rn(r, 256) : alpha[rn(r, 8)]);
		if (chance(r, 1, 2)) break;
		z = 0; c_start(&c, 0); fresh = true;
	}
	return n;
}
struct plan *plan_gen(const char *profile, u64 seed, u64 runno) {
	struct plan *p = G = hcalloc(1, sizeof *p); gcap = 0; snprintf(p->profile, sizeof p->profile, "%s", profile); p->seed = seed; p->run = runno;
	struct rng rr = { mix64(seed * 2654435761u + 15, runno) }, *r = &rr; p->fill = 0xa5; P = p;
	gtok = gzone = 0; gvar = 0; gbudget = 2 + (int)rn(r, 14); g_zone(r, 0, 0);
	struct tx t = { 0 }; build(p, &t); bool ok = !spec_bad && !toobig; hfree(t.b);
	if (ok) { bool em = false; if (ambiguous(&em) == 1 || em) ok = false; }
	unsigned nv = ok ? 3 : 1, ni = ok ? 3 + rn(r, 3) : 0;
	static unsigned char b[70000];
	for (unsigned i = 0; i < ni; i++) { size_t want = i == 0 && chance(r, 1, 4) ? 200 + rn(r, 4000) : i == 1 && chance(r, 1, 40) ? 200000 : 3 + rn(r, 90); if (chance(r, 1, 30)) want = 0; size_t n = g_input(r, b, want); sets(add(K_INPUT), b, n); }
	unsigned io0 = rn(r, 3);
	for (unsigned v = 0; v < nv; v++) {
		struct op *o = add(K_VAR); long f = 0; o->a[0] = v == 0 ? 0 : v == 1 ? 1 + rn(r, 2) : io0; o->a[1] = v == 0 ? (chance(r, 1, 2) ? 3 : 0) : rn(r, 4); if (o->a[0]) o->a[1] = 0;
		o->a[2] = 1 + chance(r, 1, 3);
		if (chance(r, 1, 6)) f |= X_POS;
		if (chance(r, 1, 8)) f |= X_BUF;
		if (chance(r, 1, 6)) f |= X_NAME;
		if (chance(r, 1, 2)) f |= X_EXAMPLE;
		if (chance(r, 1, 6)) f |= X_HEX;
		if (chance(r, 1, 6)) f |= X_PREFIX;
		if (chance(r, 1, 6)) f |= X_COMMENTS;
		if (chance(r, 1, 12)) f |= X_NOPUSH;
		o->a[3] = f; o->a[7] = chance(r, 1, 3);
		if (chance(r, 3, 4)) { o->a[4] = 2 + rn(r, 7); o->a[5] = 2 + rn(r, 30); o->a[6] = 3 + rn(r, 2); }
		long io = o->a[0], g = o->a[1], buf = o->a[2];
		for (unsigned i = 0; i < ni; i++) {
			struct op *e = add(K_EXEC); e->a[0] = v; e->a[1] = i; e->a[4] = chance(r, 1, 2) ? -1 : 1 + (long)rn(r, 5);
			if (io == 0 && (g == 0 || g == 3)) {
				for (unsigned k = 0; k < 3; k++) { e = add(K_EXEC); e->a[0] = v; e->a[1] = i; e->a[2] = E_READERR; e->a[3] = rn(r, 1001); e->a[4] = chance(r, 1, 2) ? -1 : 1 + (long)rn(r, 9); }
				e = add(K_EXEC); e->a[0] = v; e->a[1] = i; e->a[2] = E_EINTR; e->a[3] = rn(r, 4); e->a[4] = chance(r, 1, 2) ? -1 : 1 + (long)rn(r, 9);
			}
			if (buf == 1 && !(f & (X_BUF | X_NOPUSH))) { e = add(K_EXEC); e->a[0] = v; e->a[1] = i; e->a[2] = E_ALLOC; e->a[3] = 30; e->a[4] = -1; }
			if (buf == 2 && !(f & (X_BUF | X_NOPUSH))) { e = add(K_EXEC); e->a[0] = v; e->a[1] = i; e->a[2] = E_FIXED; e->a[3] = 2 - (long)rn(r, 6); e->a[4] = -1; }
		}
	}
	return p;
}
