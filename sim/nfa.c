#include "nfa.h"
#include <fsm/fsm.h>
#include <fsm/pred.h>
#include <fsm/walk.h>

struct nfa *nfa_new(void) { struct nfa *a = hcalloc(1, sizeof *a); a->start = -1; return a; }
void nfa_free(struct nfa *a) {
	if (!a) return;
	for (unsigned i = 0; i < a->n; i++) { hfree(a->s[i].ids); hfree(a->s[i].eo); hfree(a->s[i].e); hfree(a->s[i].eps); }
	hfree(a->s); hfree(a);
}
unsigned nfa_addstate(struct nfa *a) {
	if (a->n == a->cap) { a->cap = a->cap ? a->cap * 2 : 8; a->s = hrealloc(a->s, a->cap * sizeof *a->s); }
	memset(&a->s[a->n], 0, sizeof a->s[0]);
	return a->n++;
}
static void addset(unsigned **v, unsigned *n, unsigned id) {
	unsigned i;
	for (i = 0; i < *n; i++) { if ((*v)[i] == id) return; if ((*v)[i] > id) break; }
	*v = hrealloc(*v, (*n + 1) * sizeof **v);
	memmove(*v + i + 1, *v + i, (*n - i) * sizeof **v);
	(*v)[i] = id; (*n)++;
}
void nfa_addid(struct nfa *a, unsigned s, unsigned id) { addset(&a->s[s].ids, &a->s[s].nids, id); }
void nfa_addeo(struct nfa *a, unsigned s, unsigned id) { addset(&a->s[s].eo, &a->s[s].neo, id); }
static struct nedge *edgeto(struct nfa *a, unsigned from, unsigned to) {
	struct nst *s = &a->s[from];
	for (unsigned i = s->ne; i-- > 0;) if (s->e[i].to == to) return &s->e[i];
	if (s->ne == s->ce) { s->ce = s->ce ? s->ce * 2 : 4; s->e = hrealloc(s->e, s->ce * sizeof *s->e); }
	memset(&s->e[s->ne], 0, sizeof s->e[0]); s->e[s->ne].to = to;
	return &s->e[s->ne++];
}
void nfa_addsym(struct nfa *a, unsigned from, unsigned to, unsigned char c) { edgeto(a, from, to)->sym[c >> 6] |= (u64)1 << (c & 63); }
void nfa_addany(struct nfa *a, unsigned from, unsigned to) { struct nedge *e = edgeto(a, from, to); memset(e->sym, 0xff, sizeof e->sym); }
void nfa_addeps(struct nfa *a, unsigned from, unsigned to) {
	struct nst *s = &a->s[from];
	for (unsigned i = 0; i < s->neps; i++) if (s->eps[i] == to) return;
	if (s->neps == s->ceps) { s->ceps = s->ceps ? s->ceps * 2 : 4; s->eps = hrealloc(s->eps, s->ceps * sizeof *s->eps); }
	s->eps[s->neps++] = to;
}
unsigned nfa_append(struct nfa *d, const struct nfa *s) {
	unsigned base = d->n;
	for (unsigned i = 0; i < s->n; i++) {
		unsigned q = nfa_addstate(d); const struct nst *o = &s->s[i]; struct nst *t = &d->s[q];
		t->end = o->end;
		t->nids = o->nids; t->ids = hmalloc(o->nids * sizeof *t->ids); if (o->nids) memcpy(t->ids, o->ids, o->nids * sizeof *t->ids);
		t->neo = o->neo; t->eo = hmalloc(o->neo * sizeof *t->eo); if (o->neo) memcpy(t->eo, o->eo, o->neo * sizeof *t->eo);
		t->ne = t->ce = o->ne; t->e = hmalloc(o->ne * sizeof *t->e); if (o->ne) memcpy(t->e, o->e, o->ne * sizeof *t->e);
		for (unsigned j = 0; j < t->ne; j++) t->e[j].to += base;
		t->neps = t->ceps = o->neps; t->eps = hmalloc(o->neps * sizeof *t->eps);
		for (unsigned j = 0; j < t->neps; j++) t->eps[j] = o->eps[j] + base;
	}
	return base;
}
struct nfa *nfa_clone(const struct nfa *a) { struct nfa *b = nfa_new(); nfa_append(b, a); b->start = a->start; return b; }

static int cb_lit(const struct fsm *f, fsm_state_t a, fsm_state_t b, char c, void *o) { (void)f; nfa_addsym(o, a, b, (unsigned char)c); return 1; }
static int cb_eps(const struct fsm *f, fsm_state_t a, fsm_state_t b, void *o) { (void)f; nfa_addeps(o, a, b); return 1; }
struct nfa *nfa_extract(const struct fsm *f) {
	struct nfa *a = nfa_new();
	unsigned n = fsm_countstates(f);
	for (unsigned i = 0; i < n; i++) nfa_addstate(a);
	fsm_state_t st;
	if (fsm_getstart(f, &st)) {
		if (st >= n) sim_fail("malformed", "start state %u is not one of the %u states", st, n);
		a->start = st;
	}
	if (n > 0) fsm_walk_edges(f, a, cb_lit, cb_eps);
	if (a->n != n) sim_harness_error("extract");
	for (unsigned i = 0; i < n; i++) {
		for (unsigned j = 0; j < a->s[i].ne; j++) if (a->s[i].e[j].to >= n) sim_fail("malformed", "edge from state %u to state %u of %u", i, a->s[i].e[j].to, n);
		for (unsigned j = 0; j < a->s[i].neps; j++) if (a->s[i].eps[j] >= n) sim_fail("malformed", "epsilon from state %u to state %u of %u", i, a->s[i].eps[j], n);
		if (fsm_isend(f, i)) {
			a->s[i].end = true;
			size_t c = fsm_endid_count(f, i);
			if (c) {
				if (c > 100000) sim_fail("ids-malformed", "state %u reports %zu ids", i, c);
				fsm_end_id_t *v = hmalloc((c + 1) * sizeof *v);
				v[c] = 0xfeedface;
				if (!fsm_endid_get(f, i, c, v)) sim_fail("ids-malformed", "ids of end state %u cannot be read although %zu are counted", i, c);
				if (v[c] != 0xfeedface) sim_fail("ids-malformed", "more ids written than counted for state %u", i);
				for (size_t k = 0; k < c; k++) {
					if (k && v[k] <= v[k - 1]) sim_fail("ids-unsorted", "ids of state %u not sorted/unique: %u then %u", i, v[k - 1], v[k]);
					nfa_addid(a, i, v[k]);
				}
				/* a buffer that is too small must be refused */
				if (fsm_endid_get(f, i, c - 1, v)) sim_fail("ids-malformed", "reading %zu ids into a buffer of %zu succeeded", c, c - 1);
				hfree(v);
			}
		}
		size_t c = fsm_eager_output_count(f, i);
		if (c) {
			if (c > 100000) sim_fail("eager-malformed", "state %u reports %zu output ids", i, c);
			fsm_output_id_t *v = hmalloc(c * sizeof *v);
			if (!fsm_eager_output_get(f, i, c, v)) sim_fail("eager-malformed", "output ids of state %u cannot be read", i);
			for (size_t k = 0; k < c; k++) {
				if (k && v[k] <= v[k - 1]) sim_fail("eager-unsorted", "output ids of state %u not sorted/unique: %u then %u", i, v[k - 1], v[k]);
				nfa_addeo(a, i, v[k]);
			}
			hfree(v);
		}
	}
	return a;
}
struct nfa *nfa_reverse(const struct nfa *a) {
	struct nfa *r = nfa_new();
	for (unsigned i = 0; i < a->n; i++) nfa_addstate(r);
	unsigned s = nfa_addstate(r);
	r->start = s;
	for (unsigned i = 0; i < a->n; i++) {
		for (unsigned j = 0; j < a->s[i].ne; j++) { struct nedge *e = edgeto(r, a->s[i].e[j].to, i); for (int k = 0; k < 4; k++) e->sym[k] |= a->s[i].e[j].sym[k]; }
		for (unsigned j = 0; j < a->s[i].neps; j++) nfa_addeps(r, a->s[i].eps[j], i);
		if (a->s[i].end) nfa_addeps(r, s, i);
	}
	if (a->start >= 0) r->s[a->start].end = true;
	return r;
}
static int cmpe(const void *x, const void *y) { const struct nedge *a = x, *b = y; return a->to < b->to ? -1 : a->to > b->to; }
static int cmpu(const void *x, const void *y) { const unsigned *a = x, *b = y; return *a < *b ? -1 : *a > *b; }
static void canon(struct nfa *a) {
	for (unsigned i = 0; i < a->n; i++) {
		if (a->s[i].ne) qsort(a->s[i].e, a->s[i].ne, sizeof *a->s[i].e, cmpe);
		if (a->s[i].neps) qsort(a->s[i].eps, a->s[i].neps, sizeof *a->s[i].eps, cmpu);
	}
}
bool nfa_same(const struct nfa *ca, const struct nfa *cb, char *why, size_t wn) {
	struct nfa *a = (struct nfa *)ca, *b = (struct nfa *)cb;
	canon(a); canon(b);
	if (a->n != b->n) { snprintf(why, wn, "%u states, expected %u", a->n, b->n); return false; }
	if (a->start != b->start) { snprintf(why, wn, "start %ld, expected %ld", a->start, b->start); return false; }
	for (unsigned i = 0; i < a->n; i++) {
		struct nst *x = &a->s[i], *y = &b->s[i];
		if (x->end != y->end) { snprintf(why, wn, "state %u end flag %d, expected %d", i, x->end, y->end); return false; }
		if (x->end && (x->nids != y->nids || (x->nids && memcmp(x->ids, y->ids, x->nids * sizeof *x->ids)))) { snprintf(why, wn, "state %u has %u end ids, expected %u (or different ones)", i, x->nids, y->nids); return false; }
		if (x->neo != y->neo || (x->neo && memcmp(x->eo, y->eo, x->neo * sizeof *x->eo))) { snprintf(why, wn, "state %u output ids differ (%u, expected %u)", i, x->neo, y->neo); return false; }
		if (x->neps != y->neps || (x->neps && memcmp(x->eps, y->eps, x->neps * sizeof *x->eps))) { snprintf(why, wn, "state %u epsilon edges differ (%u, expected %u)", i, x->neps, y->neps); return false; }
		if (x->ne != y->ne) { snprintf(why, wn, "state %u has edges to %u states, expected %u", i, x->ne, y->ne); return false; }
		for (unsigned j = 0; j < x->ne; j++) if (memcmp(&x->e[j], &y->e[j], sizeof x->e[j])) { snprintf(why, wn, "state %u edges differ (to %u / %u)", i, x->e[j].to, y->e[j].to); return false; }
	}
	return true;
}
u64 nfa_hash(const struct nfa *ca) {
	struct nfa *a = (struct nfa *)ca; canon(a);
	u64 h = mix64(a->n, (u64)a->start);
	for (unsigned i = 0; i < a->n; i++) {
		struct nst *x = &a->s[i];
		h = mix64(h, x->end);
		if (x->end) for (unsigned j = 0; j < x->nids; j++) h = mix64(h, x->ids[j]);
		for (unsigned j = 0; j < x->neo; j++) h = mix64(h, x->eo[j]);
		for (unsigned j = 0; j < x->neps; j++) h = mix64(h, x->eps[j]);
		for (unsigned j = 0; j < x->ne; j++) { h = mix64(h, x->e[j].to); for (int k = 0; k < 4; k++) h = mix64(h, x->e[j].sym[k]); }
	}
	return h;
}
bool nfa_isdfa(const struct nfa *a) {
	for (unsigned i = 0; i < a->n; i++) {
		u64 seen[4] = { 0 };
		if (a->s[i].neps) return false;
		for (unsigned j = 0; j < a->s[i].ne; j++) for (int k = 0; k < 4; k++) { if (seen[k] & a->s[i].e[j].sym[k]) return false; seen[k] |= a->s[i].e[j].sym[k]; }
	}
	return true;
}
bool nfa_haseps(const struct nfa *a) { for (unsigned i = 0; i < a->n; i++) if (a->s[i].neps) return true; return false; }
bool nfa_haseo(const struct nfa *a) { for (unsigned i = 0; i < a->n; i++) if (a->s[i].neo) return true; return false; }
bool nfa_hasids(const struct nfa *a) { for (unsigned i = 0; i < a->n; i++) if (a->s[i].end && a->s[i].nids) return true; return false; }
bool nfa_hasend(const struct nfa *a) { for (unsigned i = 0; i < a->n; i++) if (a->s[i].end) return true; return false; }
unsigned nfa_edges(const struct nfa *a) { unsigned c = 0; for (unsigned i = 0; i < a->n; i++) for (unsigned j = 0; j < a->s[i].ne; j++) for (int k = 0; k < 4; k++) c += (unsigned)__builtin_popcountll(a->s[i].e[j].sym[k]); return c; }

/* ---- engine over a disjoint sum of NFAs ---- */
struct eng {
	unsigned n, words, extra;       /* states, words per subset, extra words (emission bits) */
	unsigned nparts; const struct nfa *p[MAXPARTS + 1]; unsigned base[MAXPARTS + 1];
	u64 *clos;                      /* n rows of `words` */
	unsigned ncls; unsigned char rep[256]; unsigned char cls[256];
	u64 *succ;                      /* successor of state s on class c, closed: rows; lazily NULL when too large */
};
static void classes(struct eng *g) {
	u64 sig[256]; for (int i = 0; i < 256; i++) sig[i] = 7;
	u64 salt = 1;
	for (unsigned q = 0; q < g->nparts; q++) for (unsigned i = 0; i < g->p[q]->n; i++) for (unsigned j = 0; j < g->p[q]->s[i].ne; j++) {
		const struct nedge *e = &g->p[q]->s[i].e[j]; salt = mix64(salt, 99);
		bool all = (e->sym[0] & e->sym[1] & e->sym[2] & e->sym[3]) == ~(u64)0;
		if (all) continue;
		for (int k = 0; k < 4; k++) { u64 w = e->sym[k]; while (w) { int b = __builtin_ctzll(w); w &= w - 1; sig[k * 64 + b] += salt; } }
	}
	g->ncls = 0;
	for (int i = 0; i < 256; i++) {
		unsigned c; for (c = 0; c < g->ncls; c++) if (sig[g->rep[c]] == sig[i]) break;
		if (c == g->ncls) g->rep[g->ncls++] = (unsigned char)i;
		else if (((i >= 'a' && i <= 'z')) && !(g->rep[c] >= 'a' && g->rep[c] <= 'z')) g->rep[c] = (unsigned char)i;
		g->cls[i] = (unsigned char)c;
	}
}
static void eng_init(struct eng *g, unsigned np, const struct nfa *const *p) {
	memset(g, 0, sizeof *g);
	g->nparts = np;
	for (unsigned i = 0; i < np; i++) { g->p[i] = p[i]; g->base[i] = g->n; g->n += p[i]->n; }
	g->words = (g->n + 63) / 64; if (!g->words) g->words = 1;
	g->clos = hcalloc((size_t)g->n * g->words, sizeof(u64));
	unsigned *stk = hmalloc((g->n + 1) * sizeof *stk);
	for (unsigned q = 0; q < np; q++) for (unsigned i = 0; i < p[q]->n; i++) {
		u64 *row = g->clos + (size_t)(g->base[q] + i) * g->words; unsigned sp = 0;
		stk[sp++] = i; row[(g->base[q] + i) >> 6] |= (u64)1 << ((g->base[q] + i) & 63);
		while (sp) { unsigned s = stk[--sp]; for (unsigned j = 0; j < p[q]->s[s].neps; j++) { unsigned t = p[q]->s[s].eps[j], gt = g->base[q] + t; if (!(row[gt >> 6] >> (gt & 63) & 1)) { row[gt >> 6] |= (u64)1 << (gt & 63); stk[sp++] = t; } } }
	}
	hfree(stk);
	classes(g);
}
static void eng_fini(struct eng *g) { hfree(g->clos); }
static inline void orrow(u64 *d, const u64 *s, unsigned w) { for (unsigned i = 0; i < w; i++) d[i] |= s[i]; }
static void eng_start(struct eng *g, u64 *set) {
	memset(set, 0, g->words * 8);
	for (unsigned q = 0; q < g->nparts; q++) if (g->p[q]->start >= 0) orrow(set, g->clos + (size_t)(g->base[q] + (unsigned)g->p[q]->start) * g->words, g->words);
}
static void eng_step(struct eng *g, const u64 *set, unsigned char c, u64 *out) {
	memset(out, 0, g->words * 8);
	for (unsigned q = 0; q < g->nparts; q++) for (unsigned i = 0; i < g->p[q]->n; i++) {
		unsigned gi = g->base[q] + i; if (!(set[gi >> 6] >> (gi & 63) & 1)) continue;
		const struct nst *s = &g->p[q]->s[i];
		for (unsigned j = 0; j < s->ne; j++) if (s->e[j].sym[c >> 6] >> (c & 63) & 1) orrow(out, g->clos + (size_t)(g->base[q] + s->e[j].to) * g->words, g->words);
	}
}
static bool part_acc(struct eng *g, unsigned q, const u64 *set) {
	for (unsigned i = 0; i < g->p[q]->n; i++) { unsigned gi = g->base[q] + i; if (g->p[q]->s[i].end && (set[gi >> 6] >> (gi & 63) & 1)) return true; }
	return false;
}
static void part_ids(struct eng *g, unsigned q, const u64 *set, unsigned **v, unsigned *n) {
	for (unsigned i = 0; i < g->p[q]->n; i++) { unsigned gi = g->base[q] + i; const struct nst *s = &g->p[q]->s[i]; if (s->end && (set[gi >> 6] >> (gi & 63) & 1)) for (unsigned k = 0; k < s->nids; k++) addset(v, n, s->ids[k]); }
}
/* hash set of configurations with parent links */
struct hs { u64 *keys; unsigned w; unsigned n, cap; unsigned *tab, tabn; unsigned *par; unsigned char *via; };
static void hs_init(struct hs *h, unsigned w) { memset(h, 0, sizeof *h); h->w = w; h->cap = 64; h->keys = hmalloc((size_t)h->cap * w * 8); h->par = hmalloc(h->cap * sizeof *h->par); h->via = hmalloc(h->cap); h->tabn = 256; h->tab = hcalloc(h->tabn, sizeof *h->tab); }
static void hs_fini(struct hs *h) { hfree(h->keys); hfree(h->tab); hfree(h->par); hfree(h->via); }
static u64 hkey(const u64 *k, unsigned w) { u64 x = 88172645463325252ull; for (unsigned i = 0; i < w; i++) { x ^= k[i]; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; } return x; }
static unsigned hs_add(struct hs *h, const u64 *k, unsigned par, unsigned char via, bool *isnew) {
	if (h->n * 2 >= h->tabn) {
		h->tabn *= 2; hfree(h->tab); h->tab = hcalloc(h->tabn, sizeof *h->tab);
		for (unsigned i = 0; i < h->n; i++) { unsigned j = (unsigned)hkey(h->keys + (size_t)i * h->w, h->w) & (h->tabn - 1); while (h->tab[j]) j = (j + 1) & (h->tabn - 1); h->tab[j] = i + 1; }
	}
	unsigned j = (unsigned)hkey(k, h->w) & (h->tabn - 1);
	while (h->tab[j]) { if (!memcmp(h->keys + (size_t)(h->tab[j] - 1) * h->w, k, h->w * 8)) { *isnew = false; return h->tab[j] - 1; } j = (j + 1) & (h->tabn - 1); }
	if (h->n == h->cap) { h->cap *= 2; h->keys = hrealloc(h->keys, (size_t)h->cap * h->w * 8); h->par = hrealloc(h->par, h->cap * sizeof *h->par); h->via = hrealloc(h->via, h->cap); }
	memcpy(h->keys + (size_t)h->n * h->w, k, h->w * 8); h->par[h->n] = par; h->via[h->n] = via;
	h->tab[j] = ++h->n; *isnew = true; return h->n - 1;
}
void fmt_bytes(char *out, size_t outn, const unsigned char *s, size_t n) {
	size_t o = 0; if (o + 1 < outn) out[o++] = '"';
	for (size_t i = 0; i < n && o + 6 < outn; i++) {
		if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') out[o++] = (char)s[i];
		else o += (size_t)snprintf(out + o, outn - o, "\\x%02x", s[i]);
	}
	if (o + 1 < outn) out[o++] = '"';
	out[o < outn ? o : outn - 1] = 0;
}
static void witness(struct hs *h, unsigned i, char *out, size_t n) {
	unsigned char buf[512]; size_t l = 0;
	while (i != (unsigned)-1 && h->par[i] != (unsigned)-1 && l < sizeof buf) { buf[l++] = h->via[i]; i = h->par[i]; }
	for (size_t a = 0; a < l / 2; a++) { unsigned char t = buf[a]; buf[a] = buf[l - 1 - a]; buf[l - 1 - a] = t; }
	fmt_bytes(out, n, buf, l);
}
static void fmt_ids(char *o, size_t n, const unsigned *v, unsigned k) { size_t p = 0; p += (size_t)snprintf(o, n, "{"); for (unsigned i = 0; i < k && p + 12 < n; i++) p += (size_t)snprintf(o + p, n - p, "%s%u", i ? "," : "", v[i]); snprintf(o + p, n - p, "}"); }

static unsigned eo_collect(struct eng *g, unsigned *univ, unsigned max) {
	unsigned n = 0;
	for (unsigned q = 0; q < g->nparts; q++) for (unsigned i = 0; i < g->p[q]->n; i++) for (unsigned k = 0; k < g->p[q]->s[i].neo; k++) {
		unsigned id = g->p[q]->s[i].eo[k], j; for (j = 0; j < n; j++) if (univ[j] == id) break;
		if (j == n) { if (n == max) return max + 1; univ[n++] = id; }
	}
	return n;
}
/* emission bits: word 0 (low 32) for the result, (high 32) for the expectation */
static u64 eo_bits(struct eng *g, const u64 *set, const unsigned *univ, unsigned nu) {
	u64 r = 0;
	for (unsigned q = 0; q < g->nparts; q++) for (unsigned i = 0; i < g->p[q]->n; i++) {
		unsigned gi = g->base[q] + i; const struct nst *s = &g->p[q]->s[i];
		if (!s->neo || !(set[gi >> 6] >> (gi & 63) & 1)) continue;
		for (unsigned k = 0; k < s->neo; k++) for (unsigned j = 0; j < nu; j++) if (univ[j] == s->eo[k]) r |= (u64)1 << (j + (q == 0 ? 0 : 32));
	}
	return r;
}
int nfa_check(const struct nfa *got, const struct spec *sp, unsigned what, size_t budget, char *msg, size_t msgn) {
	struct eng g; const struct nfa *ps[MAXPARTS + 1]; ps[0] = got;
	for (unsigned i = 0; i < sp->n; i++) ps[i + 1] = sp->p[i];
	eng_init(&g, sp->n + 1, ps);
	unsigned univ[33], nu = 0;
	if (what & CMP_EAGER) { nu = eo_collect(&g, univ, 32); if (nu > 32) what &= ~(unsigned)CMP_EAGER; }
	unsigned kw = g.words + ((what & CMP_EAGER) ? 1 : 0);
	struct hs h; hs_init(&h, kw);
	u64 *cur = hmalloc(kw * 8), *nx = hmalloc(kw * 8);
	eng_start(&g, cur); if (what & CMP_EAGER) cur[g.words] = eo_bits(&g, cur, univ, nu);
	bool isnew; hs_add(&h, cur, (unsigned)-1, 0, &isnew);
	int res = 1; size_t work = 0;
	ST(lang_checks);
	for (unsigned i = 0; i < h.n && res == 1; i++) {
		memcpy(cur, h.keys + (size_t)i * kw, kw * 8);
		bool a[MAXPARTS] = { 0 }; bool ga = part_acc(&g, 0, cur);
		for (unsigned q = 0; q < sp->n; q++) a[q] = part_acc(&g, q + 1, cur);
		bool ea = sp->acc ? sp->acc(a, sp->opq) : a[0];
		if ((what & CMP_LANG) && ga != ea) { char w[700]; witness(&h, i, w, sizeof w); snprintf(msg, msgn, "input %s is %s but should be %s", w, ga ? "accepted" : "rejected", ea ? "accepted" : "rejected"); res = 0; break; }
		if ((what & CMP_IDS) && ga && ea) {
			unsigned *gv = NULL, gn = 0, *ev = NULL, en = 0;
			ST(id_checks);
			part_ids(&g, 0, cur, &gv, &gn);
			for (unsigned q = 0; q < sp->n; q++) if (sp->idmask >> q & 1) part_ids(&g, q + 1, cur, &ev, &en);
			if (gn) ST(ids_nonempty);
			if (gn != en || (gn && memcmp(gv, ev, gn * sizeof *gv))) { char w[500], x[200], y[200]; witness(&h, i, w, sizeof w); fmt_ids(x, sizeof x, gv, gn); fmt_ids(y, sizeof y, ev, en); snprintf(msg, msgn, "input %s reports ids %s but should report %s", w, x, y); res = 0; }
			hfree(gv); hfree(ev);
			if (!res) break;
		}
		if ((what & CMP_EAGER) && ga && ea) {
			u64 b = cur[g.words]; unsigned x = (unsigned)(b & 0xffffffffu), y = (unsigned)(b >> 32);
			ST(eager_checks); if (y) ST(eager_hits);
			if (x != y) { char w[700]; witness(&h, i, w, sizeof w); unsigned j = (unsigned)__builtin_ctz(x ^ y); snprintf(msg, msgn, "input %s %s output id %u", w, (x >> j & 1) ? "notifies spurious" : "fails to notify", univ[j]); res = 0; break; }
		}
		if ((what & CMP_FIRST) && ga && ea) continue;
		for (unsigned c = 0; c < g.ncls; c++) {
			eng_step(&g, cur, g.rep[c], nx);
			work += g.words * 4 + g.n / 8 + 4;
			bool any = false; for (unsigned k = 0; k < g.words; k++) if (nx[k]) { any = true; break; }
			if (!any && !sp->acc) { continue; }
			if (what & CMP_EAGER) nx[g.words] = cur[g.words] | eo_bits(&g, nx, univ, nu);
			hs_add(&h, nx, i, g.rep[c], &isnew);
		}
		if (work > budget && i + 1 < h.n) { res = -1; ST(lang_undecided); }
	}
	STN(lang_pairs, h.n);
	hs_fini(&h); hfree(cur); hfree(nx); eng_fini(&g);
	return res;
}
int nfa_check_group(const struct nfa *got, unsigned n, const struct nfa *const *parts, unsigned id_base, size_t budget, char *msg, size_t msgn) {
	struct eng g; const struct nfa *ps[MAXPARTS + 1]; ps[0] = got;
	for (unsigned i = 0; i < n; i++) ps[i + 1] = parts[i];
	eng_init(&g, n + 1, ps);
	unsigned univ[33], nu = eo_collect(&g, univ, 32);
	if (nu > 32) { eng_fini(&g); return -1; }
	unsigned kw = g.words + 1;
	struct hs h; hs_init(&h, kw);
	u64 *cur = hmalloc(kw * 8), *nx = hmalloc(kw * 8);
	eng_start(&g, cur); cur[g.words] = eo_bits(&g, cur, univ, nu) & 0xffffffffu;
	bool isnew; hs_add(&h, cur, (unsigned)-1, 0, &isnew);
	int res = 1; size_t work = 0;
	ST(lang_checks);
	for (unsigned i = 0; i < h.n && res == 1; i++) {
		memcpy(cur, h.keys + (size_t)i * kw, kw * 8);
		bool ga = part_acc(&g, 0, cur); unsigned *gv = NULL, gn = 0, *ev = NULL, en = 0;
		if (ga) { part_ids(&g, 0, cur, &gv, &gn); for (unsigned j = 0; j < nu; j++) if (cur[g.words] >> j & 1) { addset(&gv, &gn, univ[j]); ST(eager_hits); } }
		for (unsigned q = 0; q < n; q++) if (part_acc(&g, q + 1, cur)) addset(&ev, &en, id_base + q);
		ST(eager_checks); if (en) ST(ids_nonempty);
		if (gn != en || (gn && memcmp(gv, ev, gn * sizeof *gv))) { char w[500], x[200], y[200]; witness(&h, i, w, sizeof w); fmt_ids(x, sizeof x, gv, gn); fmt_ids(y, sizeof y, ev, en); snprintf(msg, msgn, "input %s (%s) reports patterns %s but %s match on their own", w, ga ? "accepted" : "rejected", x, y); res = 0; }
		hfree(gv); hfree(ev); if (!res) break;
		for (unsigned c = 0; c < g.ncls; c++) {
			eng_step(&g, cur, g.rep[c], nx);
			work += g.words * 4 + g.n / 8 + 4;
			nx[g.words] = cur[g.words] | (eo_bits(&g, nx, univ, nu) & 0xffffffffu);
			hs_add(&h, nx, i, g.rep[c], &isnew);
		}
		if (work > budget && i + 1 < h.n) { res = -1; ST(lang_undecided); }
	}
	STN(lang_pairs, h.n);
	hs_fini(&h); hfree(cur); hfree(nx); eng_fini(&g);
	return res;
}
int nfa_equiv(const struct nfa *got, const struct nfa *exp, unsigned what, size_t budget, char *msg, size_t msgn) {
	struct spec sp = { .n = 1, .p = { exp }, .acc = NULL, .idmask = 1 };
	return nfa_check(got, &sp, what, budget, msg, msgn);
}
unsigned nfa_dfasize(const struct nfa *a, unsigned limit) {
	struct eng g; eng_init(&g, 1, &a); struct hs h; hs_init(&h, g.words); bool isnew; unsigned r = 0;
	u64 *cur = hmalloc(g.words * 8), *nx = hmalloc(g.words * 8);
	if (a->start >= 0) {
		eng_start(&g, cur); hs_add(&h, cur, (unsigned)-1, 0, &isnew);
		for (unsigned i = 0; i < h.n && h.n <= limit; i++) {
			memcpy(cur, h.keys + (size_t)i * g.words, g.words * 8);
			for (unsigned c = 0; c < g.ncls; c++) { eng_step(&g, cur, g.rep[c], nx); bool any = false; for (unsigned k = 0; k < g.words; k++) if (nx[k]) any = true; if (any) hs_add(&h, nx, i, g.rep[c], &isnew); }
		}
		r = h.n;
	}
	hs_fini(&h); hfree(cur); hfree(nx); eng_fini(&g);
	return r;
}
unsigned nfa_minsize(const struct nfa *a, unsigned limit) {
	if (a->start < 0) return 0;
	struct eng g; eng_init(&g, 1, &a); struct hs h; hs_init(&h, g.words); bool isnew;
	u64 *cur = hmalloc(g.words * 8), *nx = hmalloc(g.words * 8);
	unsigned *tr = NULL; unsigned trcap = 0;
	eng_start(&g, cur); hs_add(&h, cur, (unsigned)-1, 0, &isnew);
	bool over = false;
	for (unsigned i = 0; i < h.n; i++) {
		if (h.n > limit) { over = true; break; }
		if (i >= trcap) { trcap = trcap ? trcap * 2 : 64; tr = hrealloc(tr, (size_t)trcap * g.ncls * sizeof *tr); }
		memcpy(cur, h.keys + (size_t)i * g.words, g.words * 8);
		for (unsigned c = 0; c < g.ncls; c++) { eng_step(&g, cur, g.rep[c], nx); tr[(size_t)i * g.ncls + c] = hs_add(&h, nx, i, g.rep[c], &isnew); }
	}
	unsigned res = limit + 1;
	if (!over) {
		unsigned n = h.n; u64 *cls = hmalloc(n * 8), *ncl = hmalloc(n * 8);
		for (unsigned i = 0; i < n; i++) {
			u64 *k = h.keys + (size_t)i * g.words; bool acc = part_acc(&g, 0, k); u64 x = acc;
			if (acc) { unsigned *v = NULL, c = 0; part_ids(&g, 0, k, &v, &c); for (unsigned j = 0; j < c; j++) x = mix64(x, v[j] + 3); hfree(v); }
			cls[i] = x;
		}
		unsigned cnt = 0;
		for (;;) {
			for (unsigned i = 0; i < n; i++) { u64 x = cls[i]; for (unsigned c = 0; c < g.ncls; c++) x = mix64(x, cls[tr[(size_t)i * g.ncls + c]] + c); ncl[i] = x; }
			/* count distinct */
			u64 *srt = hmalloc(n * 8); memcpy(srt, ncl, n * 8);
			for (unsigned i = 1; i < n; i++) { u64 t = srt[i]; unsigned j = i; while (j && srt[j - 1] > t) { srt[j] = srt[j - 1]; j--; } srt[j] = t; }
			unsigned d = n ? 1 : 0; for (unsigned i = 1; i < n; i++) if (srt[i] != srt[i - 1]) d++;
			hfree(srt); memcpy(cls, ncl, n * 8);
			if (d == cnt) break;
			cnt = d;
		}
		/* drop the dead class: states from which nothing is accepted */
		unsigned char *live = hcalloc(n, 1); bool ch = true;
		for (unsigned i = 0; i < n; i++) live[i] = part_acc(&g, 0, h.keys + (size_t)i * g.words);
		while (ch) { ch = false; for (unsigned i = 0; i < n; i++) if (!live[i]) for (unsigned c = 0; c < g.ncls; c++) if (live[tr[(size_t)i * g.ncls + c]]) { live[i] = 1; ch = true; break; } }
		bool dead = false; for (unsigned i = 0; i < n; i++) if (!live[i]) dead = true;
		res = cnt - (dead ? 1 : 0);
		hfree(live); hfree(cls); hfree(ncl);
	}
	hfree(tr); hs_fini(&h); hfree(cur); hfree(nx); eng_fini(&g);
	return res;
}
void nfa_marks(const struct nfa *a, unsigned char *reach, unsigned char *co, unsigned *dist) {
	bool ch = true; memset(reach, 0, a->n); memset(co, 0, a->n);
	if (a->start >= 0) reach[a->start] = 1;
	while (ch) { ch = false; for (unsigned i = 0; i < a->n; i++) if (reach[i]) {
		for (unsigned j = 0; j < a->s[i].ne; j++) if (!reach[a->s[i].e[j].to]) { reach[a->s[i].e[j].to] = 1; ch = true; }
		for (unsigned j = 0; j < a->s[i].neps; j++) if (!reach[a->s[i].eps[j]]) { reach[a->s[i].eps[j]] = 1; ch = true; } } }
	for (unsigned i = 0; i < a->n; i++) { co[i] = a->s[i].end; if (dist) dist[i] = a->s[i].end ? 0 : UINT_MAX; }
	ch = true;
	while (ch) { ch = false; for (unsigned i = 0; i < a->n; i++) {
		for (unsigned j = 0; j < a->s[i].ne; j++) { unsigned t = a->s[i].e[j].to; if (co[t] && !co[i]) { co[i] = 1; ch = true; } if (dist && dist[t] != UINT_MAX && dist[t] + 1 < dist[i]) { dist[i] = dist[t] + 1; ch = true; } }
		for (unsigned j = 0; j < a->s[i].neps; j++) { unsigned t = a->s[i].eps[j]; if (co[t] && !co[i]) { co[i] = 1; ch = true; } if (dist && dist[t] != UINT_MAX && dist[t] < dist[i]) { dist[i] = dist[t]; ch = true; } } } }
}
bool nfa_accepts(const struct nfa *a, const unsigned char *s, size_t n, unsigned *ids, unsigned *nids, unsigned maxids) {
	struct eng g; eng_init(&g, 1, &a); u64 *cur = hmalloc(g.words * 8), *nx = hmalloc(g.words * 8);
	eng_start(&g, cur);
	for (size_t i = 0; i < n; i++) { eng_step(&g, cur, s[i], nx); u64 *t = cur; cur = nx; nx = t; }
	bool r = part_acc(&g, 0, cur);
	if (ids) { unsigned *v = NULL, c = 0; if (r) part_ids(&g, 0, cur, &v, &c); *nids = c < maxids ? c : maxids; if (c) memcpy(ids, v, *nids * sizeof *v); hfree(v); }
	hfree(cur); hfree(nx); eng_fini(&g); return r;
}
void nfa_emits(const struct nfa *a, const unsigned char *s, size_t n, unsigned *ids, unsigned *nids, unsigned maxids) {
	struct eng g; eng_init(&g, 1, &a); u64 *cur = hmalloc(g.words * 8), *nx = hmalloc(g.words * 8);
	unsigned *v = NULL, c = 0;
	eng_start(&g, cur);
	for (size_t i = 0;; i++) {
		for (unsigned q = 0; q < a->n; q++) if (a->s[q].neo && (cur[q >> 6] >> (q & 63) & 1)) for (unsigned k = 0; k < a->s[q].neo; k++) addset(&v, &c, a->s[q].eo[k]);
		if (i == n) break;
		eng_step(&g, cur, s[i], nx); u64 *t = cur; cur = nx; nx = t;
	}
	*nids = c < maxids ? c : maxids; if (c) memcpy(ids, v, *nids * sizeof *v); hfree(v);
	hfree(cur); hfree(nx); eng_fini(&g);
}
size_t nfa_sample(const struct nfa *a, struct rng *r, unsigned char *buf, size_t max) {
	size_t l = 0;
	if (a->start < 0 || chance(r, 1, 8)) { l = rn(r, (unsigned)(max < 12 ? max + 1 : 12)); for (size_t i = 0; i < l; i++) buf[i] = (unsigned char)(chance(r, 3, 4) ? 'a' + rn(r, 4) : rn(r, 256)); return l; }
	unsigned char *re = hmalloc(a->n + 1), *co = hmalloc(a->n + 1); unsigned *d = hmalloc((a->n + 1) * sizeof *d);
	nfa_marks(a, re, co, d);
	unsigned s = (unsigned)a->start; size_t steps = 0; unsigned lazy = rn(r, 4);
	while (steps++ < 4 * max + 50) {
		const struct nst *q = &a->s[s];
		if (q->end && chance(r, 1, 2 + lazy * 3)) break;
		unsigned tot = q->ne + q->neps; if (!tot) break;
		unsigned pick = rn(r, tot), tries = 0; bool ok = false;
		unsigned want = (steps > max / 2 + 1) ? d[s] : UINT_MAX; /* later: head for an end */
		for (; tries < tot; tries++, pick = (pick + 1) % tot) {
			unsigned t = pick < q->ne ? q->e[pick].to : q->eps[pick - q->ne];
			if (!co[t]) { if (chance(r, 1, 40)) { ok = true; break; } continue; }
			if (want != UINT_MAX && d[t] != UINT_MAX && d[t] > want) continue;
			ok = true; break;
		}
		if (!ok) break;
		if (pick < q->ne) {
			if (l >= max) break;
			unsigned c = rn(r, 256); const struct nedge *e = &q->e[pick];
			if (chance(r, 3, 4)) c = 'a' + rn(r, 4);
			for (unsigned k = 0; k < 256; k++, c = (c + 1) & 255) if (e->sym[c >> 6] >> (c & 63) & 1) break;
			buf[l++] = (unsigned char)c; s = e->to;
		} else s = q->eps[pick - q->ne];
	}
	if (chance(r, 1, 10) && l) buf[rn(r, (unsigned)l)] ^= (unsigned char)(1 + rn(r, 4));
	if (chance(r, 1, 12) && l < max) buf[l++] = (unsigned char)('a' + rn(r, 3));
	hfree(re); hfree(co); hfree(d);
	return l;
}
bool nfa_empty_without(const struct nfa *a, int c) {
	if (a->start < 0) return true;
	unsigned char *re = hcalloc(a->n, 1); bool ch = true, r = true; re[a->start] = 1;
	while (ch) { ch = false; for (unsigned i = 0; i < a->n; i++) if (re[i]) {
		for (unsigned j = 0; j < a->s[i].ne; j++) {
			const struct nedge *e = &a->s[i].e[j]; bool any = false;
			for (int k = 0; k < 4; k++) { u64 w = e->sym[k]; if (c >= 0 && (c >> 6) == k) w &= ~((u64)1 << (c & 63)); if (w) any = true; }
			if (any && !re[e->to]) { re[e->to] = 1; ch = true; } }
		for (unsigned j = 0; j < a->s[i].neps; j++) if (!re[a->s[i].eps[j]]) { re[a->s[i].eps[j]] = 1; ch = true; } } }
	for (unsigned i = 0; i < a->n; i++) if (re[i] && a->s[i].end) r = false;
	hfree(re); return r;
}
void nfa_dump(const struct nfa *a, int slot) {
	fprintf(stderr, "  [%d] n=%u start=%ld\n", slot, a->n, a->start);
	for (unsigned i = 0; i < a->n && i < 60; i++) {
		const struct nst *s = &a->s[i]; fprintf(stderr, "    %u%s", i, s->end ? "*" : "");
		for (unsigned j = 0; j < s->nids; j++) fprintf(stderr, " #%u", s->ids[j]);
		for (unsigned j = 0; j < s->neo; j++) fprintf(stderr, " !%u", s->eo[j]);
		for (unsigned j = 0; j < s->neps; j++) fprintf(stderr, " e->%u", s->eps[j]);
		for (unsigned j = 0; j < s->ne; j++) { unsigned k = 0; fprintf(stderr, " ["); for (unsigned c = 0; c < 256; c++) if (s->e[j].sym[c >> 6] >> (c & 63) & 1) { if (k++ < 6) fprintf(stderr, c > 32 && c < 127 ? "%c" : "\\%02x", c); } fprintf(stderr, k > 6 ? "..%u]->%u" : "]%.0u->%u", k > 6 ? k : 0, s->e[j].to); }
		fputc('\n', stderr);
	}
}
