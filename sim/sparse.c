/* Lock-step comparison of large automata: subsets as sorted lists, found once each and numbered. */
#include "nfa.h"

struct set { size_t off; unsigned n; u64 h; unsigned *row; bool acc; };
struct den { const struct nfa *m; unsigned *pool; size_t pn, pc; struct set *s; unsigned n, cap, *tab, tabn, *mark, gen, *tmp; };
static int cu(const void *x, const void *y) { const unsigned *a = x, *b = y; return *a < *b ? -1 : *a > *b; }
static void den_init(struct den *d, const struct nfa *m) {
	memset(d, 0, sizeof *d); d->m = m; d->tabn = 1024; d->tab = hcalloc(d->tabn, sizeof *d->tab); d->mark = hcalloc(m->n + 1, sizeof *d->mark); d->tmp = hmalloc((m->n + 1) * sizeof *d->tmp);
}
static void den_fini(struct den *d) { for (unsigned i = 0; i < d->n; i++) hfree(d->s[i].row); hfree(d->pool); hfree(d->s); hfree(d->tab); hfree(d->mark); hfree(d->tmp); }
/* the states in v[0..n), closed under epsilon transitions */
static unsigned den_set(struct den *d, const unsigned *v, unsigned n) {
	unsigned k = 0, g = ++d->gen;
	for (unsigned i = 0; i < n; i++) if (d->mark[v[i]] != g) { d->mark[v[i]] = g; d->tmp[k++] = v[i]; }
	for (unsigned i = 0; i < k; i++) { const struct nst *s = &d->m->s[d->tmp[i]]; for (unsigned j = 0; j < s->neps; j++) if (d->mark[s->eps[j]] != g) { d->mark[s->eps[j]] = g; d->tmp[k++] = s->eps[j]; } }
	if (k > 1) qsort(d->tmp, k, sizeof *d->tmp, cu);
	u64 h = 99; for (unsigned i = 0; i < k; i++) h = mix64(h, d->tmp[i]);
	if (d->n * 2 >= d->tabn) {
		d->tabn *= 2; hfree(d->tab); d->tab = hcalloc(d->tabn, sizeof *d->tab);
		for (unsigned i = 0; i < d->n; i++) { unsigned j = (unsigned)d->s[i].h & (d->tabn - 1); while (d->tab[j]) j = (j + 1) & (d->tabn - 1); d->tab[j] = i + 1; }
	}
	unsigned j = (unsigned)h & (d->tabn - 1);
	for (; d->tab[j]; j = (j + 1) & (d->tabn - 1)) { struct set *s = &d->s[d->tab[j] - 1]; if (s->h == h && s->n == k && (!k || !memcmp(d->pool + s->off, d->tmp, k * sizeof *d->tmp))) return d->tab[j] - 1; }
	if (d->n == d->cap) { d->cap = d->cap ? 2 * d->cap : 64; d->s = hrealloc(d->s, d->cap * sizeof *d->s); }
	while (d->pn + k > d->pc) { d->pc = d->pc ? 2 * d->pc : 4096; d->pool = hrealloc(d->pool, d->pc * sizeof *d->pool); }
	struct set *s = &d->s[d->n]; s->off = d->pn; s->n = k; s->h = h; s->row = NULL; s->acc = false;
	for (unsigned i = 0; i < k; i++) { d->pool[d->pn++] = d->tmp[i]; if (d->m->s[d->tmp[i]].end) s->acc = true; }
	d->tab[j] = ++d->n; return d->n - 1;
}
static const unsigned *den_row(struct den *d, unsigned id) {
	if (d->s[id].row) return d->s[id].row;
	unsigned *row = hmalloc(256 * sizeof *row), n = 0, cap = 64; const struct nedge **es = hmalloc(cap * sizeof *es); u64 sig[256];
	for (int i = 0; i < 256; i++) sig[i] = 7;
	for (unsigned i = 0; i < d->s[id].n; i++) {
		const struct nst *s = &d->m->s[d->pool[d->s[id].off + i]];
		for (unsigned j = 0; j < s->ne; j++) {
			if (n == cap) { cap *= 2; es = hrealloc(es, cap * sizeof *es); }
			es[n++] = &s->e[j]; u64 salt = mix64(n, 5);
			for (int k = 0; k < 4; k++) { u64 w = s->e[j].sym[k]; while (w) { int b = __builtin_ctzll(w); w &= w - 1; sig[k * 64 + b] += salt; } }
		}
	}
	unsigned *v = hmalloc((n + 1) * sizeof *v), reps[256], nr = 0;
	for (unsigned c = 0; c < 256; c++) {
		unsigned r; for (r = 0; r < nr; r++) if (sig[reps[r]] == sig[c]) break;
		if (r < nr) { row[c] = row[reps[r]]; continue; }
		reps[nr++] = c; unsigned k = 0; for (unsigned i = 0; i < n; i++) if (es[i]->sym[c >> 6] >> (c & 63) & 1) v[k++] = es[i]->to;
		row[c] = den_set(d, v, k);
	}
	hfree(v); hfree(es); d->s[id].row = row; return row;
}
static void den_ids(const struct den *d, unsigned id, unsigned **v, unsigned *n) {
	for (unsigned i = 0; i < d->s[id].n; i++) { const struct nst *s = &d->m->s[d->pool[d->s[id].off + i]]; if (!s->end) continue; *v = hrealloc(*v, (*n + s->nids + 1) * sizeof **v); for (unsigned k = 0; k < s->nids; k++) (*v)[(*n)++] = s->ids[k]; }
}
static void uniq(unsigned *v, unsigned *n) { if (!*n) return; qsort(v, *n, sizeof *v, cu); unsigned k = 1; for (unsigned i = 1; i < *n; i++) if (v[i] != v[k - 1]) v[k++] = v[i]; *n = k; }
static void ids_text(char *o, size_t n, const unsigned *v, unsigned k) { size_t p = (size_t)snprintf(o, n, "{"); for (unsigned i = 0; i < k && p + 16 < n; i++) p += (size_t)snprintf(o + p, n - p, "%s%u", i ? "," : "", v[i]); snprintf(o + p, n - p, "}"); }
static unsigned first(struct den *d) { unsigned s = (unsigned)(d->m->start < 0 ? 0 : d->m->start); return den_set(d, &s, d->m->start >= 0); }

int sp_check(const struct nfa *got, const struct spec *sp, unsigned what, size_t budget, char *msg, size_t msgn) {
	unsigned k = sp->n + 1, n = 0, cap = 1024, tabn = 4096; struct den d[MAXPARTS + 1]; size_t work = 0; int res = 1;
	unsigned *key = hmalloc((size_t)cap * k * sizeof *key), *par = hmalloc(cap * sizeof *par), *tab = hcalloc(tabn, sizeof *tab); unsigned char *via = hmalloc(cap);
	for (unsigned q = 0; q < k; q++) { den_init(&d[q], q ? sp->p[q - 1] : got); key[q] = first(&d[q]); }
	par[0] = (unsigned)-1; n = 1; ST(lang_checks);
#define H(p) ({ u64 h_ = 3; for (unsigned q_ = 0; q_ < k; q_++) h_ = mix64(h_, (p)[q_]); (unsigned)h_; })
	{ unsigned j = H(key) & (tabn - 1); tab[j] = 1; }
	for (unsigned i = 0; i < n && res == 1; i++) {
		unsigned cur[MAXPARTS + 1]; memcpy(cur, key + (size_t)i * k, k * sizeof *cur); bool a[MAXPARTS] = { 0 }, ga = d[0].s[cur[0]].acc, dead = true;
		for (unsigned q = 1; q < k; q++) a[q - 1] = d[q].s[cur[q]].acc;
		bool ea = sp->acc ? sp->acc(a, sp->opq) : a[0]; char w[800] = ""; unsigned char buf[300]; size_t l = 0;
		unsigned *gv = NULL, gn = 0, *ev = NULL, en = 0;
		if (ga && ea && (what & CMP_IDS)) { ST(id_checks); den_ids(&d[0], cur[0], &gv, &gn); for (unsigned q = 1; q < k; q++) if (sp->idmask >> (q - 1) & 1) den_ids(&d[q], cur[q], &ev, &en); uniq(gv, &gn); uniq(ev, &en); if (gn) ST(ids_nonempty); }
		bool badids = gn != en || (gn && memcmp(gv, ev, gn * sizeof *gv));
		if (((what & CMP_LANG) && ga != ea) || badids) {
			for (unsigned x = i; par[x] != (unsigned)-1 && l < sizeof buf; x = par[x]) buf[l++] = via[x];
			for (size_t x = 0; x < l / 2; x++) { unsigned char t = buf[x]; buf[x] = buf[l - 1 - x]; buf[l - 1 - x] = t; }
			fmt_bytes(w, sizeof w, buf, l); res = 0;
			if (badids) { char x[200], y[200]; ids_text(x, sizeof x, gv, gn); ids_text(y, sizeof y, ev, en); snprintf(msg, msgn, "input %s reports ids %s but should report %s", w, x, y); }
			else snprintf(msg, msgn, "input %s is %s but should be %s", w, ga ? "accepted" : "rejected", ea ? "accepted" : "rejected");
		}
		hfree(gv); hfree(ev); if (!res) break;
		if ((what & CMP_FIRST) && ga && ea) continue;
		const unsigned *row[MAXPARTS + 1]; for (unsigned q = 0; q < k; q++) { row[q] = den_row(&d[q], cur[q]); work += 260 + d[q].s[cur[q]].n; if (d[q].s[cur[q]].n) dead = false; }
		if (dead) continue;
		for (unsigned c = 0; c < 256; c++) {
			unsigned nx[MAXPARTS + 1]; for (unsigned q = 0; q < k; q++) nx[q] = row[q][c];
			if (n * 2 >= tabn) { tabn *= 4; hfree(tab); tab = hcalloc(tabn, sizeof *tab); for (unsigned x = 0; x < n; x++) { unsigned j = H(key + (size_t)x * k) & (tabn - 1); while (tab[j]) j = (j + 1) & (tabn - 1); tab[j] = x + 1; } }
			unsigned j = H(nx) & (tabn - 1); while (tab[j] && memcmp(key + (size_t)(tab[j] - 1) * k, nx, k * sizeof *nx)) j = (j + 1) & (tabn - 1);
			if (tab[j]) continue;
			if (n == cap) { cap *= 2; key = hrealloc(key, (size_t)cap * k * sizeof *key); par = hrealloc(par, cap * sizeof *par); via = hrealloc(via, cap); }
			memcpy(key + (size_t)n * k, nx, k * sizeof *nx); par[n] = i; via[n] = (unsigned char)c; tab[j] = ++n;
		}
		size_t mem = 0; for (unsigned q = 0; q < k; q++) mem += d[q].pn;
		if ((work + mem > budget) && i + 1 < n) { res = -1; ST(lang_undecided); }
	}
	STN(lang_pairs, n);
	for (unsigned q = 0; q < k; q++) den_fini(&d[q]);
	hfree(key); hfree(par); hfree(tab); hfree(via);
	return res;
}
int sp_equiv(const struct nfa *got, const struct nfa *exp, unsigned what, size_t budget, char *msg, size_t msgn) {
	struct spec s = { .n = 1, .p = { exp }, .acc = NULL, .idmask = 1 }; return sp_check(got, &s, what, budget, msg, msgn);
}
