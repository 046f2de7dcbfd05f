/* Operations: construction, editing, algebra, transformation. */
#include "hist.h"
#include "ops.h"
#include <fsm/subgraph.h>
#include <errno.h>

static const unsigned char alphabet[] = { 'a', 'b', 'c', 'a', 'b', 'd', 0, 255, '\n', 'z' };
static unsigned char sym(struct rng *r) { return alphabet[chance(r, 7, 8) ? rn(r, 5) : rn(r, sizeof alphabet)]; }
static fsm_end_id_t someid(struct rng *r) { unsigned k = rn(r, 12); return k < 9 ? k : k == 9 ? UINT_MAX : k == 10 ? 1000 + rn(r, 100) : rn(r, 70); }

/* a library call inside a multi-call operation: on failure note it and try once more */
static bool again(bool ok, const char *what, bool *failed) {
	if (ok) return true;
	if (!sim_fault_fired()) sim_fail("spurious-failure", "step %d: %s failed although nothing was injected (errno %d)", CI, what, errno);
	*failed = true;
	return false;
}
#define TRY(call, what) do { if (!again((call), what, &failed)) { ST(retries); if (!again((call), what, &failed)) goto fail; } } while (0)

/* build d alloc nstates nedges seed style: through the construction API, mirrored in the model */
static int op_build(struct op *o) {
	struct slot *s = sl_any(o->a[0]); int al = (int)((unsigned long)o->a[1] % NTAGS);
	unsigned n = (unsigned)o->a[2] % 20, ne = (unsigned)o->a[3] % 60; struct rng r = { mix64((u64)o->a[4], 3) }; unsigned style = (unsigned)o->a[5];
	drop(s);
	struct nfa *m = nfa_new(); bool failed = false; struct fsm *f = NULL;
	enter();
	f = style & 16 ? fsm_new_statealloc(sim_allocs[al], rn(&r, 8)) : fsm_new(sim_allocs[al]);
	if (!again(f != NULL, "fsm_new", &failed)) goto fail;
	if (style & 32) { TRY(fsm_addstate_bulk(f, n), "fsm_addstate_bulk"); while (fsm_countstates(f) > n && n) n = fsm_countstates(f); for (unsigned i = 0; i < fsm_countstates(f); i++) nfa_addstate(m); n = fsm_countstates(f); }
	else for (unsigned i = 0; i < n; i++) { fsm_state_t q; TRY(fsm_addstate(f, &q), "fsm_addstate"); unsigned k = nfa_addstate(m); if (k != q) sim_fail("wrong-result", "step %d: fsm_addstate returned %u, expected %u", CI, q, k); }
	if (n) {
		if (!(style & 64) || chance(&r, 5, 6)) { fsm_state_t q = rn(&r, n); fsm_setstart(f, q); m->start = q; }
		for (unsigned i = 0; i < ne; i++) {
			fsm_state_t x = rn(&r, n), y = rn(&r, n); unsigned k = rn(&r, 16);
			if (style & 1 && chance(&r, 2, 3)) y = (x + 1) % n;
			if (k < 2 && !(style & 2)) { TRY(fsm_addedge_epsilon(f, x, y), "fsm_addedge_epsilon"); nfa_addeps(m, x, y); }
			else if (k < 3 && !(style & 4)) { TRY(fsm_addedge_any(f, x, y), "fsm_addedge_any"); nfa_addany(m, x, y); }
			else { unsigned char c = sym(&r); TRY(fsm_addedge_literal(f, x, y, (char)c), "fsm_addedge_literal"); nfa_addsym(m, x, y, c); }
		}
		unsigned nend = rn(&r, 4); if (n > 6) nend += rn(&r, 3);
		for (unsigned i = 0; i < nend; i++) {
			fsm_state_t x = rn(&r, n); fsm_setend(f, x, 1); m->s[x].end = true;
			if (style & 8) { unsigned k = rn(&r, chance(&r, 1, 6) ? 20 : 3); while (k--) { fsm_end_id_t id = someid(&r); TRY(fsm_endid_set(f, x, id), "fsm_endid_set"); nfa_addid(m, x, id); } }
		}
		if (style & 128) { unsigned k = 1 + rn(&r, 4); while (k--) { fsm_state_t x = rn(&r, n); fsm_output_id_t id = rn(&r, 6); TRY(fsm_eager_output_set(f, x, id), "fsm_eager_output_set"); nfa_addeo(m, x, id); } }
	}
	leave();
	put(s, f, al);
	if (!nfa_same(m, s->snap, M, sizeof M)) sim_fail("wrong-result", "step %d: the automaton built differs from the calls made%s: %s", CI, failed ? " (a failed call was repeated)" : "", M);
	nfa_free(m);
	return OP_OK;
fail:
	leave();
	if (f) { struct nfa *e = nfa_extract(f); nfa_free(e); fsm_free(f); }
	nfa_free(m);
	return OP_FAIL;
}

/* shape d alloc kind size seed: larger regular structures than random edges give */
static void near_ids(struct rng *r, struct nfa *m, unsigned q) {
	static const unsigned pool[] = { 1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 1000, UINT_MAX };
	unsigned k = rn(r, 4), base = rn(r, 3); for (unsigned i = 0; i < k; i++) nfa_addid(m, q, chance(r, 1, 2) ? base + i : pool[rn(r, 12)]);
	if (chance(r, 1, 10)) { k = 3 + rn(r, 40); while (k--) nfa_addid(m, q, rn(r, 200)); }
}
static struct nfa *shape_model(unsigned kind, unsigned size, struct rng *r) {
	struct nfa *m = nfa_new(); unsigned n, ids = rn(r, 3), perm[256]; for (unsigned i = 0; i < 256; i++) perm[i] = i; for (unsigned i = 255; i; i--) { unsigned j = rn(r, i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
#define ST_(k) do { for (unsigned i_ = 0; i_ < (k); i_++) nfa_addstate(m); m->start = 0; } while (0)
#define END_(q) do { unsigned q_ = (q); m->s[q_].end = true; if (ids) near_ids(r, m, q_); } while (0)
	switch (kind % 10) {
	case 0: { n = 2 + size % 75; ST_(n); unsigned char c = (unsigned char)('a' + rn(r, 2)), d = chance(r, 1, 3) ? (unsigned char)('a' + rn(r, 3)) : c; for (unsigned i = 0; i < n; i++) { nfa_addsym(m, i, (i + 1) % n, c); if (d != c) nfa_addsym(m, i, (i + 1) % n, d); } unsigned k = 1 + rn(r, 3); while (k--) END_(rn(r, n)); m->start = rn(r, n); break; }
	case 1: n = 2 + size % 60; ST_(n); for (unsigned i = 0; i + 1 < n; i++) { nfa_addsym(m, i, i + 1, (unsigned char)('a' + rn(r, 2))); if (chance(r, 1, 4)) nfa_addsym(m, i, rn(r, n), (unsigned char)('c' + rn(r, 2))); if (chance(r, 1, 6)) END_(i); } END_(n - 1); break;
	case 2: { unsigned k = 2 + size % 100; n = k + 2; ST_(n); for (unsigned i = 0; i < k; i++) { nfa_addsym(m, 0, i + 1, (unsigned char)perm[i]); if (chance(r, 1, 4)) nfa_addsym(m, 0, i + 1, (unsigned char)perm[255 - i % 100]); m->s[i + 1].end = true; if (ids) near_ids(r, m, i + 1); if (chance(r, 1, 3)) nfa_addsym(m, i + 1, k + 1, 'a'); } END_(k + 1); break; }
	case 3: { n = 2 + size % 40; ST_(n); unsigned k = 1 + rn(r, 3); for (unsigned i = 0; i < n; i++) { for (unsigned j = 0; j < k; j++) nfa_addsym(m, i, rn(r, n), (unsigned char)('a' + j)); if (chance(r, 1, 4)) END_(i); } break; }
	case 4: { ST_(1); unsigned k = 1 + size % 24; while (k--) { unsigned q = 0, l = rn(r, 9); while (l--) { unsigned char c = (unsigned char)('a' + rn(r, 3)); unsigned to = 0; for (unsigned j = 0; j < m->s[q].ne; j++) if (m->s[q].e[j].sym[c >> 6] >> (c & 63) & 1) to = m->s[q].e[j].to; if (!to) { to = nfa_addstate(m); nfa_addsym(m, q, to, c); } q = to; } END_(q); } break; }
	case 5: { n = 2 + size % 50; ST_(n); for (unsigned i = 0; i < n; i++) { if (chance(r, 3, 4)) nfa_addeps(m, i, (i + 1) % n); if (chance(r, 1, 4)) nfa_addeps(m, i, rn(r, n)); if (chance(r, 1, 4)) nfa_addsym(m, i, rn(r, n), (unsigned char)('a' + rn(r, 3))); } unsigned k = 1 + rn(r, 3); while (k--) END_(rn(r, n)); break; }
	case 6: { n = 3 + size % 120; ST_(n); unsigned h = rn(r, n), o = rn(r, 8); for (unsigned i = 0; i < n; i++) if (i != h) { nfa_addsym(m, h, i, (unsigned char)perm[i]); if (chance(r, 1, 3)) nfa_addsym(m, i, h, (unsigned char)perm[i / 2 + o]); if (chance(r, 1, 12)) END_(i); } m->start = chance(r, 1, 2) ? h : rn(r, n); END_(rn(r, n)); break; }
	case 7: { n = 2 + size % 7; ST_(n); nfa_addsym(m, 0, 0, 'a'); nfa_addsym(m, 0, 0, 'b'); nfa_addsym(m, 0, 1, 'a'); for (unsigned i = 1; i + 1 < n; i++) { nfa_addsym(m, i, i + 1, 'a'); nfa_addsym(m, i, i + 1, 'b'); } END_(n - 1); break; }
	case 8: { n = 2 + size % 64; ST_(n); for (unsigned i = 0; i < n; i++) { unsigned w = 1 + rn(r, 40), lo = rn(r, 256 - w), to = (i + 1 + rn(r, 2)) % n; for (unsigned c = lo; c < lo + w; c++) nfa_addsym(m, i, to, (unsigned char)c); if (chance(r, 1, 8)) END_(i); } END_(n - 1); break; }
	case 9: { unsigned k = size < 20 ? 2 + size : size >= 500 ? 256 - size % 3 : 2 + size % 100, same = rn(r, 3); n = k + 1; ST_(n); for (unsigned c = 0; c < 256; c++) { unsigned to = 1 + perm[c] % k; if (same == 1 && k < 256 && c % 2) to = 1; if (k == 254 && c == 9) continue; nfa_addsym(m, 0, to, (unsigned char)c); } for (unsigned i = 1; i < n; i++) { if (chance(r, 1, 4)) nfa_addsym(m, i, rn(r, n), (unsigned char)('a' + rn(r, 3))); if (chance(r, 1, 3)) END_(i); } END_(rn(r, n)); break; }
	}
	return m;
}
static int op_shape(struct op *o) {
	struct slot *s = sl_any(o->a[0]); int al = (int)((unsigned long)o->a[1] % NTAGS); struct rng r = { mix64((u64)o->a[4], 9) };
	drop(s); bool failed = false;
	struct nfa *m = shape_model((unsigned)((unsigned long)o->a[2] % 10), (unsigned)((unsigned long)o->a[3] % 1000), &r);
	/* the calls, in an order of their own */
	struct { unsigned x, y; int c; } *e; unsigned ne = 0, cap = 0; e = NULL;
	for (unsigned i = 0; i < m->n; i++) {
		for (unsigned j = 0; j < m->s[i].ne; j++) for (int c = 0; c < 256; c++) if (m->s[i].e[j].sym[c >> 6] >> (c & 63) & 1) { if (ne == cap) { cap = cap ? cap * 2 : 64; e = hrealloc(e, cap * sizeof *e); } e[ne].x = i; e[ne].y = m->s[i].e[j].to; e[ne++].c = c; }
		for (unsigned j = 0; j < m->s[i].neps; j++) { if (ne == cap) { cap = cap ? cap * 2 : 64; e = hrealloc(e, cap * sizeof *e); } e[ne].x = i; e[ne].y = m->s[i].eps[j]; e[ne++].c = -1; }
	}
	if (o->a[5] & 1) for (unsigned i = ne; i > 1; i--) { unsigned j = rn(&r, i), x = e[i - 1].x, y = e[i - 1].y; int c = e[i - 1].c; e[i - 1] = e[j]; e[j].x = x; e[j].y = y; e[j].c = c; }
	struct fsm *f = NULL;
	enter();
	f = o->a[5] & 2 ? fsm_new_statealloc(sim_allocs[al], m->n) : fsm_new(sim_allocs[al]);
	if (!again(f != NULL, "fsm_new", &failed)) goto fail;
	for (unsigned i = 0; i < m->n; i++) { fsm_state_t q; TRY(fsm_addstate(f, &q), "fsm_addstate"); if (q != i) sim_fail("wrong-result", "step %d: fsm_addstate returned %u, expected %u", CI, q, i); }
	fsm_setstart(f, (fsm_state_t)m->start);
	for (unsigned i = 0; i < ne; i++) if (e[i].c < 0) TRY(fsm_addedge_epsilon(f, e[i].x, e[i].y), "fsm_addedge_epsilon"); else TRY(fsm_addedge_literal(f, e[i].x, e[i].y, (char)e[i].c), "fsm_addedge_literal");
	for (unsigned i = 0; i < m->n; i++) if (m->s[i].end) {
		fsm_setend(f, i, 1); unsigned k = m->s[i].nids;
		if (k) { unsigned at = rn(&r, k); for (unsigned j = 0; j < k; j++) TRY(fsm_endid_set(f, i, m->s[i].ids[o->a[5] & 8 ? (at + k - j) % k : (at + j) % k]), "fsm_endid_set"); }
	}
	leave();
	put(s, f, al);
	if (!nfa_same(m, s->snap, M, sizeof M)) sim_fail("wrong-result", "step %d: the automaton built differs from the calls made%s: %s", CI, failed ? " (a failed call was repeated)" : "", M);
	nfa_free(m); hfree(e);
	return OP_OK;
fail:
	leave();
	if (f) { struct nfa *x = nfa_extract(f); nfa_free(x); fsm_free(f); }
	nfa_free(m); hfree(e);
	return OP_FAIL;
}

/* edit a kind x y c/id */
static int op_edit(struct op *o) {
	struct slot *s = sl(o->a[0]); if (!s || !s->snap->n) return OP_SKIP;
	unsigned n = s->snap->n; fsm_state_t x = (unsigned)o->a[2] % n, y = (unsigned)o->a[3] % n; unsigned v = (unsigned)o->a[4];
	struct nfa *m = nfa_clone(s->snap); bool ok = true; const char *what = "";
	enter();
	switch ((unsigned)o->a[1] % 8) {
	case 0: { fsm_state_t q; what = "fsm_addstate"; ok = fsm_addstate(s->f, &q); if (ok) nfa_addstate(m); break; }
	case 1: what = "fsm_addedge_literal"; ok = fsm_addedge_literal(s->f, x, y, (char)v); if (ok) nfa_addsym(m, x, y, (unsigned char)v); break;
	case 2: what = "fsm_addedge_epsilon"; ok = fsm_addedge_epsilon(s->f, x, y); if (ok) nfa_addeps(m, x, y); break;
	case 3: what = "fsm_addedge_any"; ok = fsm_addedge_any(s->f, x, y); if (ok) nfa_addany(m, x, y); break;
	case 4: if (!m->s[x].end || !(v & 1)) { fsm_setend(s->f, x, v & 1); if (m->s[x].end != (v & 1)) { s->ids_ok = false; } m->s[x].end = v & 1; if (!m->s[x].end) m->s[x].nids = 0; } break;
	case 5: fsm_setstart(s->f, x); m->start = x; break;
	case 6: if (m->s[x].end) { what = "fsm_endid_set"; ok = fsm_endid_set(s->f, x, v); if (ok) nfa_addid(m, x, v); } break;
	case 7: { size_t k = v % 4; what = "fsm_addstate_bulk"; ok = fsm_addstate_bulk(s->f, k); if (ok) while (k--) nfa_addstate(m); break; }
	}
	leave();
	outcome(ok, what);
	resnap(s);
	if (ok || ((unsigned)o->a[1] % 8 != 7 && (unsigned)o->a[1] % 8 != 3)) {
		if (!s->ids_ok) { for (unsigned i = 0; i < m->n; i++) m->s[i].nids = 0; struct nfa *t = nfa_clone(s->snap); for (unsigned i = 0; i < t->n; i++) t->s[i].nids = 0; if (!nfa_same(m, t, M, sizeof M)) sim_fail("wrong-result", "step %d: after %s (%s): %s", CI, what, ok ? "succeeded" : "failed", M); nfa_free(t); }
		else if (!nfa_same(m, s->snap, M, sizeof M)) sim_fail("wrong-result", "step %d: after %s (%s): %s", CI, what, ok ? "succeeded" : "failed", M);
	}
	nfa_free(m);
	return ok ? OP_OK : OP_FAIL;
}

struct gc { const unsigned char *s; size_t n, i; };
static int getc_buf(void *p) { struct gc *g = p; return g->i < g->n ? g->s[g->i++] : EOF; }
static const int dialects[] = { RE_LIKE, RE_LITERAL, RE_GLOB, RE_NATIVE, RE_SQL, RE_PCRE };

/* comp d alloc dialect flags s */
static int op_comp(struct op *o) {
	struct slot *s = sl_any(o->a[0]); int al = (int)((unsigned long)o->a[1] % NTAGS);
	drop(s);
	struct gc g = { o->s, o->n, 0 }; struct re_err err; memset(&err, 0x5a, sizeof err);
	size_t live0 = sim_live_total();
	enter();
	struct fsm *f = re_comp((enum re_dialect)dialects[(unsigned long)o->a[2] % 6], getc_buf, &g, sim_allocs[al], (enum re_flags)o->a[3], &err);
	leave();
	if (!f) {
		ST(compiles_err);
		if ((O & O_ALLOC) && sim_live_total() != live0) sim_fail("leak", "step %d: a failed compile holds %ld blocks", CI, (long)sim_live_total() - (long)live0);
		if (sim_fault_fired()) {
			if (err.e != RE_EERRNO && (O & O_RETRY)) { /* an invalid pattern may be diagnosed before memory runs out: decide by a clean compile */
				g.i = 0; struct re_err e2; struct fault none = { 0 }; sim_enter(CI, none, 0);
				struct fsm *f2 = re_comp((enum re_dialect)dialects[(unsigned long)o->a[2] % 6], getc_buf, &g, sim_allocs[al], (enum re_flags)o->a[3], &e2); sim_leave();
				if (f2) { fsm_free(f2); sim_fail("wrong-error", "step %d: compile ran out of memory but reports error code %#x (%s), not a system error", CI, (unsigned)err.e, re_strerror(err.e)); }
			}
			return OP_FAIL;
		}
		if (err.e == RE_EERRNO) sim_fail("spurious-failure", "step %d: re_comp reports a system error although nothing was injected", CI);
		return OP_SKIP;      /* not a pattern of this dialect */
	}
	ST(compiles_ok);
	if (sim_fault_fired()) { /* success despite a failed allocation must be the right automaton */
		g.i = 0; struct fault none = { 0 }; sim_enter(CI, none, 0);
		struct fsm *f2 = re_comp((enum re_dialect)dialects[(unsigned long)o->a[2] % 6], getc_buf, &g, NULL, (enum re_flags)o->a[3], &err); sim_leave();
		if (!f2) { fsm_free(f); sim_fail("wrong-result", "step %d: compile accepted a pattern under memory pressure that it refuses otherwise", CI); }
		struct nfa *a = nfa_extract(f), *b = nfa_extract(f2);
		int q = nfa_equiv(a, b, CMP_LANG | CMP_IDS, BUDGET, M, sizeof M); want("wrong-result", q);
		nfa_free(a); nfa_free(b); fsm_free(f2);
	}
	put(s, f, al);
	if (s->snap->n > 900) drop(s);
	return OP_OK;
}
static int op_free(struct op *o) { struct slot *s = sl(o->a[0]); if (!s) return OP_SKIP; drop(s); return OP_OK; }

static bool pair(struct op *o, struct slot **a, struct slot **b) {
	*a = sl(o->a[0]); *b = sl(o->a[1]);
	return *a && *b && *a != *b && (*a)->alloc == (*b)->alloc && (*a)->snap->n + (*b)->snap->n < 1200;
}
static void both_settle(struct slot *a, struct slot *b) { settle(a); settle(b); }

static int op_union(struct op *o) {
	struct slot *a, *b; if (!pair(o, &a, &b)) return OP_SKIP;
	if ((a->snap->n && !has_start(a)) || (b->snap->n && !has_start(b))) return OP_SKIP;
	struct nfa *ma = a->snap, *mb = b->snap; a->snap = b->snap = NULL; a->touched = b->touched = true;
	bool ok_ids = a->ids_ok && b->ids_ok; struct fsm_combine_info ci;
	enter();
	struct fsm *q = fsm_union(a->f, b->f, o->a[2] & 1 ? &ci : NULL);
	leave();
	outcome(q != NULL, "fsm_union");
	if (!q) { both_settle(a, b); nfa_free(ma); nfa_free(mb); return OP_FAIL; }
	int al = a->alloc; forget(a); forget(b); put(a, q, al); a->ids_ok = ok_ids;
	unsigned two = 2; struct spec sp = { .n = 2, .p = { ma, mb }, .acc = acc_or, .opq = &two, .idmask = 3 };
	if (O & (O_LANG | O_IDS)) want("wrong-language", nfa_check(a->snap, &sp, cmpmask(a) & ~CMP_EAGER, BUDGET, M, sizeof M));
	nfa_free(ma); nfa_free(mb);
	return OP_OK;
}
static int op_union_array(struct op *o) {
	struct slot *v[4]; unsigned n = 0; int al = -1; size_t tot = 0;
	for (int i = 0; i < 4; i++) { if (o->a[i] < 0) continue; struct slot *s = sl(o->a[i]); if (!s) continue; bool dup = false; for (unsigned j = 0; j < n; j++) if (v[j] == s) dup = true; if (dup) continue; if (al >= 0 && s->alloc != al) continue; if (s->snap->n && !has_start(s)) continue; if (tot + s->snap->n > 1500) continue; al = s->alloc; tot += s->snap->n; v[n++] = s; }
	if (!n) return OP_SKIP;
	struct nfa *m[4]; struct fsm *f[4]; struct fsm_combined_base_pair bases[4]; bool ids = true;
	for (unsigned i = 0; i < n; i++) { m[i] = v[i]->snap; v[i]->snap = NULL; f[i] = v[i]->f; v[i]->touched = true; ids = ids && v[i]->ids_ok; }
	enter();
	struct fsm *q = fsm_union_array(n, f, o->a[4] & 1 ? bases : NULL);
	leave();
	outcome(q != NULL, "fsm_union_array");
	if (!q) { for (unsigned i = 0; i < n; i++) { if (sim_is_live(v[i]->f)) { if (O & O_LEAK) sim_fail("leak", "step %d: fsm_union_array failed and did not free operand %u as documented", CI, i); } forget(v[i]); nfa_free(m[i]); } return OP_FAIL; }
	for (unsigned i = 0; i < n; i++) forget(v[i]);
	put(v[0], q, al); v[0]->ids_ok = ids;
	struct spec sp = { .n = n, .acc = acc_or, .opq = &n, .idmask = (1u << n) - 1 }; for (unsigned i = 0; i < n; i++) sp.p[i] = m[i];
	if (O & (O_LANG | O_IDS)) want("wrong-language", nfa_check(v[0]->snap, &sp, cmpmask(v[0]) & ~CMP_EAGER, BUDGET, M, sizeof M));
	for (unsigned i = 0; i < n; i++) nfa_free(m[i]);
	return OP_OK;
}
static int op_concat(struct op *o) {
	struct slot *a, *b; if (!pair(o, &a, &b)) return OP_SKIP;
	bool zero = !a->snap->n || !b->snap->n;
	if (!zero && (!has_start(a) || !has_start(b) || !nfa_hasend(a->snap))) return OP_SKIP;
	struct nfa *ma = a->snap, *mb = b->snap; a->snap = b->snap = NULL; a->touched = b->touched = true; struct fsm_combine_info ci; bool ids = b->ids_ok;
	enter();
	struct fsm *q = fsm_concat(a->f, b->f, o->a[2] & 1 ? &ci : NULL);
	leave();
	outcome(q != NULL, "fsm_concat");
	if (!q) { both_settle(a, b); nfa_free(ma); nfa_free(mb); return OP_FAIL; }
	int al = a->alloc; forget(a); forget(b); put(a, q, al); a->ids_ok = ids;
	if (!zero && (O & (O_LANG | O_IDS))) {
		struct nfa *x = nfa_clone(ma); unsigned base = nfa_append(x, mb);
		for (unsigned i = 0; i < ma->n; i++) if (ma->s[i].end) { x->s[i].end = false; x->s[i].nids = 0; nfa_addeps(x, i, base + (unsigned)mb->start); }
		x->start = ma->start;
		want("wrong-language", nfa_equiv(a->snap, x, cmpmask(a) & ~CMP_EAGER, BUDGET, M, sizeof M));
		nfa_free(x);
	}
	if (zero) a->ids_ok = false;
	nfa_free(ma); nfa_free(mb);
	return OP_OK;
}
static int binop(struct op *o, bool sub) {
	struct slot *a, *b; if (!pair(o, &a, &b)) return OP_SKIP;
	if (!has_start(a) || !has_start(b)) return OP_SKIP;
	if (!small_enough(a, DFAMAX) || !small_enough(b, DFAMAX)) return OP_SKIP;
	unsigned da = nfa_dfasize(a->snap, DFAMAX), db = nfa_dfasize(b->snap, DFAMAX); if (da * db > 6000) { ST(big_dfa_skips); return OP_SKIP; }
	struct nfa *ma = a->snap, *mb = b->snap; a->snap = b->snap = NULL; a->touched = b->touched = true;
	bool ids = a->ids_ok && (b->ids_ok || sub);
	enter();
	struct fsm *q = sub ? fsm_subtract(a->f, b->f) : fsm_intersect(a->f, b->f);
	leave();
	outcome(q != NULL, sub ? "fsm_subtract" : "fsm_intersect");
	if (!q) {
		both_settle(a, b);
		if (O & O_RETRY) {
			if (a->f) want("operand-damaged", nfa_equiv(a->snap, ma, CMP_LANG | ((O & O_IDS) && a->ids_ok ? CMP_IDS : 0), BUDGET, M, sizeof M));
			if (b->f) want("operand-damaged", nfa_equiv(b->snap, mb, CMP_LANG | ((O & O_IDS) && b->ids_ok ? CMP_IDS : 0), BUDGET, M, sizeof M));
		}
		nfa_free(ma); nfa_free(mb); return OP_FAIL;
	}
	int al = a->alloc; forget(a); forget(b); put(a, q, al); a->ids_ok = ids;
	unsigned two = 2; struct spec sp = { .n = 2, .p = { ma, mb }, .acc = sub ? acc_sub : acc_and, .opq = &two, .idmask = sub ? 1 : 3 };
	if (O & (O_LANG | O_IDS)) want("wrong-language", nfa_check(a->snap, &sp, cmpmask(a) & ~CMP_EAGER, BUDGET, M, sizeof M));
	if (O & O_POST) if (!nfa_isdfa(a->snap)) sim_fail("post-walk", "step %d: intersecting or subtracting deterministic automata gave a nondeterministic one", CI);
	nfa_free(ma); nfa_free(mb);
	return OP_OK;
}
static int op_intersect(struct op *o) { return binop(o, false); }
static int op_subtract(struct op *o) { return binop(o, true); }
static int op_charset(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || !ensure_dfa(a)) return OP_SKIP;
	struct nfa *cs = nfa_new(); nfa_addstate(cs); cs->start = 0; cs->s[0].end = true; for (size_t i = 0; i < o->n; i++) nfa_addsym(cs, 0, 0, o->s[i]);
	struct nfa *ma = a->snap; a->snap = NULL; a->touched = true; bool ids = a->ids_ok; bool null = !o->s && (o->a[1] & 1);
	enter();
	struct fsm *q = fsm_intersect_charset(a->f, o->n, null ? NULL : o->s ? (char *)o->s : "");
	leave();
	outcome(q != NULL, "fsm_intersect_charset");
	if (!q) { settle(a); if (a->f && (O & O_RETRY)) want("operand-damaged", nfa_equiv(a->snap, ma, CMP_LANG, BUDGET, M, sizeof M)); nfa_free(ma); nfa_free(cs); return OP_FAIL; }
	int al = a->alloc; forget(a); put(a, q, al); a->ids_ok = ids;
	unsigned two = 2; struct spec sp = { .n = null ? 1 : 2, .p = { ma, cs }, .acc = null ? NULL : acc_and, .opq = &two, .idmask = 1 };
	if (O & (O_LANG | O_IDS)) want("wrong-language", nfa_check(a->snap, &sp, cmpmask(a) & ~CMP_EAGER, BUDGET, M, sizeof M));
	nfa_free(ma); nfa_free(cs);
	return OP_OK;
}
static int op_complement(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || !small_enough(a, 100)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_complement(a->f); leave();
	outcome(r, "fsm_complement"); settle(a);
	if (!a->f && r) sim_fail("wrong-result", "step %d: complement freed its operand", CI);
	if (r) {
		a->ids_ok = false;
		struct spec sp = { .n = 1, .p = { ma }, .acc = acc_not, .idmask = 0 };
		if (O & O_LANG) want("wrong-language", nfa_check(a->snap, &sp, CMP_LANG, BUDGET, M, sizeof M));
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_reverse(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || a->snap->n > 700) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_reverse(a->f); leave();
	outcome(r, "fsm_reverse"); settle(a);
	if (!a->f && r) sim_fail("wrong-result", "step %d: fsm_reverse freed its operand", CI);
	if (r) {
		a->ids_ok = false;
		struct nfa *x = nfa_reverse(ma);
		if (O & O_LANG) want("wrong-language", nfa_equiv(a->snap, x, CMP_LANG, BUDGET, M, sizeof M));
		nfa_free(x);
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static bool all_coreach(const struct nfa *a) {
	unsigned char *re = hmalloc(a->n + 1), *co = hmalloc(a->n + 1); nfa_marks(a, re, co, NULL); bool ok = true;
	for (unsigned i = 0; i < a->n; i++) if (re[i] && !co[i]) ok = false;
	hfree(re); hfree(co); return ok;
}
static void preserved(struct slot *a, const struct nfa *ma, unsigned m) {
	if (O & (O_LANG | O_IDS | O_EAGER)) want("language-changed", nfa_equiv(a->snap, ma, m, BUDGET, M, sizeof M));
}
static int op_determinise(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || !small_enough(a, DFAMAX)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_determinise(a->f); leave();
	outcome(r, "fsm_determinise"); settle(a);
	if (r) {
		if (!nfa_isdfa(a->snap)) sim_fail("post-determinise", "step %d: fsm_determinise succeeded but the result is not deterministic", CI);
		preserved(a, ma, cmpmask(a));
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
/* detlimit a limit: exact semantics decided against an unlimited run on a clone */
static int op_detlimit(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || !small_enough(a, DFAMAX)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	struct fault none = { 0 }; sim_enter(CI, none, 0);
	struct fsm *c = fsm_clone(a->f); if (!c || !fsm_determinise(c)) sim_fail("spurious-failure", "step %d: clone and determinise failed", CI);
	sim_leave();
	size_t full = fsm_countstates(c); fsm_free(c);
	size_t most = full > ma->n ? full : ma->n;
	size_t lim = (unsigned long)o->a[1] % 3 == 0 ? most + ((unsigned long)o->a[2] % 5) - 2 : (unsigned long)o->a[2] % (most + 3);
	if ((long)lim < 0) lim = 0;
	struct fsm_determinise_config cfg = { .state_limit = lim };
	enter(); enum fsm_determinise_with_config_res r = fsm_determinise_with_config(a->f, &cfg); leave();
	bool fired = sim_fault_fired(); settle(a);
	if (r == FSM_DETERMINISE_WITH_CONFIG_ERRNO) { outcome(false, "fsm_determinise_with_config"); nfa_free(ma); return OP_FAIL; }
	if (r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) {
		ST(limit_hit);
		if (lim == 0) sim_fail("limit-unjustified", "step %d: no limit was set, but the limit was reported reached", CI);
		if (lim >= most && !fired) sim_fail("limit-unjustified", "step %d: limit %zu reported reached although the automaton has %u states and the unlimited result %zu", CI, lim, ma->n, full);
		if (nfa_equiv(a->snap, ma, cmpmask(a), BUDGET, M, sizeof M) == 0) want("limit-side-effect", 0);
	} else {
		ST(limit_not_hit);
		if (!nfa_isdfa(a->snap)) sim_fail("post-determinise", "step %d: not deterministic", CI);
		if (lim && a->snap->n > lim) sim_fail("limit-exceeded", "step %d: limit %zu, result has %u states", CI, lim, a->snap->n);
		if (a->snap->n != full && !fired) sim_fail("limit-changed-result", "step %d: result under limit %zu has %u states, without limit %zu", CI, lim, a->snap->n, full);
		preserved(a, ma, cmpmask(a));
	}
	nfa_free(ma);
	return OP_OK;
}
static int op_minimise(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || !ensure_dfa(a)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_minimise(a->f); leave();
	outcome(r, "fsm_minimise"); settle(a);
	if (r) {
		preserved(a, ma, cmpmask(a));
		if (O & O_POST) {
			if (!nfa_isdfa(a->snap)) sim_fail("post-minimise", "step %d: fsm_minimise gave a nondeterministic automaton", CI);
			if (!nfa_haseo(ma) && a->ids_ok) {
				unsigned k = nfa_minsize(ma, DFAMAX + 5); ST(min_checks);
				if (k <= DFAMAX + 5 && a->snap->n > (k ? k : 1)) sim_fail("post-minimise", "step %d: fsm_minimise left %u states where %u suffice", CI, a->snap->n, k);
			}
		}
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_trim(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); bool both = o->a[1] & 1, wantd = both && (o->a[1] & 2);
	unsigned *dist = NULL;
	enter(); long r = fsm_trim(a->f, both ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, wantd ? &dist : NULL); leave();
	outcome(r >= 0, "fsm_trim"); settle(a);
	if (r >= 0) {
		unsigned char *re = hmalloc(ma->n + 1), *co = hmalloc(ma->n + 1); nfa_marks(ma, re, co, NULL);
		unsigned k = 0; for (unsigned i = 0; i < ma->n; i++) if (re[i] && (!both || co[i])) k++;
		unsigned m = cmpmask(a); if (both && !all_coreach(ma)) m &= ~CMP_EAGER;
		if (O & O_POST) {
			if (a->snap->n != k) sim_fail("post-trim", "step %d: fsm_trim(%s) left %u states, %u are useful of %u", CI, both ? "start and end" : "start", a->snap->n, k, ma->n);
			if ((unsigned long)r != ma->n - k) sim_fail("post-trim", "step %d: fsm_trim returned %ld, removed %u", CI, r, ma->n - k);
			unsigned char *re2 = hmalloc(k + 1), *co2 = hmalloc(k + 1); unsigned *d2 = hmalloc((k + 1) * sizeof *d2);
			nfa_marks(a->snap, re2, co2, d2);
			for (unsigned i = 0; i < k; i++) { if (!re2[i] || (both && !co2[i])) sim_fail("post-trim", "step %d: state %u is still useless after trimming", CI, i); if (wantd && dist && !nfa_haseps(a->snap) && dist[i] != d2[i]) sim_fail("post-trim", "step %d: reported distance to an end from state %u is %u, really %u", CI, i, dist[i], d2[i]); }
			if (wantd && k && !dist) sim_fail("post-trim", "step %d: no distances returned", CI);
			hfree(re2); hfree(co2); hfree(d2);
		}
		preserved(a, ma, m);
		hfree(re); hfree(co);
		if (dist) { if (a->alloc) sim_allocs[a->alloc]->free(sim_allocs[a->alloc]->opaque, dist); else free(dist); }
	}
	nfa_free(ma);
	return r >= 0 ? OP_OK : OP_FAIL;
}
static int op_rmeps(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || a->snap->n > 500) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_remove_epsilons(a->f); leave();
	outcome(r, "fsm_remove_epsilons"); settle(a);
	if (r) { if (nfa_haseps(a->snap)) sim_fail("post-epsilons", "step %d: epsilon transitions remain after fsm_remove_epsilons", CI); preserved(a, ma, cmpmask(a)); }
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_clone(struct op *o) {
	struct slot *a = sl(o->a[0]), *d = sl_any(o->a[1]); if (!a || a == d) return OP_SKIP;
	drop(d);
	enter(); struct fsm *q = fsm_clone(a->f); leave();
	outcome(q != NULL, "fsm_clone");
	if (!q) return OP_FAIL;
	put(d, q, a->alloc); d->ids_ok = a->ids_ok;
	if (!nfa_same(a->snap, d->snap, M, sizeof M)) sim_fail("wrong-clone", "step %d: the clone differs: %s", CI, M);
	return OP_OK;
}
static int op_shuffle(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_shuffle(a->f, (unsigned)o->a[1]); leave();
	outcome(r, "fsm_shuffle"); settle(a);
	if (r) {
		if (O & O_POST) { if (a->snap->n != ma->n || nfa_edges(a->snap) != nfa_edges(ma)) sim_fail("post-shuffle", "step %d: renumbering changed the number of states or edges (%u/%u, %u/%u)", CI, a->snap->n, ma->n, nfa_edges(a->snap), nfa_edges(ma)); }
		preserved(a, ma, cmpmask(a));
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_vacuum(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); bool r = fsm_vacuum(a->f); leave();
	outcome(r, "fsm_vacuum"); settle(a);
	if (!nfa_same(ma, a->snap, M, sizeof M)) want("language-changed", 0);
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_complete(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || !small_enough(a, 100)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap);
	enter(); int r = fsm_complete(a->f, fsm_isany); leave();
	outcome(r, "fsm_complete"); settle(a);
	if (r) {
		if (O & O_POST) {
			if (!nfa_isdfa(a->snap)) sim_fail("post-complete", "step %d: fsm_complete left a nondeterministic automaton", CI);
			for (unsigned i = 0; i < a->snap->n; i++) { unsigned c = 0; for (unsigned j = 0; j < a->snap->s[i].ne; j++) for (int k = 0; k < 4; k++) c += (unsigned)__builtin_popcountll(a->snap->s[i].e[j].sym[k]); if (c != 256) sim_fail("post-complete", "step %d: state %u has %u of 256 transitions after fsm_complete", CI, i, c); }
		}
		preserved(a, ma, cmpmask(a));
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_merge(struct op *o) {
	struct slot *a, *b; if (!pair(o, &a, &b)) return OP_SKIP;
	struct nfa *ma = a->snap, *mb = b->snap; a->snap = b->snap = NULL; a->touched = b->touched = true;
	struct fsm_combine_info ci; bool ids = a->ids_ok && b->ids_ok;
	enter(); struct fsm *q = fsm_merge(a->f, b->f, &ci); leave();
	outcome(q != NULL, "fsm_merge");
	if (!q) { both_settle(a, b); nfa_free(ma); nfa_free(mb); return OP_FAIL; }
	int al = a->alloc; forget(a); forget(b); put(a, q, al); a->ids_ok = ids;
	struct nfa *x;
	if (ci.base_a == 0 && (ci.base_b == ma->n)) { x = nfa_clone(ma); nfa_append(x, mb); }
	else if (ci.base_b == 0 && ci.base_a == mb->n) { x = nfa_clone(mb); nfa_append(x, ma); }
	else { sim_fail("wrong-result", "step %d: fsm_merge reports bases %u and %u for %u and %u states", CI, ci.base_a, ci.base_b, ma->n, mb->n); }
	x->start = -1;
	if (!ids) { for (unsigned i = 0; i < x->n; i++) x->s[i].nids = 0; for (unsigned i = 0; i < a->snap->n; i++) a->snap->s[i].nids = 0; }
	if (!nfa_same(x, a->snap, M, sizeof M)) want("wrong-result", 0);
	nfa_free(x);
	if (ma->start >= 0) { fsm_setstart(q, ci.base_a + (fsm_state_t)ma->start); }
	resnap(a);
	nfa_free(ma); nfa_free(mb);
	return OP_OK;
}
static int op_move(struct op *o) {
	struct slot *a, *b; if (!pair(o, &a, &b)) return OP_SKIP;
	struct nfa *mb = b->snap; b->snap = NULL; bool ids = b->ids_ok;
	enter(); fsm_move(a->f, b->f); leave();
	forget(b); resnap(a); a->ids_ok = ids;
	if (!nfa_same(mb, a->snap, M, sizeof M)) want("language-changed", 0);
	nfa_free(mb);
	return OP_OK;
}
struct filt { const unsigned char *keep; };
static int filt_cb(fsm_state_t s, void *p) { return ((struct filt *)p)->keep[s]; }
static struct nfa *filtered(const struct nfa *m, const unsigned char *keep) {
	struct nfa *x = nfa_new(); unsigned *map = hmalloc((m->n + 1) * sizeof *map), k = 0;
	for (unsigned i = 0; i < m->n; i++) if (keep[i]) { map[i] = k++; nfa_addstate(x); }
	for (unsigned i = 0; i < m->n; i++) if (keep[i]) {
		unsigned q = map[i]; x->s[q].end = m->s[i].end;
		for (unsigned j = 0; j < m->s[i].nids; j++) nfa_addid(x, q, m->s[i].ids[j]);
		for (unsigned j = 0; j < m->s[i].neo; j++) nfa_addeo(x, q, m->s[i].eo[j]);
		for (unsigned j = 0; j < m->s[i].neps; j++) if (keep[m->s[i].eps[j]]) nfa_addeps(x, q, map[m->s[i].eps[j]]);
		for (unsigned j = 0; j < m->s[i].ne; j++) if (keep[m->s[i].e[j].to]) for (int c = 0; c < 256; c++) if (m->s[i].e[j].sym[c >> 6] >> (c & 63) & 1) nfa_addsym(x, q, map[m->s[i].e[j].to], (unsigned char)c);
	}
	if (m->start >= 0 && keep[m->start]) x->start = map[m->start];
	hfree(map); return x;
}
static int op_compact(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); struct rng r = { mix64((u64)o->a[1], 9) };
	unsigned char *keep = hmalloc(ma->n + 1); unsigned kept = 0; for (unsigned i = 0; i < ma->n; i++) { keep[i] = !chance(&r, 1, 2 + (unsigned)o->a[2] % 8) || (long)i == ma->start; kept += keep[i]; }
	struct filt ft = { keep }; size_t removed = 12345;
	enter(); int q = fsm_compact_states(a->f, filt_cb, &ft, &removed); leave();
	outcome(q, "fsm_compact_states"); settle(a);
	if (q) {
		struct nfa *x = filtered(ma, keep);
		if (removed != ma->n - kept) sim_fail("wrong-result", "step %d: fsm_compact_states says it removed %zu of %u states, asked for %u", CI, removed, ma->n, ma->n - kept);
		if (a->snap->n != x->n) sim_fail("wrong-result", "step %d: %u states left, expected %u", CI, a->snap->n, x->n);
		want("wrong-result", nfa_equiv(a->snap, x, cmpmask(a) & ~CMP_EAGER, BUDGET, M, sizeof M));
		nfa_free(x);
	}
	hfree(keep); nfa_free(ma);
	return q ? OP_OK : OP_FAIL;
}
static int op_rmstate(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->snap->n) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); fsm_state_t x = (unsigned)o->a[1] % ma->n;
	enter(); int q = fsm_removestate(a->f, x); leave();
	outcome(q, "fsm_removestate"); settle(a);
	if (q) {
		unsigned char *keep = hmalloc(ma->n); memset(keep, 1, ma->n); keep[x] = 0;
		struct nfa *e = filtered(ma, keep);
		if (a->snap->n != e->n) sim_fail("wrong-result", "step %d: %u states after removing one of %u", CI, a->snap->n, ma->n);
		if ((e->start >= 0) != (a->snap->start >= 0)) sim_fail("wrong-result", "step %d: start state wrong after removal", CI);
		want("wrong-result", nfa_equiv(a->snap, e, cmpmask(a) & ~CMP_EAGER, BUDGET, M, sizeof M));
		nfa_free(e); hfree(keep);
	}
	nfa_free(ma);
	return q ? OP_OK : OP_FAIL;
}
static int op_mergestates(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || a->snap->n < 2) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); fsm_state_t x = (unsigned)o->a[1] % ma->n, y = (unsigned)o->a[2] % ma->n, z = 0;
	if (x == y) { nfa_free(ma); return OP_SKIP; }
	enter(); int q = fsm_mergestates(a->f, x, y, &z); leave();
	outcome(q, "fsm_mergestates"); settle(a);
	if (q) {
		/* quotient: y's and x's behaviour become one state's: join them by epsilons both ways */
		if (a->snap->n != ma->n - 1) sim_fail("wrong-result", "step %d: %u states after merging two of %u", CI, a->snap->n, ma->n);
		if (z >= a->snap->n) sim_fail("wrong-result", "step %d: fsm_mergestates returned state %u of %u", CI, z, a->snap->n);
		nfa_addeps(ma, x, y); nfa_addeps(ma, y, x);
		want("wrong-result", nfa_equiv(a->snap, ma, CMP_LANG, BUDGET, M, sizeof M));
		a->ids_ok = false;
	}
	nfa_free(ma);
	return q ? OP_OK : OP_FAIL;
}
static int op_subgraph(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->snap->n || a->snap->n > 200) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); unsigned n = ma->n;
	struct fsm_subgraph sg; sg.start = (unsigned)o->a[1] % n; sg.end = sg.start + 1 + (unsigned)o->a[2] % (n - sg.start);
	fsm_state_t x = sg.start + (unsigned)o->a[3] % (sg.end - sg.start), q, ox = x;
	bool eo = false; for (unsigned i = sg.start; i < sg.end; i++) if (ma->s[i].neo) eo = true;
	enter(); int r = fsm_subgraph_duplicate(a->f, &sg, o->a[3] & 1 ? NULL : &x, &q); leave();
	outcome(r, "fsm_subgraph_duplicate"); settle(a);
	if (r) {
		if (q != n) sim_fail("wrong-result", "step %d: duplicated subgraph starts at %u, expected %u", CI, q, n);
		if (!(o->a[3] & 1) && x != n + (ox - sg.start)) sim_fail("wrong-result", "step %d: tracked state %u became %u", CI, ox, x);
		for (unsigned i = sg.start; i < sg.end; i++) nfa_addstate(ma);
		for (unsigned i = sg.start; i < sg.end; i++) {
			unsigned t = n + i - sg.start; ma->s[t].end = ma->s[i].end;
			for (unsigned j = 0; j < ma->s[i].neps; j++) { unsigned d = ma->s[i].eps[j]; if (d >= sg.start && d < sg.end) nfa_addeps(ma, t, n + d - sg.start); }
			for (unsigned j = 0; j < ma->s[i].ne; j++) { unsigned d = ma->s[i].e[j].to; if (d >= sg.start && d < sg.end) for (int c = 0; c < 256; c++) if (ma->s[i].e[j].sym[c >> 6] >> (c & 63) & 1) nfa_addsym(ma, t, n + d - sg.start, (unsigned char)c); }
		}
		for (unsigned i = 0; i < ma->n; i++) ma->s[i].nids = 0;
		struct nfa *g = nfa_clone(a->snap); for (unsigned i = 0; i < g->n; i++) g->s[i].nids = 0;
		for (unsigned i = n; i < ma->n && i < g->n; i++) { g->s[i].neo = 0; }
		if (!nfa_same(ma, g, M, sizeof M)) want("wrong-result", 0);
		nfa_free(g); (void)eo;
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_collate(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a) return OP_SKIP;
	unsigned ends = 0; for (unsigned i = 0; i < a->snap->n; i++) if (a->snap->s[i].end) ends++;
	if (!ends) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); fsm_state_t q;
	enter(); int r = fsm_collate(a->f, &q, fsm_isend); leave();
	outcome(r, "fsm_collate"); settle(a);
	if (r) {
		if (ends == 1) { if (q >= ma->n || !ma->s[q].end) sim_fail("wrong-result", "step %d: fsm_collate returned state %u", CI, q); }
		else { unsigned t = nfa_addstate(ma); if (q != t) sim_fail("wrong-result", "step %d: fsm_collate returned state %u, expected new state %u", CI, q, t); for (unsigned i = 0; i < t; i++) if (ma->s[i].end) nfa_addeps(ma, i, t); }
		if (!a->ids_ok) { for (unsigned i = 0; i < ma->n; i++) ma->s[i].nids = 0; for (unsigned i = 0; i < a->snap->n; i++) a->snap->s[i].nids = 0; }
		if (!nfa_same(ma, a->snap, M, sizeof M)) want("wrong-result", 0);
		resnap(a);
	}
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_equal(struct op *o) {
	struct slot *a = sl(o->a[0]), *b = sl(o->a[1]); if (!a || !b || a->alloc != b->alloc || !has_start(a) || !has_start(b)) return OP_SKIP;
	if (!small_enough(a, DFAMAX) || !small_enough(b, DFAMAX)) return OP_SKIP;
	if (nfa_dfasize(a->snap, DFAMAX) * nfa_dfasize(b->snap, DFAMAX) > 6000) return OP_SKIP;
	enter(); int r = fsm_equal(a->f, b->f); leave();
	bool fired = sim_fault_fired();
	if (r == -1) { outcome(false, "fsm_equal"); return OP_FAIL; }
	int e = nfa_equiv(a->snap, b->snap, CMP_LANG, BUDGET, M, sizeof M);
	if (e >= 0 && r != e) sim_fail("wrong-answer", "step %d: fsm_equal says %d%s, but %s", CI, r, fired ? " after an allocation failed" : "", e ? "the languages are equal" : M);
	return OP_OK;
}
static int op_empty(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a)) return OP_SKIP;
	enter(); int r = fsm_empty(a->f); leave();
	if (r == -1) { outcome(false, "fsm_empty"); return OP_FAIL; }
	bool e = nfa_empty_without(a->snap, -1);
	if (r != (e ? 1 : 0)) sim_fail("wrong-answer", "step %d: fsm_empty says %d%s for an automaton that is %s", CI, r, sim_fault_fired() ? " after an allocation failed" : "", e ? "empty" : "not empty");
	return OP_OK;
}
/* ids */
static int op_setendid(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->ids_ok) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); unsigned id = (unsigned)o->a[1];
	enter(); int r = o->a[2] & 1 ? fsm_eager_output_set_on_ends(a->f, id) : fsm_setendid(a->f, id); leave();
	outcome(r, "fsm_setendid"); settle(a);
	for (unsigned i = 0; i < ma->n; i++) if (ma->s[i].end) {
		if (r) { if (o->a[2] & 1) nfa_addeo(ma, i, id); else nfa_addid(ma, i, id); }
		else { /* each end state has it or not; mirror what is there */
			bool has = false; const struct nst *g = &a->snap->s[i]; if (o->a[2] & 1) { for (unsigned k = 0; k < g->neo; k++) has |= g->eo[k] == id; } else for (unsigned k = 0; k < g->nids; k++) has |= g->ids[k] == id;
			if (has) { if (o->a[2] & 1) nfa_addeo(ma, i, id); else nfa_addid(ma, i, id); } }
	}
	if (!nfa_same(ma, a->snap, M, sizeof M)) want("wrong-result", 0);
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
static int op_eagerset(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->snap->n) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); fsm_state_t x = (unsigned)o->a[1] % ma->n;
	enter(); int r = fsm_eager_output_set(a->f, x, (unsigned)o->a[2]); leave();
	outcome(r, "fsm_eager_output_set"); settle(a);
	if (r) nfa_addeo(ma, x, (unsigned)o->a[2]);
	if (!nfa_same(ma, a->snap, M, sizeof M)) want("wrong-result", 0);
	nfa_free(ma);
	return r ? OP_OK : OP_FAIL;
}
struct remap { int mode; long stop; struct nfa *m; unsigned char *seen; long calls, after; bool stopped; const struct nfa *orig; };
static int remap_cb(fsm_state_t s, size_t n, fsm_end_id_t *ids, size_t *w, void *p) {
	struct remap *e = p; sim_suspend();
	if (e->stopped) e->after++;
	if (s >= e->m->n) sim_fail("wrong-ids", "step %d: fsm_mapendids named state %u of %u", CI, s, e->m->n);
	if (e->orig->s[s].end) {
		if (e->seen[s]) sim_fail("wrong-ids", "step %d: fsm_mapendids visited state %u twice", CI, s);
		if (n != e->orig->s[s].nids) sim_fail("wrong-ids", "step %d: fsm_mapendids passed %zu ids for state %u, which has %u", CI, n, s, e->orig->s[s].nids);
		for (size_t i = 0; i < n; i++) if (ids[i] != e->orig->s[s].ids[i]) sim_fail("wrong-ids", "step %d: fsm_mapendids passed id %u for state %u, expected %u", CI, ids[i], s, e->orig->s[s].ids[i]);
		e->seen[s] = 1; e->calls++;
	}
	size_t k = n; if (e->mode & 4 && n > 1) k = 1 + (s + n) % n;
	for (size_t i = 0; i < k; i++) switch (e->mode & 3) { case 0: ids[i] /= 2; break; case 1: ids[i] = 1000 - ids[i]; break; case 2: ids[i] = 7; break; case 3: ids[i] ^= 5; break; }
	if (e->orig->s[s].end) { e->m->s[s].nids = 0; for (size_t i = 0; i < k; i++) nfa_addid(e->m, s, ids[i]); }
	*w = k;
	int go = 1;
	if (e->stop >= 0 && e->calls > e->stop) { e->stopped = true; go = 0; ST(cancelled); }
	sim_resume();
	return go;
}
static int op_mapids(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->ids_ok || !nfa_hasids(a->snap)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); unsigned char *seen = hcalloc(ma->n + 1, 1);
	struct remap e = { (int)((unsigned long)o->a[1] % 8), o->a[2], nfa_clone(ma), seen, 0, 0, false, ma };
	unsigned withids = 0; for (unsigned i = 0; i < ma->n; i++) if (ma->s[i].end && ma->s[i].nids) withids++;
	enter(); int r = fsm_mapendids(a->f, remap_cb, &e); leave();
	resnap(a);
	if (e.after) sim_fail("callback-after-stop", "step %d: fsm_mapendids called again %ld times after being told to stop", CI, e.after);
	if (r != (e.stopped ? 0 : 1)) sim_fail("wrong-answer", "step %d: fsm_mapendids returned %d, callback stopped: %d", CI, r, e.stopped);
	if (!e.stopped && e.calls != (long)withids) sim_fail("wrong-ids", "step %d: fsm_mapendids visited %ld of %u states with ids", CI, e.calls, withids);
	if (!nfa_same(e.m, a->snap, M, sizeof M)) want("wrong-ids", 0);
	nfa_free(e.m); nfa_free(ma); hfree(seen);
	return OP_OK;
}
static int op_incrids(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->ids_ok || !nfa_hasids(a->snap)) return OP_SKIP;
	struct nfa *ma = nfa_clone(a->snap); int d = (int)o->a[1];
	enter(); fsm_increndids(a->f, d); leave(); resnap(a);
	for (unsigned i = 0; i < ma->n; i++) { unsigned k = ma->s[i].nids; unsigned *v = hmalloc((k + 1) * sizeof *v); memcpy(v, ma->s[i].ids, k * sizeof *v); ma->s[i].nids = 0; for (unsigned j = 0; j < k; j++) nfa_addid(ma, i, v[j] + (unsigned)d); hfree(v); }
	if (!nfa_same(ma, a->snap, M, sizeof M)) want("wrong-ids", 0);
	nfa_free(ma);
	return OP_OK;
}
/* read-only queries against the model, including cancelled walks */
struct walk { long left, calls, after; bool stopped; struct nfa *todo; bool bad; unsigned next; };
static int walk_tick(struct walk *w) { if (w->stopped) w->after++; w->calls++; if (w->left >= 0 && w->left-- == 0) { w->stopped = true; ST(cancelled); return 0; } return 1; }
static int walk_s(const struct fsm *f, fsm_state_t s, void *p) { struct walk *w = p; (void)f; if (s != w->next++) w->bad = true; return walk_tick(p); }
/* what is visited is taken off the model, so that a second visit isn't found */
static int walk_l(const struct fsm *f, fsm_state_t a, fsm_state_t b, char ch, void *p) {
	struct walk *w = p; unsigned c = (unsigned char)ch; bool hit = false; (void)f;
	if (a < w->todo->n) for (unsigned j = 0; j < w->todo->s[a].ne; j++) { struct nedge *e = &w->todo->s[a].e[j]; if (e->to == b && e->sym[c >> 6] >> (c & 63) & 1) { e->sym[c >> 6] &= ~((u64)1 << (c & 63)); hit = true; break; } }
	if (!hit) w->bad = true;
	return walk_tick(p);
}
static int walk_e(const struct fsm *f, fsm_state_t a, fsm_state_t b, void *p) {
	struct walk *w = p; bool hit = false; (void)f;
	if (a < w->todo->n) { struct nst *s = &w->todo->s[a]; for (unsigned j = 0; j < s->neps; j++) if (s->eps[j] == b) { s->eps[j] = s->eps[--s->neps]; hit = true; break; } }
	if (!hit) w->bad = true;
	return walk_tick(p);
}
/* what the predicates say about one state */
static bool query_state(const struct fsm *f, const struct nfa *m, unsigned x) {
	const struct nst *s = &m->s[x]; u64 all[4] = { 0 }; unsigned best = 0, deg = 0; bool in = false, det = s->neps == 0, failed = false;
	for (unsigned j = 0; j < s->ne; j++) { unsigned k = 0; for (int i = 0; i < 4; i++) { if (all[i] & s->e[j].sym[i]) det = false; all[i] |= s->e[j].sym[i]; k += (unsigned)__builtin_popcountll(s->e[j].sym[i]); } deg += k; if (k > best) best = k; }
	for (unsigned i = 0; i < m->n && !in; i++) { for (unsigned j = 0; j < m->s[i].ne; j++) in |= m->s[i].e[j].to == x; for (unsigned j = 0; j < m->s[i].neps; j++) in |= m->s[i].eps[j] == x; }
	bool full = true; for (int i = 0; i < 4; i++) full &= all[i] == ~(u64)0;
#define SAYS(call, exp) do { int q_ = (call); if (!!q_ != (exp)) sim_fail("wrong-answer", "step %d: %s says %d for state %u", CI, #call, q_, x); } while (0)
	SAYS(fsm_isany(f, x), true); SAYS(fsm_isend(f, x), s->end); SAYS(fsm_isdfa(f, x), det && m->start >= 0); SAYS(fsm_iscomplete(f, x), full); SAYS(fsm_hasepsilons(f, x), s->neps > 0);
	SAYS(fsm_hasincoming(f, x), in); SAYS(fsm_hasoutgoing(f, x), deg > 0 || s->neps > 0); SAYS(fsm_epsilonsonly(f, x), deg == 0 && s->neps > 0);
#undef SAYS
	/* labels met more than once in the epsilon closure */
	unsigned char *seen = hcalloc(m->n, 1); unsigned *st = hmalloc(m->n * sizeof *st), top = 0; bool nd = false; memset(all, 0, sizeof all);
	st[top++] = x; seen[x] = 1;
	while (top) { const struct nst *q = &m->s[st[--top]]; for (unsigned j = 0; j < q->ne; j++) for (int i = 0; i < 4; i++) { if (all[i] & q->e[j].sym[i]) nd = true; all[i] |= q->e[j].sym[i]; } for (unsigned j = 0; j < q->neps; j++) if (!seen[q->eps[j]]) { seen[q->eps[j]] = 1; st[top++] = q->eps[j]; } }
	hfree(seen); hfree(st);
	int q = fsm_hasnondeterminism(f, x);
	if (q == -1) failed = true; else if (q != nd) sim_fail("wrong-answer", "step %d: fsm_hasnondeterminism says %d for state %u, should be %d", CI, q, x, nd);
	unsigned freq = 12345; fsm_state_t mode = fsm_findmode(f, x, &freq);
	if (best < 2) { if (mode != (fsm_state_t)-1 || freq != 12345) sim_fail("wrong-answer", "step %d: fsm_findmode says state %u %u times for state %u, which has no mode", CI, mode, freq, x); }
	else {
		unsigned k = 0; for (unsigned j = 0; j < s->ne; j++) if (s->e[j].to == mode) for (int i = 0; i < 4; i++) k += (unsigned)__builtin_popcountll(s->e[j].sym[i]);
		if (k != best || freq != best) sim_fail("wrong-answer", "step %d: fsm_findmode says state %u %u times for state %u, which has %u edges there and a mode of %u", CI, mode, freq, x, k, best);
	}
	return !failed;
}
static int op_query(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a) return OP_SKIP; const struct nfa *m = a->snap; unsigned n = m->n;
	unsigned ends = 0, eps = 0; for (unsigned i = 0; i < n; i++) { ends += m->s[i].end; eps += m->s[i].neps; }
	struct walk w;
	enter();
	bool failed = false;
	if (fsm_countstates(a->f) != n) sim_fail("wrong-answer", "step %d: fsm_countstates", CI);
	if (fsm_count(a->f, fsm_isend) != ends) sim_fail("wrong-answer", "step %d: fsm_count(isend) is %u, should be %u", CI, fsm_count(a->f, fsm_isend), ends);
	if (fsm_has(a->f, fsm_isend) != (ends > 0)) sim_fail("wrong-answer", "step %d: fsm_has(isend)", CI);
	if (fsm_all(a->f, fsm_isend) != (ends == n)) sim_fail("wrong-answer", "step %d: fsm_all(isend)", CI);
	if (m->start >= 0 && fsm_all(a->f, fsm_isdfa) != nfa_isdfa(m)) sim_fail("wrong-answer", "step %d: fsm_all(isdfa) is %d", CI, fsm_all(a->f, fsm_isdfa));
	if (fsm_has(a->f, fsm_hasepsilons) != nfa_haseps(m)) sim_fail("wrong-answer", "step %d: fsm_has(hasepsilons)", CI);
	w = (struct walk) { (long)((unsigned long)o->a[1] % (n + 2)), 0, 0, false, NULL, false, 0 }; if (o->a[2] & 1) w.left = -1;
	long left = w.left; int r = fsm_walk_states(a->f, &w, walk_s);
	if (w.after || r != (w.stopped ? 0 : 1) || (!w.stopped && w.calls != n) || (left >= 0 && left < (long)n && w.calls != left + 1)) sim_fail("callback-after-stop", "step %d: fsm_walk_states: %ld calls, %ld after stop, returned %d", CI, w.calls, w.after, r);
	if (w.bad) sim_fail("wrong-answer", "step %d: fsm_walk_states visited a state out of turn", CI);
	unsigned ne = nfa_edges(m);
	if (fsm_countedges(a->f) != ne) sim_fail("wrong-answer", "step %d: fsm_countedges says %u, should be %u", CI, fsm_countedges(a->f), ne);
	for (unsigned i = 0, k = n < 6 ? n : 6; i < k; i++) if (!query_state(a->f, m, ((unsigned)o->a[3] + i) % n)) failed = true;
	w = (struct walk) { (long)((unsigned long)o->a[1] % (ne + eps + 2)), 0, 0, false, nfa_clone(m), false, 0 }; if (o->a[2] & 2) w.left = -1; left = w.left;
	r = fsm_walk_edges(a->f, &w, walk_l, walk_e);
	if (w.after || r != (w.stopped ? 0 : 1) || (!w.stopped && w.calls != ne + eps) || (left >= 0 && left < (long)(ne + eps) && w.calls != left + 1)) sim_fail("callback-after-stop", "step %d: fsm_walk_edges: %ld calls of %u, %ld after stop, returned %d", CI, w.calls, ne + eps, w.after, r);
	if (w.bad) sim_fail("wrong-answer", "step %d: fsm_walk_edges visited an edge twice, or one which isn't there", CI);
	nfa_free(w.todo);
	if (n) {
		fsm_state_t x = (unsigned)o->a[3] % n; unsigned char *re = hmalloc(n), *co = hmalloc(n);
		struct nfa *t = nfa_clone(m); t->start = x; nfa_marks(t, re, co, NULL); nfa_free(t);
		bool any = false, all = true; for (unsigned i = 0; i < n; i++) if (re[i]) { any |= m->s[i].end; all &= m->s[i].end; }
		int q = fsm_reachableany(a->f, x, fsm_isend);
		if (q == -1) failed = true; else if (q != any) sim_fail("wrong-answer", "step %d: fsm_reachableany says %d", CI, q);
		q = fsm_reachableall(a->f, x, fsm_isend);
		if (q == -1) failed = true; else if (q != all) sim_fail("wrong-answer", "step %d: fsm_reachableall says %d, should be %d", CI, q, all);
		hfree(re); hfree(co);
	}
	leave();
	if (failed) { outcome(false, "fsm_reachable"); return OP_FAIL; }
	return OP_OK;
}
/* string sets */
static int op_strnew(struct op *o) {
	struct strset *r = &W.r[(unsigned long)o->a[0] % NSETS];
	if (r->g) { re_strings_free(r->g); r->g = NULL; }
	for (unsigned i = 0; i < r->n; i++) hfree(r->e[i].s);
	r->n = 0; r->dirty = false;
	enter(); r->g = re_strings_new(); leave();
	outcome(r->g != NULL, "re_strings_new");
	return r->g ? OP_OK : OP_FAIL;
}
static void remember(struct strset *r, const unsigned char *s, size_t n, bool hasid, unsigned id) {
	if (r->n == r->cap) { r->cap = r->cap ? 2 * r->cap : 16; r->e = hrealloc(r->e, r->cap * sizeof *r->e); }
	r->e[r->n].s = hmalloc(n + 1); memcpy(r->e[r->n].s, s, n); r->e[r->n].n = n; r->e[r->n].hasid = hasid; r->e[r->n].id = id; r->n++;
}
static int op_stradd(struct op *o) {
	struct strset *r = &W.r[(unsigned long)o->a[0] % NSETS]; if (!r->g || r->n > 40) return OP_SKIP;
	fsm_end_id_t id = (unsigned)o->a[1]; bool hasid = o->a[2] & 1; const unsigned char *s = o->s ? o->s : (const unsigned char *)"";
	enter();
	int q = o->a[2] & 2 && !memchr(s, 0, o->n) ? re_strings_add_str(r->g, (const char *)s, hasid ? &id : NULL) : re_strings_add_raw(r->g, s, o->n, hasid ? &id : NULL);
	leave();
	outcome(q, "re_strings_add");
	if (q) remember(r, s, o->n, hasid, id);
	return q ? OP_OK : OP_FAIL;
}
static struct nfa *str_model(struct strset *r, int flags) {
	struct nfa *m = nfa_new(); unsigned st = nfa_addstate(m); m->start = st;
	if (!(flags & RE_STRINGS_ANCHOR_LEFT)) nfa_addany(m, st, st);
	for (unsigned i = 0; i < r->n; i++) {
		unsigned p = st; /* fresh chain so ids stay apart */
		unsigned q = nfa_addstate(m); nfa_addeps(m, p, q); p = q;
		for (size_t k = 0; k < r->e[i].n; k++) { q = nfa_addstate(m); nfa_addsym(m, p, q, r->e[i].s[k]); p = q; }
		m->s[p].end = true; if (r->e[i].hasid) nfa_addid(m, p, r->e[i].id);
		if (!(flags & RE_STRINGS_ANCHOR_RIGHT)) nfa_addany(m, p, p);
	}
	return m;
}
static int op_strbuild(struct op *o) {
	struct strset *r = &W.r[(unsigned long)o->a[0] % NSETS]; struct slot *s = sl_any(o->a[1]); if (!r->g) return OP_SKIP;
	static const int fl[] = { RE_STRINGS_ANCHOR_LEFT | RE_STRINGS_ANCHOR_RIGHT, RE_STRINGS_ANCHOR_RIGHT, RE_STRINGS_ANCHOR_LEFT, 0, RE_STRINGS_AC_AUTOMATON };
	int flags = fl[(unsigned long)o->a[2] % 5]; int al = (int)((unsigned long)o->a[3] % NTAGS);
	drop(s);
	enter(); struct fsm *f = re_strings_build(r->g, sim_allocs[al], (enum re_strings_flags)flags); leave();
	outcome(f != NULL, "re_strings_build");
	if (!f) return OP_FAIL;
	put(s, f, al);
	if (flags & RE_STRINGS_AC_AUTOMATON) flags = RE_STRINGS_ANCHOR_RIGHT;
	struct nfa *m = str_model(r, flags);
	int what = CMP_LANG; if (O & O_IDS) what |= CMP_IDS;
	bool anyid = false; for (unsigned i = 0; i < r->n; i++) anyid |= r->e[i].hasid;
	if (anyid && !(flags & RE_STRINGS_ANCHOR_RIGHT)) { /* the built state for a string with an id is not a sink: known, reported under its own class */
		want("wrong-string-set", nfa_equiv(s->snap, m, (unsigned)what | CMP_FIRST, BUDGET, M, sizeof M));
		if ((O & O_STRID) && (o->a[4] & 15) == 0) want("wrong-string-set-unanchored-ids", nfa_equiv(s->snap, m, (unsigned)what, BUDGET, M, sizeof M));
	} else want("wrong-string-set", nfa_equiv(s->snap, m, (unsigned)what, BUDGET, M, sizeof M));
	if ((O & O_POST) && !nfa_isdfa(s->snap)) sim_fail("wrong-string-set", "step %d: string set automaton is not deterministic", CI);
	nfa_free(m);
	return OP_OK;
}
static int op_strfree(struct op *o) {
	struct strset *r = &W.r[(unsigned long)o->a[0] % NSETS]; if (!r->g) return OP_SKIP;
	re_strings_free(r->g); r->g = NULL;
	return OP_OK;
}
/* strings d alloc flags s (NUL separated): the one-call interface */
static int op_strings(struct op *o) {
	struct slot *d = sl_any(o->a[0]); int al = (int)((unsigned long)o->a[1] % NTAGS); drop(d);
	static const int fl[] = { 3, 2, 1, 0 }; int flags = fl[(unsigned long)o->a[2] % 4];
	const char *v[32]; size_t k = 0; size_t i = 0; struct strset t = { 0 };
	while (i < o->n && k < 32) { v[k] = (char *)o->s + i; size_t l = strlen(v[k]); remember(&t, o->s + i, l, false, 0); k++; i += l + 1; }
	enter(); struct fsm *f = re_strings(sim_allocs[al], v, k, (enum re_strings_flags)flags); leave();
	outcome(f != NULL, "re_strings");
	if (f) { put(d, f, al); struct nfa *m = str_model(&t, flags); want("wrong-string-set", nfa_equiv(d->snap, m, CMP_LANG, BUDGET, M, sizeof M)); nfa_free(m); }
	for (unsigned j = 0; j < t.n; j++) hfree(t.e[j].s);
	hfree(t.e);
	return f ? OP_OK : OP_FAIL;
}
#define OPS1 \
	{ "shape", op_shape, 0 }, { "build", op_build, 0 }, { "edit", op_edit, 0 }, { "comp", op_comp, 0 }, { "free", op_free, OF_FREE }, \
	{ "union", op_union, 0 }, { "unionarray", op_union_array, 0 }, { "concat", op_concat, 0 }, \
	{ "intersect", op_intersect, 0 }, { "subtract", op_subtract, 0 }, { "charset", op_charset, 0 }, \
	{ "complement", op_complement, OF_INPLACE }, { "reverse", op_reverse, OF_INPLACE }, \
	{ "determinise", op_determinise, OF_INPLACE }, { "detlimit", op_detlimit, OF_INPLACE }, { "minimise", op_minimise, OF_INPLACE }, \
	{ "trim", op_trim, OF_INPLACE }, { "rmeps", op_rmeps, OF_INPLACE }, { "clone", op_clone, 0 }, { "shuffle", op_shuffle, OF_INPLACE }, \
	{ "vacuum", op_vacuum, OF_INPLACE }, { "complete", op_complete, OF_INPLACE }, { "merge", op_merge, 0 }, { "move", op_move, 0 }, \
	{ "compact", op_compact, 0 }, { "rmstate", op_rmstate, 0 }, { "mergestates", op_mergestates, 0 }, { "subgraph", op_subgraph, 0 }, \
	{ "collate", op_collate, OF_INPLACE }, { "equal", op_equal, OF_READ }, { "empty", op_empty, OF_READ }, \
	{ "setendid", op_setendid, 0 }, { "eagerset", op_eagerset, 0 }, { "mapids", op_mapids, OF_FREE }, { "incrids", op_incrids, OF_FREE }, \
	{ "query", op_query, OF_READ }, { "strnew", op_strnew, 0 }, { "stradd", op_stradd, 0 }, { "strbuild", op_strbuild, 0 }, \
	{ "strfree", op_strfree, OF_FREE }, { "strings", op_strings, 0 }
const struct opdef opdefs[] = { OPS1, OPS2 };
const int nopdefs = sizeof opdefs / sizeof opdefs[0];
