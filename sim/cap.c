/*
 * Capture paths: strings as chains of states with paths set along them, put together by union, concatenation and merging, taken through a
 * history of transformations. Matching one of the strings reports its own paths exactly. (Paths of other strings which begin alike
 * may be reported as well, so nothing is said about those.)
 */
#define _GNU_SOURCE
#include "ops.h"
#include <errno.h>
#include <fsm/capture.h>

#define MAXS 6
#define MAXP 6
struct cpath { unsigned id, from, to; };
struct cstr { unsigned char s[24]; unsigned n, np; struct cpath p[2 * MAXP]; };
struct lang { struct cstr s[MAXS * MAXS + 4]; unsigned n; }; /* the strings accepted */
struct csrc { const unsigned char *d; size_t n, i; };
static int csrc_getc(void *p) { struct csrc *s = p; return s->i < s->n ? s->d[s->i++] : EOF; }
static bool ok(bool x, const char *what) { if (!x && !sim_fault_fired()) sim_fail("spurious-failure", "step %d: %s failed although nothing was injected (errno %d)", CI, what, errno); return x; }
static struct fsm *chain(struct cstr *c, int al, unsigned endid, struct rng *r) {
	struct fsm *f = fsm_new(sim_allocs[al]); if (!ok(f != NULL, "fsm_new")) return NULL;
	unsigned perm[32]; for (unsigned i = 0; i <= c->n; i++) perm[i] = i;
	if (chance(r, 1, 2)) for (unsigned i = c->n + 1; i > 1; i--) { unsigned j = rn(r, i), t = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = t; }
	if (!ok(fsm_addstate_bulk(f, c->n + 1), "fsm_addstate_bulk")) goto fail;
	for (unsigned i = 0; i < c->n; i++) if (!ok(fsm_addedge_literal(f, perm[i], perm[i + 1], (char)c->s[i]), "fsm_addedge_literal")) goto fail;
	fsm_setstart(f, perm[0]); fsm_setend(f, perm[c->n], 1);
	if (chance(r, 1, 2) && !ok(fsm_endid_set(f, perm[c->n], endid), "fsm_endid_set")) goto fail;
	for (unsigned i = 0; i < c->np; i++) for (unsigned k = chance(r, 1, 8) ? 2 : 1; k; k--) if (!ok(fsm_capture_set_path(f, c->p[i].id, perm[c->p[i].from], perm[c->p[i].to]), "fsm_capture_set_path")) goto fail;
	unsigned count = 0; for (unsigned i = 0; i < c->np; i++) if (c->p[i].id >= count) count = c->p[i].id + 1;
	if (fsm_countcaptures(f) != count) sim_fail("captures-wrong", "step %d: fsm_countcaptures says %u, should be %u", CI, fsm_countcaptures(f), count);
	return f;
fail:
	fsm_free(f); return NULL;
}
/* what two automata are left as by a failure isn't said in the same way everywhere */
static void let_go(struct fsm *a, struct fsm *b) { if (sim_is_live(a)) fsm_free(a); if (sim_is_live(b)) fsm_free(b); }
static void shift(struct lang *L, unsigned from, unsigned to, unsigned by) { for (unsigned i = from; i < to; i++) for (unsigned k = 0; k < L->s[i].np; k++) L->s[i].p[k].id += by; }
/* before states are merged by minimising, only a string which begins as far as that can have somebody else's path reported */
static bool shares(const struct lang *L, const struct cstr *x, unsigned id, const struct fsm_capture *cap) {
	for (unsigned i = 0; i < L->n; i++) for (unsigned k = 0; k < L->s[i].np; k++) { const struct cpath *p = &L->s[i].p[k];
		if (p->id == id && p->to <= x->n && !memcmp(L->s[i].s, x->s, p->to) && cap->pos[0] == p->from && cap->pos[1] == p->to) return true; }
	return false;
}
/* minimising may make what ends one way of reaching a path the same as what comes earlier on another: the path is then on both, and which of them is meant isn't said */
static bool elsewhere(const struct lang *L, const struct cstr *x, unsigned id) {
	for (unsigned i = 0; i < L->n; i++) for (unsigned k = 0; k < L->s[i].np; k++) if (L->s[i].p[k].id == id && (L->s[i].n != x->n || memcmp(L->s[i].s, x->s, x->n))) return true;
	return false;
}
static void check_all(const struct lang *L, const struct fsm *f, bool exact, const char *after) {
	unsigned n = fsm_countcaptures(f); struct fsm_capture *cap = hmalloc((n + 1) * sizeof *cap); char w[120];
	for (unsigned i = 0; i < L->n; i++) {
		const struct cstr *c = &L->s[i]; struct csrc src = { c->s, c->n, 0 }; fsm_state_t e; fmt_bytes(w, sizeof w, c->s, c->n);
		for (unsigned k = 0; k < n; k++) cap[k].pos[0] = cap[k].pos[1] = 777;
		int x = fsm_exec(f, csrc_getc, &src, &e, cap); ST(strings_run);
		if (x != 1) sim_fail("captures-wrong", "step %d: after %s, \"%s\" isn't matched any more", CI, after, w);
		ST(strings_accepted);
		for (unsigned k = 0; k < c->np; k++) {
			const struct cpath *p = &c->p[k];
			if (p->id >= n) sim_fail("captures-wrong", "step %d: after %s, fsm_countcaptures says %u, but there is a capture %u", CI, after, n, p->id);
			if (!exact && elsewhere(L, c, p->id)) continue;
			if (cap[p->id].pos[0] != p->from || cap[p->id].pos[1] != p->to) sim_fail("captures-wrong", "step %d: after %s, matching \"%s\" reports capture %u as %ld to %ld, its path is %u to %u", CI, after, w, p->id, (long)cap[p->id].pos[0], (long)cap[p->id].pos[1], p->from, p->to);
		}
		for (unsigned k = 0; k < n; k++) for (int j = 0; j < 2; j++) if (cap[k].pos[j] != FSM_CAPTURE_NO_POS && cap[k].pos[j] > c->n) sim_fail("captures-wrong", "step %d: after %s, matching \"%s\" reports capture %u at %zu, past the end", CI, after, w, k, cap[k].pos[j]);
		for (unsigned k = 0; exact && k < n; k++) if (cap[k].pos[0] != FSM_CAPTURE_NO_POS && !shares(L, c, k, &cap[k])) sim_fail("captures-wrong", "step %d: after %s, matching \"%s\" reports capture %u as %zu to %zu, which isn't on its way", CI, after, w, k, cap[k].pos[0], cap[k].pos[1]);
	}
	hfree(cap);
}
/* union of strings k..k+n; what is in L from there on is renumbered */
static struct fsm *bundle(struct lang *L, unsigned at, unsigned n, int al, struct rng *r) {
	struct fsm *f[MAXS];
	for (unsigned i = 0; i < n; i++) { f[i] = chain(&L->s[at + i], al, i, r); if (!f[i]) { while (i) fsm_free(f[--i]); return NULL; } }
	if (n == 1) return f[0];
	if (chance(r, 1, 2)) {
		struct fsm_combined_base_pair b[MAXS]; struct fsm *q = fsm_union_array(n, f, b); if (!ok(q != NULL, "fsm_union_array")) return NULL; /* frees them all */
		for (unsigned i = 0; i < n; i++) shift(L, at + i, at + i + 1, b[i].capture);
		return q;
	}
	struct fsm *q = f[0];
	for (unsigned i = 1; i < n; i++) {
		struct fsm_combine_info ci; bool swap = chance(r, 1, 3); struct fsm *a = swap ? f[i] : q, *b = swap ? q : f[i], *x = fsm_union(a, b, &ci);
		if (!ok(x != NULL, "fsm_union")) { let_go(a, b); for (i++; i < n; i++) fsm_free(f[i]); return NULL; }
		q = x; shift(L, at, at + i, swap ? ci.capture_base_b : ci.capture_base_a); shift(L, at + i, at + i + 1, swap ? ci.capture_base_a : ci.capture_base_b);
	}
	return q;
}
static void one(struct cstr *c, struct rng *r, unsigned len, unsigned sigma) {
	c->n = len; for (unsigned i = 0; i < len; i++) c->s[i] = (unsigned char)(chance(r, 1, 12) ? rn(r, 256) : 'a' + rn(r, sigma));
	c->np = rn(r, MAXP); if (c->np > 4) c->np = 1; unsigned id = 0;
	for (unsigned k = 0; k < c->np; k++) { if (chance(r, 1, 6)) id += rn(r, 4); unsigned a = rn(r, len + 1), b = rn(r, len + 1); c->p[k] = (struct cpath) { id++, a < b ? a : b, a < b ? b : a }; }
}
/* capture - alloc strings transforms seed flags */
int op_capture(struct op *o) {
	int al = (int)((unsigned long)o->a[1] % NTAGS); struct rng r = { mix64((u64)o->a[4], 31) }; bool cat = o->a[5] & 1, exact = true; char after[200] = "building";
	unsigned k = 1 + (unsigned)((unsigned long)o->a[2] % (cat ? 3 : 5)), kb = 0, t = (unsigned)((unsigned long)o->a[3] % 8), sigma = 1 + rn(&r, 3), la = 1 + rn(&r, 4);
	struct lang *L = hcalloc(1, sizeof *L); ST(capture_runs);
	for (unsigned i = 0; i < k; i++) { one(&L->s[i], &r, cat ? la : rn(&r, 10), sigma); for (unsigned j = 0; cat && j < i; j++) if (!memcmp(L->s[i].s, L->s[j].s, la)) { i--; break; } if (cat && sigma == 1) { k = 1; } }
	enter();
	struct fsm *f = bundle(L, 0, k, al, &r), *g = NULL; if (!f) goto fail;
	L->n = k;
	if (cat) { /* every string of the one followed by every string of the other */
		kb = 1 + rn(&r, 3); for (unsigned i = 0; i < kb; i++) one(&L->s[k + i], &r, rn(&r, 8), sigma);
		g = bundle(L, k, kb, al, &r); if (!g) { fsm_free(f); goto fail; }
		struct fsm_combine_info ci; struct fsm *q = fsm_concat(f, g, &ci);
		if (!ok(q != NULL, "fsm_concat")) { let_go(f, g); goto fail; }
		f = q; shift(L, 0, k, ci.capture_base_a); shift(L, k, k + kb, ci.capture_base_b);
		struct cstr a[MAXS], b[MAXS]; memcpy(a, L->s, k * sizeof *a); memcpy(b, L->s + k, kb * sizeof *b); L->n = 0;
		for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < kb; j++) {
			struct cstr *c = &L->s[L->n++]; *c = a[i]; memcpy(c->s + c->n, b[j].s, b[j].n);
			/* paths which end where the two meet are set between states which the other string's path goes past, so both are kept */
			for (unsigned x = 0; x < b[j].np && c->np < 2 * MAXP; x++) { struct cpath p = b[j].p[x]; p.from += la; p.to += la; c->p[c->np++] = p; }
			c->n += b[j].n;
		}
		/* others which go along with some of them part of the way, so that states of the second half come to be in several of a DFA's */
		for (unsigned e = rn(&r, 4); e; e--) {
			struct cstr *c = &L->s[L->n], *from = &L->s[rn(&r, L->n)]; unsigned with = rn(&r, from->n + 1), dup = 0; one(c, &r, with + 1 + rn(&r, 4), sigma + 1); memcpy(c->s, from->s, with);
			for (unsigned i = 0; i < L->n; i++) dup |= L->s[i].n == c->n && !memcmp(L->s[i].s, c->s, c->n);
			if (dup || c->n > 20) continue;
			g = chain(c, al, 4, &r); if (!g) { fsm_free(f); goto fail; }
			bool swap = chance(&r, 1, 2); q = swap ? fsm_union(g, f, &ci) : fsm_union(f, g, &ci); if (!ok(q != NULL, "fsm_union")) { let_go(f, g); goto fail; }
			f = q; shift(L, 0, L->n, swap ? ci.capture_base_b : ci.capture_base_a); shift(L, L->n, L->n + 1, swap ? ci.capture_base_a : ci.capture_base_b); L->n++;
		}
	}
	for (unsigned i = 0; i <= t; i++) {
		int x = 1; const char *nm = "nothing"; unsigned what = rn(&r, 16);
		if (i == t) what = 0; /* at last */
		switch (what) {
		case 0: case 1: nm = "fsm_determinise"; x = fsm_determinise(f); break;
		case 2: nm = "fsm_remove_epsilons"; x = fsm_remove_epsilons(f); break;
		case 3: case 4: nm = "fsm_minimise"; x = (fsm_all(f, fsm_isdfa) || fsm_determinise(f)) && fsm_minimise(f); exact = false; break;
		case 5: nm = "fsm_trim"; x = fsm_trim(f, chance(&r, 1, 2) ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; break;
		case 6: case 7: nm = "fsm_clone"; { struct fsm *c = fsm_clone(f); x = c != NULL; if (c) { if (chance(&r, 1, 3) && fsm_all(f, fsm_isdfa)) check_all(L, f, exact, "being cloned"); fsm_free(f); f = c; } } break;
		case 8: nm = "fsm_shuffle"; x = fsm_shuffle(f, rn(&r, 1000)); break;
		case 9: nm = "fsm_vacuum"; x = fsm_vacuum(f); break;
		case 10: nm = "adding states nothing leads to"; { unsigned q = 1 + rn(&r, 3), n = fsm_countstates(f); if (n > 200) break; x = fsm_addstate_bulk(f, q); if (x && chance(&r, 2, 3)) x = fsm_addedge_literal(f, n, rn(&r, n), 'a'); if (x && chance(&r, 1, 3)) x = fsm_shuffle(f, rn(&r, 1000)); } break;
		case 11: nm = "fsm_removestate"; { /* one which nothing leads to */
			unsigned n = fsm_countstates(f), at = rn(&r, n); fsm_state_t st; bool has = fsm_getstart(f, &st);
			for (unsigned j = 0; j < n; j++, at = (at + 1) % n) if (!(has && st == at) && !fsm_hasincoming(f, at)) { x = fsm_removestate(f, at); break; }
			break; }
		case 12: nm = "fsm_merge"; { fsm_state_t st; if (!fsm_getstart(f, &st) || fsm_countstates(f) > 200) break; struct cstr c; one(&c, &r, rn(&r, 4), 3); g = chain(&c, al, 3, &r); if (!g) { x = 0; break; }
			struct fsm_combine_info ci; bool swap = chance(&r, 1, 2); struct fsm *q = swap ? fsm_merge(g, f, &ci) : fsm_merge(f, g, &ci);
			if (!ok(q != NULL, nm)) { let_go(f, g); goto fail; }
			f = q; fsm_setstart(f, st + (swap ? ci.base_b : ci.base_a)); shift(L, 0, L->n, swap ? ci.capture_base_b : ci.capture_base_a); break; }
		case 13: nm = "fsm_complete"; if (fsm_all(f, fsm_isdfa)) x = fsm_complete(f, fsm_isany); break;
		case 14: nm = "fsm_capture_rebase_capture_id"; if (fsm_countcaptures(f)) { unsigned by = rn(&r, 5); fsm_capture_rebase_capture_id(f, by); shift(L, 0, L->n, by); } break;
		case 15: nm = "fsm_capture_set_path"; if (L->n && fsm_all(f, fsm_isdfa)) { /* along one of the strings, in the automaton as it is now */
			struct cstr *c = &L->s[rn(&r, L->n)]; if (c->np == 2 * MAXP) break; unsigned a = rn(&r, c->n + 1), b = rn(&r, c->n + 1), id = fsm_countcaptures(f); if (a > b) { unsigned q = a; a = b; b = q; }
			fsm_state_t s[25];
			struct nfa *m = nfa_extract(f); long q = m->start; bool good = q >= 0; for (unsigned j = 0; good && j <= c->n; j++) { s[j] = (fsm_state_t)q; if (j == c->n) break; long to = -1; for (unsigned e = 0; e < m->s[q].ne; e++) if (m->s[q].e[e].sym[c->s[j] >> 6] >> (c->s[j] & 63) & 1) to = m->s[q].e[e].to; q = to; good = q >= 0; }
			nfa_free(m); if (!good) break; /* check_all says so */
			if (id > 60) break;
			x = fsm_capture_set_path(f, id, s[a], s[b]); if (x) c->p[c->np++] = (struct cpath) { id, a, b }; if (cat) exact = false; /* the second half is shared */ }
			break;
		}
		if (!ok(x, nm)) { fsm_free(f); goto fail; }
		size_t l = strlen(after); if (i) snprintf(after + l, sizeof after - l, ", %s", nm); else snprintf(after, sizeof after, "%s", nm);
		if (i < t && fsm_all(f, fsm_isdfa)) check_all(L, f, exact, after);
	}
	check_all(L, f, exact, after);
	fsm_free(f);
	leave();
	trace_u64(L->n * 31u + t); hfree(L);
	return OP_OK;
fail:
	leave(); hfree(L);
	return OP_FAIL;
}
