/* Large automata: thresholds of the encodings and of the growing tables, far beyond what the other operations build. */
#define _GNU_SOURCE
#include "ops.h"
#include <fsm/capture.h>

bool parse_try(const unsigned char *d, size_t n, int chunk, int bufmode, long errat, int al, u64 seed, struct fsm **out);
unsigned char *text_of(struct fsm *f, const struct fsm_options *fo, size_t *n);
#define BIGBUDGET 60000000u

static long step(const struct nfa *m, long q, unsigned char c) {
	for (unsigned j = 0; j < m->s[q].ne; j++) if (m->s[q].e[j].sym[c >> 6] >> (c & 63) & 1) return m->s[q].e[j].to;
	return -1;
}
/* a deterministic automaton of n states */
static struct nfa *big_model(unsigned kind, unsigned n, struct rng *r, bool ids) {
	struct nfa *m = nfa_new(); for (unsigned i = 0; i < n; i++) nfa_addstate(m);
	m->start = chance(r, 1, 4) ? rn(r, n) : 0; unsigned deg = 2 + rn(r, 7), span = 1 + rn(r, 6), ends = 2 + rn(r, 40); unsigned char at[256];
	for (unsigned i = 0; i < 256; i++) at[i] = (unsigned char)i;
	for (unsigned i = 255; i; i--) { unsigned j = rn(r, i + 1); unsigned char t = at[i]; at[i] = at[j]; at[j] = t; }
	for (unsigned i = 0; i < n; i++) {
		unsigned k = kind == 1 ? 1 + (chance(r, 1, 3) ? 1 : 0) : deg, off = kind == 3 ? rn(r, 16) : 0;
		for (unsigned j = 0; j < k; j++) {
			unsigned to = j == 0 && kind != 2 ? (i + 1) % n : chance(r, 1, 3) ? (i + rn(r, 40)) % n : rn(r, n);
			if (kind == 4) to = (i * 2 + j) % n;
			if (span > 1 && kind != 1) { unsigned lo = (off + j) * (256 / 32); for (unsigned c = lo; c < lo + span; c++) nfa_addsym(m, i, to, (unsigned char)c); }
			else nfa_addsym(m, i, to, at[off + j]);
		}
		if (chance(r, 1, ends) || i == n - 1) { m->s[i].end = true; if (ids) { unsigned q = 1 + rn(r, 3); while (q--) nfa_addid(m, i, rn(r, 5)); } }
	}
	return m;
}
/* wide: some states lead by one byte to ranges of hundreds of states, each of which another byte tells apart */
static struct nfa *wide_model(unsigned size, struct rng *r, bool ids) {
	struct nfa *m = nfa_new(); unsigned w = 200 + size % 1100, ns = 1 + rn(r, 4), nt = 2 + w / 256, pre = rn(r, 70); bool first = chance(r, 1, 2);
	if (!first) while (pre--) nfa_addstate(m);
	unsigned s = nfa_addstate(m), src[4]; m->start = s; for (unsigned i = 0; i < ns; i++) src[i] = nfa_addstate(m);
	unsigned L = m->n; for (unsigned i = 0; i < w; i++) nfa_addstate(m);
	unsigned T = m->n; for (unsigned i = 0; i < nt; i++) { nfa_addstate(m); m->s[T + i].end = chance(r, 2, 3); if (ids && m->s[T + i].end) nfa_addid(m, T + i, rn(r, 9)); }
	unsigned how = rn(r, 4), block = 2 + rn(r, 100), stride = chance(r, 1, 4) ? 1 + rn(r, 5) : 1;
	for (unsigned i = 0; i < ns; i++) {
		nfa_addsym(m, s, src[i], 'a'); if (chance(r, 1, 4)) nfa_addsym(m, s, src[i], (unsigned char)('a' + i));
		unsigned lo = chance(r, 1, 3) ? 0 : rn(r, w / 2), hi = chance(r, 1, 3) ? w : w / 2 + 1 + rn(r, w / 2); unsigned char c = chance(r, 4, 5) ? 'b' : 'c';
		for (unsigned j = lo; j < hi; j += stride) if (how == 0) nfa_addeps(m, src[i], L + j); else nfa_addsym(m, src[i], L + j, c);
		if (how == 1 && chance(r, 1, 2)) nfa_addeps(m, src[i], L + rn(r, w));
	}
	for (unsigned j = 0; j < w; j++) {
		nfa_addsym(m, L + j, T + j / 256, (unsigned char)j);
		if (how == 2 && j + 1 < w && j % block) nfa_addeps(m, L + j, L + j + 1); /* long chains of epsilon transitions */
		if (how == 3 && j) nfa_addeps(m, L + j, L + (j - 1) / 2);
		if (chance(r, 1, 30)) { m->s[L + j].end = true; if (ids) nfa_addid(m, L + j, chance(r, 1, 2) ? j : rn(r, 6)); }
	}
	for (unsigned i = 0; i < nt; i++) { if (chance(r, 1, 2)) nfa_addsym(m, T + i, src[rn(r, ns)], 'd'); if (chance(r, 1, 4)) nfa_addeps(m, T + i, src[rn(r, ns)]); }
	if (first) while (pre--) nfa_addstate(m);
	return m;
}
static struct fsm *big_build(const struct nfa *m, struct rng *r) {
	struct fsm *f = chance(r, 1, 2) ? fsm_new(NULL) : fsm_new_statealloc(NULL, m->n); if (!f) return NULL;
	if (chance(r, 1, 2)) { if (!fsm_addstate_bulk(f, m->n)) return NULL; } else for (unsigned i = 0; i < m->n; i++) { fsm_state_t q; if (!fsm_addstate(f, &q)) return NULL; }
	for (unsigned i = 0; i < m->n; i++) {
		for (unsigned j = 0; j < m->s[i].ne; j++) for (int c = 0; c < 256; c++) if (m->s[i].e[j].sym[c >> 6] >> (c & 63) & 1) if (!fsm_addedge_literal(f, i, m->s[i].e[j].to, (char)c)) return NULL;
		for (unsigned j = 0; j < m->s[i].neps; j++) if (!fsm_addedge_epsilon(f, i, m->s[i].eps[j])) return NULL;
		if (m->s[i].end) { fsm_setend(f, i, 1); for (unsigned j = 0; j < m->s[i].nids; j++) if (!fsm_endid_set(f, i, m->s[i].ids[j])) return NULL; }
	}
	fsm_setstart(f, (fsm_state_t)m->start);
	return f;
}
/* a walk: mostly along edges */
static size_t walk(const struct nfa *m, struct rng *r, unsigned char *buf, size_t max) {
	size_t l = 0, want = rn(r, (unsigned)max + 1); long q = m->start;
	while (l < want && q >= 0) {
		if (!m->s[q].ne || chance(r, 1, 400)) { buf[l++] = (unsigned char)rn(r, 256); q = step(m, q, buf[l - 1]); continue; }
		const struct nedge *e = &m->s[q].e[rn(r, m->s[q].ne)]; unsigned c = rn(r, 256); while (!(e->sym[c >> 6] >> (c & 63) & 1)) c = (c + 1) & 255;
		buf[l++] = (unsigned char)c; q = e->to;
	}
	return l;
}
struct src { const unsigned char *d; size_t n, i; };
static int src_getc(void *p) { struct src *s = p; return s->i < s->n ? s->d[s->i++] : EOF; }
int fsm_dfavm_save(FILE *f, const struct fsm_dfavm *vm); int fsm_dfavm_load(FILE *f, struct fsm_dfavm *vm);

static void big_run(const struct nfa *m, const struct fsm *f, const struct fsm_dfavm *vm, struct rng *r, unsigned n, const char *what) {
	unsigned char *buf = hmalloc(9000); struct fsm_capture cap[4];
	for (unsigned k = 0; k < n; k++) {
		size_t l = walk(m, r, buf, chance(r, 1, 4) ? 8500 : 200); long q = m->start; for (size_t i = 0; i < l && q >= 0; i++) q = step(m, q, buf[i]);
		bool exp = q >= 0 && m->s[q].end; int x; ST(vm_runs); ST(strings_run); if (exp) ST(strings_accepted);
		if (f) { struct src s = { buf, l, 0 }; fsm_state_t e = 0; x = fsm_exec(f, src_getc, &s, &e, cap); if (x != exp || (exp && e != (unsigned)q)) sim_fail("exec-differs", "step %d: fsm_exec says %d (state %u) for an input of %zu bytes to %u states, expected %d (state %ld)", CI, x, e, l, m->n, exp, q); }
		x = fsm_vm_match_buffer(vm, (const char *)buf, l);
		if (x != exp) sim_fail("vm-differs", "step %d: %s over a buffer says %d for an input of %zu bytes to %u states, expected %d", CI, what, x, l, m->n, exp);
		if (chance(r, 1, 3)) {
			struct stream st; stream_init(&st, buf, l, rnd(r), (int)rn(r, 3) - 1, -1); FILE *in = stream_reader(&st, (int)rn(r, 5));
			x = fsm_vm_match_file(vm, in); fclose(in); stream_fini(&st);
			if (x != exp) sim_fail("vm-differs", "step %d: %s over a file says %d for an input of %zu bytes to %u states, expected %d", CI, what, x, l, m->n, exp);
		}
	}
	hfree(buf);
}

static void check_lang(const struct nfa *got, const struct nfa *m, unsigned cm, const char *cls, const char *nm, unsigned n) {
	int c = sp_equiv(got, m, cm, BIGBUDGET, M, sizeof M);
	if (c == 0) { char t[1500]; snprintf(t, sizeof t, "step %d: %s of %u states: %s", CI, nm, n, M); sim_fail(cls, "%s", t); }
	trace_u64((u64)(c + 1));
}
static unsigned cmps(void) { unsigned cm = (O & O_LANG ? CMP_LANG : 0) | (O & O_IDS ? CMP_IDS : 0); return cm ? cm : CMP_LANG; }
static bool judged(void) { return (O & (O_LANG | O_IDS)) != 0; }

static int big_bytecode(struct op *o, struct nfa *m, struct fsm *f, struct rng *r) {
	unsigned v = (unsigned)((unsigned long)o->a[3]) & 3; struct fsm_options fo; memset(&fo, 0, sizeof fo); struct fault none = { 0 };
	struct fsm_vm_compile_opts vo = { (v & 1) ? FSM_VM_COMPILE_OPTIM : 0, (v & 2) ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1, NULL }; char w[60]; snprintf(w, sizeof w, "bytecode (%s%s)", v & 2 ? "v2" : "v1", v & 1 ? ", optimised" : "");
	enter(); struct fsm_dfavm *vm = fsm_vm_compile_with_options(f, &fo, vo); leave(); int ret = OP_OK;
	outcome(vm != NULL, "fsm_vm_compile_with_options");
	if (!vm) { ret = OP_FAIL; if (!o->retry) return ret; sim_enter(CI, none, 0); vm = fsm_vm_compile_with_options(f, &fo, vo); sim_leave(); if (!vm) sim_fail("spurious-failure", "step %d: compiling %u states to %s failed although nothing was injected", CI, m->n, w); ret = OP_OK; }
	big_run(m, judged() ? f : NULL, vm, r, 12, w);
	if (!(v & 2)) {
		struct stream s; stream_init(&s, NULL, 0, 1, 0, -1); FILE *t = stream_writer(&s, 0); int x = fsm_dfavm_save(t, vm); if (fclose(t)) sim_harness_error("memory stream");
		if (x) sim_fail("spurious-failure", "step %d: saving a program failed (%d) although nothing was injected", CI, x);
		struct stream s2; stream_init(&s2, s.d, s.n, rnd(r), (int)rn(r, 3) - 1, -1); t = stream_reader(&s2, (int)rn(r, 5));
		sim_enter(CI, none, 0); struct fsm_dfavm *q = calloc(1, 256); x = fsm_dfavm_load(t, q); sim_leave(); fclose(t); stream_fini(&s2);
		if (x) sim_fail("spurious-failure", "step %d: loading a program of %zu bytes failed (%d) although nothing was injected", CI, s.n, x);
		trace_u64(s.n); stream_fini(&s);
		big_run(m, NULL, q, r, 12, "a saved and loaded program");
		fsm_vm_free(q);
	}
	fsm_vm_free(vm);
	struct nfa *got = nfa_extract(f); if (!nfa_same(m, got, M, sizeof M)) sim_fail("changed-by-reader", "step %d: compiling to bytecode changed the automaton: %s", CI, M); nfa_free(got);
	return ret;
}
static int big_transform(struct op *o, struct nfa *m, struct fsm **pf, struct rng *r) {
	unsigned k = 1 + (unsigned)((unsigned long)o->a[3] % 4), n = m->n; int ret = OP_OK; bool again = false; unsigned which = 0;
	for (unsigned i = 0; i < k; i++) {
		int x = 0; const char *nm = ""; struct fsm *f = *pf, *c; struct fault none = { 0 }; if (!again) which = rn(r, 8);
		if (which == 2 && !fsm_all(f, fsm_isdfa)) { sim_enter(CI, none, 0); x = fsm_determinise(f); sim_leave(); if (!x) sim_fail("spurious-failure", "step %d: fsm_determinise failed on %u states although nothing was injected", CI, n); }
		if (again) sim_enter(CI, none, 0); else enter();
		switch (which) {
		case 0: nm = "fsm_remove_epsilons"; x = fsm_remove_epsilons(f); break;
		case 1: nm = "fsm_trim"; x = fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; break;
		case 2: nm = "fsm_minimise"; x = fsm_minimise(f); break;
		case 3: nm = "fsm_clone"; c = fsm_clone(f); x = c != NULL; if (c) { fsm_free(f); *pf = c; } break;
		case 4: case 5: nm = "fsm_determinise"; x = fsm_determinise(f); break;
		case 6: nm = "fsm_shuffle"; x = fsm_shuffle(f, rn(r, 1000)); break;
		case 7: nm = "fsm_vacuum"; x = fsm_vacuum(f); break;
		}
		leave();
		if (again && !x) sim_fail("spurious-failure", "step %d: %s failed on %u states although nothing was injected", CI, nm, n);
		if (!again) outcome(x, nm);
		if (!x) {
			ret = OP_FAIL;
			if (!sim_is_live(*pf)) { if (O & O_RETRY) sim_fail("operand-destroyed", "step %d (%s): the failed call released the automaton it was to modify in place", CI, nm); *pf = NULL; return OP_FAIL; }
		}
		if (judged() || (!x && (O & O_RETRY))) {
			struct nfa *got = nfa_extract(*pf); check_lang(got, m, cmps(), x ? "wrong-language" : "operand-damaged", nm, n);
			if (x && (O & O_POST) && (which == 2 || which == 4 || which == 5) && !nfa_isdfa(got)) sim_fail("post-determinise", "step %d: %s of %u states succeeded but the result is not deterministic", CI, nm, n);
			nfa_free(got);
		}
		if (again) again = false; else if (!x && o->retry) { again = true; i--; }
	}
	return ret;
}
/* the text form and back */
static int big_text(struct op *o, struct nfa *m, struct fsm *f, struct rng *r) {
	struct fsm_options fo; memset(&fo, 0, sizeof fo); unsigned b = rn(r, 64); struct fsm *q; size_t n;
	fo.anonymous_states = b & 1; fo.consolidate_edges = b >> 1 & 1; /* comments cost a search of the whole for every state: left out */ fo.always_hex = b >> 4 & 1; fo.ambig = b & 32 ? AMBIG_NONE : AMBIG_MULTIPLE;
	unsigned char *t = text_of(f, &fo, &n); trace_u64(n);
	bool ok = parse_try(t, n, (int)rn(r, 3) - 1, (int)rn(r, 5), -1, (int)rn(r, NTAGS), (u64)o->a[4], &q);
	if (!ok && CO->f.mode != F_NONE) { /* was that the fault? it happened to a process which is gone */
		struct fault sv = CO->f; memset(&CO->f, 0, sizeof CO->f); ok = parse_try(t, n, 0, 0, -1, 0, 0, &q); CO->f = sv;
		if (ok) { hfree(t); fsm_free(q); return OP_FAIL; }
	}
	if (!ok) { hfree(t); sim_fail("roundtrip-refused", "step %d: the text form of %u states was refused when read back", CI, m->n); }
	struct nfa *got = nfa_extract(q); check_lang(got, m, CMP_LANG | (fo.ambig == AMBIG_MULTIPLE ? CMP_IDS : 0), "roundtrip-differs", "the text form", m->n);
	nfa_free(got); fsm_free(q); hfree(t); return OP_OK;
}
/* one large automaton and one small */
static struct nfa *small_model(struct rng *r) {
	struct nfa *m = nfa_new(); unsigned n = 1 + rn(r, 6); for (unsigned i = 0; i < n; i++) nfa_addstate(m); m->start = 0;
	for (unsigned i = 0; i < n; i++) { unsigned at = 0; while (at < 256) { unsigned to = rn(r, n + 1), len = 1 + rn(r, chance(r, 1, 2) ? 256 : 12); for (; len-- && at < 256; at++) if (to < n) nfa_addsym(m, i, to, (unsigned char)at); } if (chance(r, 1, 2)) { m->s[i].end = true; nfa_addid(m, i, 50 + rn(r, 3)); } }
	return m;
}
static struct nfa *cat_model(const struct nfa *a, const struct nfa *b) {
	struct nfa *m = nfa_clone(a); unsigned base = nfa_append(m, b); m->start = a->start;
	for (unsigned i = 0; i < a->n; i++) if (m->s[i].end) { m->s[i].end = false; nfa_addeps(m, i, base + (unsigned)b->start); }
	return m;
}
static void big_algebra(struct op *o, struct nfa *m, struct fsm **pf, struct rng *r) {
	struct nfa *b = small_model(r); bool swap = chance(r, 1, 2); unsigned two = 2, cm = CMP_LANG; struct fault none = { 0 };
	sim_enter(CI, none, 0); struct fsm *g = big_build(b, r), *q = NULL; sim_leave(); if (!g) sim_fail("spurious-failure", "step %d: building %u states failed although nothing was injected", CI, b->n);
	struct fsm *x = swap ? g : *pf, *y = swap ? *pf : g; const struct nfa *mx = swap ? b : m, *my = swap ? m : b; *pf = NULL;
	struct spec sp = { .n = 2, .p = { mx, my }, .opq = &two, .idmask = 3 }; const char *nm = ""; struct nfa *cat = NULL; struct fsm_combine_info ci;
	unsigned how = rn(r, 5); bool ends = false; for (unsigned i = 0; i < mx->n; i++) ends |= mx->s[i].end;
	if (how == 3 && !ends) how = 0; /* there is nothing to put the other after: refused */
	sim_enter(CI, none, 0);
	switch (how) {
	case 0: nm = "fsm_union"; q = fsm_union(x, y, &ci); sp.acc = acc_or; break;
	case 1: nm = "fsm_intersect"; q = fsm_intersect(x, y); sp.acc = acc_and; break;
	case 2: nm = "fsm_subtract"; q = fsm_subtract(x, y); sp.acc = acc_sub; break;
	case 3: nm = "fsm_concat"; q = fsm_concat(x, y, &ci); cat = cat_model(mx, my); sp.n = 1; sp.p[0] = cat; sp.acc = NULL; sp.idmask = 1; break;
	case 4: nm = "fsm_complement"; fsm_free(g); *pf = x == g ? y : x; q = fsm_complement(*pf) ? *pf : NULL; sp.n = 1; sp.p[0] = m; sp.acc = acc_not; break;
	}
	sim_leave();
	if (!q) sim_fail("spurious-failure", "step %d: %s failed on %u states although nothing was injected", CI, nm, m->n);
	*pf = q; struct nfa *got = nfa_extract(q); int c = sp_check(got, &sp, cm, BIGBUDGET, M, sizeof M); trace_u64((u64)(c + 1));
	if (c == 0) { char t[1500]; snprintf(t, sizeof t, "step %d: %s of %u and %u states: %s", CI, nm, mx->n, my->n, M); sim_fail("wrong-language", "%s", t); }
	nfa_free(got); nfa_free(b); if (cat) nfa_free(cat);
}
/* thousands of strings */
static int big_strings(struct op *o, struct rng *r) {
	unsigned n = 200 + (unsigned)((unsigned long)o->a[2] % (chance(r, 1, 4) ? 4000 : 900)), k = chance(r, 1, 3) ? 256 : 2 + rn(r, 25), len = 2 + rn(r, 14); static const int fl[] = { 3, 2, 1, 0, RE_STRINGS_AC_AUTOMATON };
	int flags = fl[rn(r, 5)]; struct nfa *m = nfa_new(); m->start = nfa_addstate(m); bool anyid = false, idp = chance(r, 1, 2); int ret = OP_OK; struct fault none = { 0 };
	enter(); struct re_strings *g = re_strings_new(); leave(); outcome(g != NULL, "re_strings_new"); if (!g) { nfa_free(m); return OP_FAIL; }
	struct { u64 key; unsigned to; } *tab = hcalloc(1 << 17, sizeof *tab);
	for (unsigned i = 0; i < n && m->n < 24000; i++) {
		unsigned char s[40]; size_t l = rn(r, len + 1); unsigned step = chance(r, 1, 3) ? 1 + rn(r, 3) : k; unsigned c = rn(r, k); for (size_t j = 0; j < l; j++) { s[j] = (unsigned char)(k == 256 ? c : 'a' + c); c = (c + rn(r, step)) % k; }
		fsm_end_id_t id = chance(r, 1, 4) ? i : rn(r, 5); bool has = idp && chance(r, 2, 3);
		if (i && i % 64 == 0) enter(); else sim_enter(CI, none, 0); /* a fault now and then */
		int x = re_strings_add_raw(g, s, l, has ? &id : NULL); leave(); outcome(x, "re_strings_add_raw");
		if (!x) { ret = OP_FAIL; break; }
		unsigned q = 0;
		for (size_t j = 0; j < l; j++) {
			u64 key = ((u64)q << 8 | s[j]) + 1; unsigned h = (unsigned)(mix64(key, 1)) & 0x1ffff; while (tab[h].key && tab[h].key != key) h = (h + 1) & 0x1ffff;
			if (!tab[h].key) { tab[h].key = key; tab[h].to = nfa_addstate(m); nfa_addsym(m, q, tab[h].to, s[j]); }
			q = tab[h].to;
		}
		m->s[q].end = true; if (has) { nfa_addid(m, q, id); anyid = true; }
	}
	hfree(tab);
	if (ret == OP_OK) {
		enter(); struct fsm *f = re_strings_build(g, NULL, (enum re_strings_flags)flags); leave(); outcome(f != NULL, "re_strings_build");
		if (!f) ret = OP_FAIL;
		else {
			if (flags & RE_STRINGS_AC_AUTOMATON) flags = RE_STRINGS_ANCHOR_RIGHT;
			/* a start of its own: the loops before and after must not mix with the strings */
			unsigned root = nfa_addstate(m); nfa_addeps(m, root, 0); m->start = root; if (!(flags & RE_STRINGS_ANCHOR_LEFT)) nfa_addany(m, root, root);
			unsigned t = m->n; if (!(flags & RE_STRINGS_ANCHOR_RIGHT)) for (unsigned i = 0; i < t; i++) if (m->s[i].end) { if (m->s[i].nids) { unsigned l = nfa_addstate(m); nfa_addeps(m, i, l); nfa_addany(m, l, l); m->s[l].end = true; for (unsigned j = 0; j < m->s[i].nids; j++) nfa_addid(m, l, m->s[i].ids[j]); } else { unsigned l = nfa_addstate(m); nfa_addeps(m, i, l); nfa_addany(m, l, l); m->s[l].end = true; } }
			if (judged()) { struct nfa *got = nfa_extract(f); check_lang(got, m, cmps() | (anyid && !(flags & RE_STRINGS_ANCHOR_RIGHT) ? CMP_FIRST : 0), "wrong-string-set", "the automaton for a set of strings", m->n); if ((O & O_POST) && !nfa_isdfa(got)) sim_fail("wrong-string-set", "step %d: string set automaton is not deterministic", CI); nfa_free(got); }
			fsm_free(f);
		}
	}
	re_strings_free(g); nfa_free(m); return ret;
}
/* examples and shortest strings in a large automaton */
static void big_example(struct op *o, const struct nfa *m, struct fsm *f, struct rng *r) {
	unsigned *d = hmalloc(m->n * sizeof *d), *q = hmalloc(m->n * sizeof *q), h = 0, t = 0; memset(d, 0xff, m->n * sizeof *d); q[t++] = (unsigned)m->start; d[m->start] = 0; (void)o;
	while (h < t) { unsigned s = q[h++]; for (unsigned j = 0; j < m->s[s].ne; j++) if (d[m->s[s].e[j].to] == (unsigned)-1) { d[m->s[s].e[j].to] = d[s] + 1; q[t++] = m->s[s].e[j].to; } }
	for (unsigned k = 0; k < 3; k++) {
		unsigned goal = chance(r, 1, 2) ? q[t - 1 - rn(r, t > 20 ? 20 : t)] : rn(r, m->n); size_t bs = chance(r, 1, 3) ? rn(r, 300) : 60000; char *b = hmalloc(bs + 1); memset(b, 0x66, bs + 1);
		struct fault none = { 0 }; sim_enter(CI, none, 0); int n = fsm_example(f, goal, b, bs); sim_leave();
		if (n < 0) sim_fail("spurious-failure", "step %d: fsm_example failed on %u states although nothing was injected", CI, m->n);
		if ((unsigned char)b[bs] != 0x66) sim_fail("example-overrun", "step %d: fsm_example wrote past the buffer", CI);
		if (bs && !memchr(b, 0, bs)) sim_fail("example-unterminated", "step %d: fsm_example did not terminate its text", CI);
		if (bs == 60000 && (size_t)n < bs) {
			if (strlen(b) != (size_t)n) sim_fail("example-wrong", "step %d: fsm_example returned %d for %zu characters", CI, n, strlen(b));
			/* every reading of the escapes */
			unsigned char *cur = hcalloc(m->n, 1), *nx; unsigned char **at = hcalloc((size_t)n + 5, sizeof *at); at[0] = cur; cur[m->start] = 1; bool bad = false;
			for (int i = 0; i < n; i++) if (at[i]) for (int e = 0; e < 2; e++) {
				unsigned c = (unsigned char)b[i]; int w = 1; if (e) { unsigned v; if (b[i] != '\\' || i + 3 >= n || b[i + 1] != 'x' || sscanf(b + i + 2, "%2x", &v) != 1) continue; c = v; w = 4; }
				nx = at[i + w] ? at[i + w] : hcalloc(m->n, 1); bool any = at[i + w] != NULL;
				for (unsigned s = 0; s < m->n; s++) if (at[i][s]) { long x = step(m, s, (unsigned char)c); if (x >= 0) { nx[x] = 1; any = true; } }
				if (any) at[i + w] = nx; else hfree(nx);
				
			}
			if (d[goal] != (unsigned)-1 && !(at[n] && at[n][goal])) bad = true;
			if (d[goal] == (unsigned)-1 && n) bad = true;
			for (int i = 0; i < n + 5; i++) hfree(at[i]);
			hfree(at);
			if (bad) sim_fail("example-wrong", "step %d: the example of %d characters for state %u of %u, %u from the start, does not lead there", CI, n, goal, m->n, d[goal]);
		}
		hfree(b);
	}
	hfree(d); hfree(q);
}
/* a group of many patterns: whole words mostly, so that what each input matches is known */
static void bout(fsm_output_id_t id, void *p) { unsigned char *e = p; if (id < 2000) e[id] = 1; else e[2000] = 1; }
static int big_group(struct op *o, struct rng *r) {
	unsigned n = 5 + (unsigned)((unsigned long)o->a[2] % 90), base = rn(r, 900), loose = 0, lim = rn(r, 5); struct fsm **f = hcalloc(n, sizeof *f); struct { unsigned char s[12]; unsigned l, how; } *w = hcalloc(n, sizeof *w); struct fault none = { 0 };
	struct fsm **own = hcalloc(n, sizeof *own); struct fsm_combined_base_pair *bases = hcalloc(n, sizeof *bases); int ret = OP_OK;
	for (unsigned i = 0; i < n; i++) {
		w[i].l = 1 + rn(r, 5); for (unsigned j = 0; j < w[i].l; j++) w[i].s[j] = (unsigned char)('a' + rn(r, 3)); w[i].how = 3; if (loose < lim && chance(r, 1, 8)) { w[i].how = rn(r, 4); loose++; }
		char p[20]; int l = snprintf(p, sizeof p, "%s%.*s%s", w[i].how & 1 ? "^" : "", (int)w[i].l, w[i].s, w[i].how & 2 ? "$" : ""); struct src s = { (unsigned char *)p, (size_t)l, 0 }; struct re_err e;
		sim_enter(CI, none, 0); f[i] = own[i] = re_comp(RE_PCRE, src_getc, &s, NULL, (enum re_flags)RE_SAVE_LINKAGE_INFO, &e); sim_leave(); if (!f[i]) sim_harness_error("word pattern %s", p);
	}
	enter(); struct fsm *g = fsm_union_repeated_pattern_group(n, f, chance(r, 1, 2) ? bases : NULL, base); leave(); outcome(g != NULL, "fsm_union_repeated_pattern_group");
	if (!g) { ret = OP_FAIL; for (unsigned i = 0; i < n; i++) if (sim_is_live(own[i])) { if (O & O_LEAK) sim_fail("leak", "step %d: fsm_union_repeated_pattern_group failed without releasing pattern %u", CI, i); fsm_free(own[i]); } }
	else {
		bool small = true; enter(); int q = fsm_determinise(g); leave(); if (!outcome(q, "fsm_determinise")) ret = OP_FAIL;
		if (q && small && chance(r, 1, 2)) { enter(); q = fsm_minimise(g); leave(); if (!outcome(q, "fsm_minimise")) ret = OP_FAIL; }
		if (q && (O & (O_EAGER | O_LANG))) {
			unsigned char e[2001]; fsm_eager_output_set_cb(g, bout, e);
			for (unsigned k = 0; k < 4 * n; k++) {
				unsigned char s[40]; unsigned l = 0, c = chance(r, 2, 3) ? 1 : rn(r, 5); while (c-- && l < 24) { unsigned i = rn(r, n); memcpy(s + l, w[i].s, w[i].l); l += w[i].l; if (chance(r, 1, 6)) s[l++] = (unsigned char)('a' + rn(r, 4)); }
				memset(e, 0, sizeof e); struct src in = { s, l, 0 }; fsm_state_t end; int x = fsm_exec(g, src_getc, &in, &end, NULL);
				if (x > 0) { size_t c2 = fsm_endid_count(g, end); if (c2) { fsm_end_id_t *v = hmalloc(c2 * sizeof *v); fsm_endid_get(g, end, c2, v); for (size_t j = 0; j < c2; j++) bout(v[j], e); hfree(v); } } else memset(e, 0, sizeof e);
				ST(eager_checks); ST(strings_run);
				for (unsigned i = 0; i < 2001; i++) {
					bool want1 = false; if (i >= base && i < base + n) { unsigned j = i - base; unsigned wl = w[j].l; for (unsigned p = 0; p + wl <= l && !want1; p++) if (!((w[j].how & 1) && p) && !((w[j].how & 2) && p + wl != l) && !memcmp(s + p, w[j].s, wl)) want1 = true; }
					if (want1) ST(eager_hits);
					if (want1 != (e[i] != 0)) { char t[200]; fmt_bytes(t, sizeof t, s, l); sim_fail("group-wrong", "step %d: in a group of %u patterns, pattern %u (%s%.*s%s) is %s for input %s", CI, n, i - base, i - base < n && (w[i - base].how & 1) ? "^" : "", i - base < n ? (int)w[i - base].l : 0, i - base < n ? w[i - base].s : s, i - base < n && (w[i - base].how & 2) ? "$" : "", want1 ? "not reported" : "reported", t); }
				}
			}
			fsm_eager_output_set_cb(g, NULL, NULL);
		}
		fsm_free(g);
	}
	hfree(f); hfree(own); hfree(w); hfree(bases); return ret;
}
/* big - kind size vmopts seed what: 0 bytecode, 1 transformations, 2 those of a wide one, 3 text, 4 with a small one, 5 strings, 6 examples, 7 group */
int op_big(struct op *o) {
	if (in_branch) return OP_SKIP;
	struct rng r = { mix64((u64)o->a[4], 77) }; unsigned what = (unsigned)((unsigned long)o->a[5] % 8), n = 600 + (unsigned)((unsigned long)o->a[2] % (what ? 2500 : 14000)); struct fault none = { 0 }; int ret = OP_OK;
	if (!what && chance(&r, 2, 3)) n = 600 + n % 3000;
	ST(big); size_t live = sim_live_total(); struct nfa *m = NULL; struct fsm *f = NULL;
	if (what == 5) ret = big_strings(o, &r);
	else if (what == 7) ret = big_group(o, &r);
	else {
		m = what == 2 || (what == 3 && chance(&r, 1, 3)) ? wide_model((unsigned)((unsigned long)o->a[2]), &r, true) : big_model((unsigned)((unsigned long)o->a[1] % 5), n, &r, what != 0 && what != 6);
		if (what == 1 && chance(&r, 2, 3)) { /* some edges by way of an epsilon transition to a state of their own: the subsets stay as few as the states */
			unsigned part = 2 + rn(&r, 30);
			for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m->s[i].ne; j++) if (chance(&r, 1, part)) {
				unsigned x = nfa_addstate(m); struct nedge e = m->s[i].e[j]; if (chance(&r, 1, 2)) m->s[i].e[j--] = m->s[i].e[--m->s[i].ne];
				for (int c = 0; c < 256; c++) if (e.sym[c >> 6] >> (c & 63) & 1) nfa_addsym(m, x, e.to, (unsigned char)c);
				nfa_addeps(m, i, x);
				if (chance(&r, 1, 4)) break;
			}
		}
		if (what == 3) for (unsigned i = 0; i < m->n; i++) if (m->s[i].end && chance(&r, 1, 50)) nfa_addid(m, i, chance(&r, 1, 2) ? UINT_MAX - rn(&r, 3) : (unsigned)rnd(&r));
		sim_enter(CI, none, 0); f = big_build(m, &r); sim_leave();
		if (!f) sim_fail("spurious-failure", "step %d: building %u states failed although nothing was injected", CI, n);
		if (judged()) { struct nfa *got = nfa_extract(f); if (!nfa_same(m, got, M, sizeof M)) sim_fail("wrong-result", "step %d: the automaton built differs from the calls made: %s", CI, M); nfa_free(got); }
		switch (what) {
		case 0: ret = big_bytecode(o, m, f, &r); break;
		case 1: case 2: ret = big_transform(o, m, &f, &r); break;
		case 3: ret = big_text(o, m, f, &r); break;
		case 4: big_algebra(o, m, &f, &r); break;
		case 6: big_example(o, m, f, &r); break;
		}
		if (f) fsm_free(f);
		nfa_free(m);
	}
	if ((O & O_LEAK) && sim_live_total() != live) sim_fail("leak", "step %d: %ld blocks more are allocated after releasing everything (large automata, %u)", CI, (long)sim_live_total() - (long)live, what);
	return ret;
}
