/* Operations: engines, generation, printing, parsing, groups, pattern compilation. */
#define _GNU_SOURCE
#include "ops.h"
#include <errno.h>
#include <unistd.h>
#include <ctype.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <limits.h>
#include <fsm/cost.h>
#include <fsm/capture.h>
#include <fsm/parser.h>

/* a call that may change nothing: brackets */
struct ro { struct nfa *pre; size_t live; struct slot *s; };
static struct ro ro_begin(struct slot *s) { struct ro r = { nfa_clone(s->snap), sim_live_total(), s }; return r; }
static void ro_end(struct ro *r, const char *what) {
	struct nfa *now = nfa_extract(r->s->f);
	if (!nfa_same(r->pre, now, M, sizeof M)) { sim_fail("changed-by-reader", "step %d: %s changed the automaton: %s", CI, what, M); }
	nfa_free(now); nfa_free(r->pre);
	if ((O & O_LEAK) && sim_live_total() != r->live) sim_fail("leak", "step %d: %ld blocks more are allocated after %s and releasing its result", CI, (long)sim_live_total() - (long)r->live, what);
}
static bool dfa_now(struct slot *s) { return s->f && has_start(s) && ensure_dfa(s); }

/* states of a DFA from which everything is accepted */
static unsigned char *universal(const struct nfa *m) {
	unsigned char *u = hmalloc(m->n + 1); for (unsigned i = 0; i < m->n; i++) u[i] = m->s[i].end;
	bool ch = true;
	while (ch) { ch = false; for (unsigned i = 0; i < m->n; i++) if (u[i]) {
		u64 cov[4] = { 0 };
		for (unsigned j = 0; j < m->s[i].ne; j++) if (u[m->s[i].e[j].to]) for (int k = 0; k < 4; k++) cov[k] |= m->s[i].e[j].sym[k];
		if (~cov[0] || ~cov[1] || ~cov[2] || ~cov[3]) { u[i] = 0; ch = true; } } }
	return u;
}
static long dfa_step(const struct nfa *m, long q, unsigned char c) {
	for (unsigned j = 0; j < m->s[q].ne; j++) if (m->s[q].e[j].sym[c >> 6] >> (c & 63) & 1) return m->s[q].e[j].to;
	return -1;
}
static long dfa_run(const struct nfa *m, const unsigned char *s, size_t n) { long q = m->start; for (size_t i = 0; i < n && q >= 0; i++) q = dfa_step(m, q, s[i]); return q; }

struct src { const unsigned char *d; size_t n, i; size_t calls; };
static int src_getc(void *p) { struct src *s = p; ST(getc_calls); s->calls++; return s->i < s->n ? s->d[s->i++] : EOF; }
static void eout_cb(fsm_output_id_t id, void *p) { struct eout *e = p; for (unsigned i = 0; i < e->n; i++) if (e->id[i] == id) return; if (e->n < 64) e->id[e->n++] = id; }

/* shared automata notify whichever thread is running */
static void eout_any(fsm_output_id_t id, void *p) { (void)p; if (W.eo) eout_cb(id, W.eo); }
void eo_install(void) { for (int i = 0; i < NS; i++) if (W.s[i].f && nfa_haseo(W.s[i].snap)) fsm_eager_output_set_cb(W.s[i].f, eout_any, NULL); }

/* engines a seed nstrings vmopts comments */
int op_engines(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !dfa_now(a)) return OP_SKIP;
	struct rng r = { mix64((u64)o->a[1], 21) }; unsigned n = 1 + (unsigned)((unsigned long)o->a[2] % 24);
	struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.comments = o->a[4] & 1;
	unsigned v = (unsigned)((unsigned long)o->a[3]); struct fsm_vm_compile_opts vo = { (v & 1) ? FSM_VM_COMPILE_OPTIM : 0, (v & 2) ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1, NULL };
	struct ro ro = ro_begin(a); const struct nfa *m = ro.pre;
	bool eager = nfa_haseo(m);
	enter();
	struct fsm_dfavm *vm = (v & 12) == 0 && (v & 3) == 1 ? fsm_vm_compile(a->f) : fsm_vm_compile_with_options(a->f, &fo, vo);
	leave();
	outcome(vm != NULL, "fsm_vm_compile");
	unsigned char *uni = universal(m);
	struct eout eo; if (a->shared) W.eo = &eo; else if (eager) fsm_eager_output_set_cb(a->f, eout_cb, &eo);
	unsigned nc = fsm_countcaptures(a->f); struct fsm_capture *cap = hcalloc(nc + 1, sizeof *cap);
	unsigned char buf[9000];
	for (unsigned k = 0; k < n; k++) {
		size_t l = nfa_sample(m, &r, buf, chance(&r, 1, 40) ? 8400 : chance(&r, 1, 10) ? 200 : 24);
		if (chance(&r, 1, 60)) { /* straddle the read buffer */ size_t want = 4090 + rn(&r, 12); if (l && l < want) { size_t b = l; while (l < want) { buf[l] = buf[l % b]; l++; } } }
		long q = dfa_run(m, buf, l); bool exp = q >= 0 && m->s[q].end; char w[300];
		ST(strings_run); if (exp) ST(strings_accepted);
		/* character callback */
		struct src s = { buf, l, 0, 0 }; fsm_state_t end = 0xdeadbeef; eo.n = 0;
		struct fault none = { 0 }; sim_enter(CI, none, 0);
		int x = fsm_exec(a->f, src_getc, &s, &end, cap);
		long got = sim_leave();
		if (got) sim_fail("wrong-answer", "step %d: fsm_exec allocated memory", CI);
		fmt_bytes(w, sizeof w, buf, l);
		if (x != exp) sim_fail("exec-differs", "step %d: fsm_exec says %d for %s (%zu bytes), the automaton %s it", CI, x, w, l, exp ? "accepts" : "rejects");
		if (exp && end != (unsigned)q) sim_fail("exec-differs", "step %d: fsm_exec ends %s in state %u, not %ld", CI, w, end, q);
		if (exp && eager) {
			unsigned ids[64], ni = 0; nfa_emits(m, buf, l, ids, &ni, 64);
			bool same = ni == eo.n; for (unsigned i = 0; i < ni && same; i++) { bool f = false; for (unsigned j = 0; j < eo.n; j++) if (eo.id[j] == ids[i]) f = true; same = f; }
			if (!same) sim_fail("exec-differs", "step %d: fsm_exec notified %u output ids for %s, the automaton carries %u", CI, eo.n, w, ni);
		}
		if (!vm) continue;
		ST(vm_runs);
		x = fsm_vm_match_buffer(vm, (const char *)buf, l);
		if (x != exp) sim_fail("vm-differs", "step %d: bytecode (%s%s) over a buffer says %d for %s (%zu bytes), the automaton %s it", CI, v & 2 ? "v2" : "v1", v & 1 ? ", optimised" : "", x, w, l, exp ? "accepts" : "rejects");
		int chunk = (int)rn(&r, 4); chunk = chunk == 3 ? -1 : chunk == 2 ? 1 + (int)rn(&r, 5) : chunk;
		long errat = chance(&r, 1, 3) ? (long)rn(&r, (unsigned)l + 1) : -1;
		struct stream st; stream_init(&st, buf, l, rnd(&r), chunk, errat);
		FILE *f = stream_reader(&st, (int)rn(&r, 5));
		x = fsm_vm_match_file(vm, f);
		if (errat < 0) { if (x != exp) sim_fail("vm-differs", "step %d: bytecode (%s%s) over a file says %d for %s (%zu bytes, pieces %d), the automaton %s it", CI, v & 2 ? "v2" : "v1", v & 1 ? ", optimised" : "", x, w, l, chunk, exp ? "accepts" : "rejects"); }
		else if (x > 0) {
			bool ok = false; long p = m->start; for (size_t i = 0; p >= 0; i++) { if (uni[p]) ok = true; if (i >= (size_t)errat || i >= l) break; p = dfa_step(m, p, buf[i]); }
			if (!ok) sim_fail("read-error-matched", "step %d: the stream failed after %ld of %zu bytes of %s but bytecode reported a match", CI, errat, l, w);
		}
		fclose(f); stream_fini(&st);
	}
	if (a->shared) W.eo = NULL; else if (eager) fsm_eager_output_set_cb(a->f, NULL, NULL);
	if (vm) fsm_vm_free(vm);
	hfree(uni); hfree(cap);
	ro_end(&ro, "compiling to bytecode");
	return vm ? OP_OK : OP_FAIL;
}

/* vmc a p vmopts : compile to bytecode and keep the program */
int op_vmc(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !dfa_now(a)) return OP_SKIP;
	struct prog *p = &W.p[(unsigned long)o->a[1] % NPROG]; if (p->shared) return OP_SKIP;
	unsigned v = (unsigned)((unsigned long)o->a[2]) & 3; struct fsm_options fo; memset(&fo, 0, sizeof fo);
	struct fsm_vm_compile_opts vo = { (v & 1) ? FSM_VM_COMPILE_OPTIM : 0, (v & 2) ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1, NULL };
	prog_drop(p);
	struct ro ro = ro_begin(a); size_t live = sim_live_total();
	enter(); struct fsm_dfavm *vm = fsm_vm_compile_with_options(a->f, &fo, vo); leave();
	outcome(vm != NULL, "fsm_vm_compile");
	ro.live += sim_live_total() - live;
	if (vm) { p->vm = vm; p->m = nfa_clone(ro.pre); p->v = v; }
	ro_end(&ro, "compiling to bytecode");
	return vm ? OP_OK : OP_FAIL;
}
/* vmrun p seed n : run a kept program; the automaton it came from may have changed or gone */
int op_vmrun(struct op *o) {
	struct prog *p = &W.p[(unsigned long)o->a[0] % NPROG]; if (!p->vm) return OP_SKIP;
	struct rng r = { mix64((u64)o->a[1], 22) }; unsigned n = 1 + (unsigned)((unsigned long)o->a[2] % 16); const struct nfa *m = p->m; unsigned char buf[9000];
	for (unsigned k = 0; k < n; k++) {
		size_t l = nfa_sample(m, &r, buf, chance(&r, 1, 20) ? 4200 : chance(&r, 1, 4) ? 200 : 24); long q = dfa_run(m, buf, l); bool exp = q >= 0 && m->s[q].end; char w[300];
		ST(vm_runs); ST(strings_run); if (exp) ST(strings_accepted);
		struct fault none = { 0 }; sim_enter(CI, none, 0);
		int x;
		if (chance(&r, 1, 2)) x = fsm_vm_match_buffer(p->vm, (const char *)buf, l);
		else { struct stream st; stream_init(&st, buf, l, rnd(&r), (int)rn(&r, 3) - 1, -1); FILE *f = stream_reader(&st, (int)rn(&r, 5)); x = fsm_vm_match_file(p->vm, f); fclose(f); stream_fini(&st); }
		sim_leave();
		if (x != exp) { fmt_bytes(w, sizeof w, buf, l); sim_fail("vm-differs", "step %d: a kept program (%s%s) says %d for %s (%zu bytes), the automaton it was made from %s it", CI, p->v & 2 ? "v2" : "v1", p->v & 1 ? ", optimised" : "", x, w, l, exp ? "accepted" : "rejected"); }
		trace_u64((u64)x);
	}
	return OP_OK;
}
/* vmsave p q seed writeerr readerr : save a kept program, load it back as program q */
int fsm_dfavm_save(FILE *f, const struct fsm_dfavm *vm); int fsm_dfavm_load(FILE *f, struct fsm_dfavm *vm);
int op_vmsave(struct op *o) {
	struct prog *p = &W.p[(unsigned long)o->a[0] % NPROG], *q = &W.p[(unsigned long)o->a[1] % NPROG]; if (!p->vm || q->shared || p->shared || p == q) return OP_SKIP;
	struct rng r = { mix64((u64)o->a[2], 23) }; struct fault none = { 0 };
	struct stream ref; stream_init(&ref, NULL, 0, 1, 0, -1); FILE *f = stream_writer(&ref, 0);
	sim_enter(CI, none, 0); int x = fsm_dfavm_save(f, p->vm); sim_leave(); if (fclose(f)) sim_harness_error("memory stream");
	if (p->v & 2) { if (x == 0) sim_fail("wrong-answer", "step %d: a version 2 program was saved", CI); stream_fini(&ref); return OP_SKIP; }
	if (x != 0) sim_fail("spurious-failure", "step %d: saving a program failed (%d) although nothing was injected", CI, x);
	/* a stream that fills up */
	long at = o->a[3] >= 0 ? o->a[3] % (long)(ref.n + 1) : -1;
	struct stream s; stream_init(&s, NULL, 0, rnd(&r), 0, at); f = stream_writer(&s, (int)rn(&r, 5));
	sim_enter(CI, none, 0); x = fsm_dfavm_save(f, p->vm); sim_leave();
	bool err = ferror(f) != 0; int fc = fclose(f);
	if (x == 0 && err) sim_fail("save-error-lost", "step %d: saving a program reported success although the stream had failed after %ld of %zu bytes", CI, at, ref.n);
	if (x != 0 && !err) sim_fail("spurious-failure", "step %d: saving a program failed although nothing was injected", CI);
	if (x == 0 && fc == 0 && (s.n != ref.n || memcmp(s.d, ref.d, s.n))) sim_fail("save-differs", "step %d: saving a program twice wrote different bytes", CI);
	stream_fini(&s);
	/* a stream that ends or fails early */
	long cut = o->a[4] >= 0 ? o->a[4] % (long)(ref.n + 1) : -1; bool fails = chance(&r, 1, 2), early = cut >= 0 && (size_t)cut < ref.n;
	int chunk = (int)rn(&r, 4); chunk = chunk == 3 ? -1 : chunk == 2 ? 1 + (int)rn(&r, 5) : chunk;
	stream_init(&s, ref.d, early && !fails ? (size_t)cut : ref.n, rnd(&r), chunk, early && fails ? cut : -1); f = stream_reader(&s, (int)rn(&r, 5));
	enter(); struct fsm_dfavm *vm = calloc(1, 256); x = vm ? fsm_dfavm_load(f, vm) : -1; leave();
	bool fired = sim_fault_fired(); fclose(f); stream_fini(&s);
	if (x == 0 && early) sim_fail("load-cut-accepted", "step %d: a program cut to %ld of %zu bytes was loaded", CI, cut, ref.n);
	if (x != 0 && !early && !fired) sim_fail("spurious-failure", "step %d: loading a program failed (%d) although nothing was injected", CI, x);
	stream_fini(&ref);
	if (x != 0) { free(vm); trace_u64(3); return OP_FAIL; }
	prog_drop(q); q->vm = vm; q->m = nfa_clone(p->m); q->v = p->v; trace_u64(4);
	return OP_OK;
}
/* ---- generation ---- */
struct genst {
	struct slot *a; struct nfa *m; size_t max; long calls, after; bool halted; struct rng r; int mode; long haltat;
	unsigned char pr[4096]; size_t prn; bool haspr;
	u64 *seen, *paths; size_t n, cap; bool cut; const unsigned char *must;
};
static u64 hbytes(const void *p, size_t n) { const unsigned char *b = p; u64 h = 14695981039346656037ull ^ n; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return mix64(h, n); }
static enum fsm_generate_matches_cb_res gen_cb(const struct fsm *fsm, size_t depth, size_t mc, size_t steps, const char *in, size_t len, fsm_state_t end, void *p) {
	struct genst *g = p; (void)depth; (void)mc; (void)steps; char w[300];
	sim_suspend();
	g->calls++; ST(gen_strings);
	if (g->halted) { g->after++; sim_resume(); return FSM_GENERATE_MATCHES_CB_RES_HALT; }
	if (!g->m) g->m = nfa_extract(fsm);
	fmt_bytes(w, sizeof w, (const unsigned char *)in, len);
	if (len > g->max) sim_fail("gen-too-long", "step %d: generated %s has %zu bytes, the bound is %zu", CI, w, len, g->max);
	if (in[len] != 0) sim_fail("gen-unterminated", "step %d: generated text is not terminated", CI);
	long q = dfa_run(g->m, (const unsigned char *)in, len);
	if (q < 0 || !g->m->s[q].end) sim_fail("gen-unsound", "step %d: generated %s is not accepted", CI, w);
	if ((unsigned)q != end) sim_fail("gen-wrong-state", "step %d: generated %s ends in state %ld, reported as %u", CI, w, q, end);
	if (g->haspr && len > g->prn && !memcmp(in, g->pr, g->prn)) sim_fail("gen-not-pruned", "step %d: %s was generated beyond a string the callback pruned (%zu bytes)", CI, w, g->prn);
	u64 h = hbytes(in, len), ph = 7; q = g->m->start; ph = mix64(ph, (u64)q); for (size_t i = 0; i < len; i++) { q = dfa_step(g->m, q, (unsigned char)in[i]); ph = mix64(ph, (u64)q); }
	if (g->n == g->cap) { g->cap = g->cap ? g->cap * 2 : 256; g->seen = hrealloc(g->seen, g->cap * 8); g->paths = hrealloc(g->paths, g->cap * 8); }
	for (size_t i = 0; i < g->n; i++) if (g->seen[i] == h) sim_fail("gen-duplicate", "step %d: %s was generated twice", CI, w);
	g->seen[g->n] = h; g->paths[g->n++] = ph;
	enum fsm_generate_matches_cb_res res = FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
	if (g->haltat >= 0 && g->calls > g->haltat) { g->halted = true; g->cut = true; ST(cancelled); res = FSM_GENERATE_MATCHES_CB_RES_HALT; }
	else if (g->mode & 1 && chance(&g->r, 1, 3) && len <= sizeof g->pr) { memcpy(g->pr, in, len); g->prn = len; g->haspr = true; g->cut = true; res = FSM_GENERATE_MATCHES_CB_RES_PRUNE; ST(cancelled); }
	if (g->n > 3000) { g->halted = true; g->cut = true; res = FSM_GENERATE_MATCHES_CB_RES_HALT; }
	sim_resume();
	return res;
}
/* number of accepted state paths of length <= max (saturating) */
static u64 count_paths(const struct nfa *m, size_t max, u64 cap) {
	u64 *c = hcalloc(m->n, 8), *nx = hcalloc(m->n, 8); u64 tot = 0; c[m->start] = 1;
	for (size_t l = 0;; l++) {
		for (unsigned i = 0; i < m->n; i++) if (m->s[i].end) tot += c[i];
		if (l == max || tot > cap) break;
		memset(nx, 0, m->n * 8);
		for (unsigned i = 0; i < m->n; i++) if (c[i]) for (unsigned j = 0; j < m->s[i].ne; j++) { nx[m->s[i].e[j].to] += c[i]; if (nx[m->s[i].e[j].to] > cap) nx[m->s[i].e[j].to] = cap; }
		u64 *t = c; c = nx; nx = t;
	}
	hfree(c); hfree(nx); return tot;
}
static void walk_paths(const struct nfa *m, long q, u64 h, size_t left, u64 *out, size_t *n) {
	if (m->s[q].end) out[(*n)++] = h;
	if (!left) return;
	for (unsigned j = 0; j < m->s[q].ne; j++) walk_paths(m, m->s[q].e[j].to, mix64(h, m->s[q].e[j].to), left - 1, out, n);
}
static int cmp64(const void *a, const void *b) { u64 x = *(const u64 *)a, y = *(const u64 *)b; return x < y ? -1 : x > y; }
/* generate a max randomized mode haltat seed */
int op_generate(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !dfa_now(a)) return OP_SKIP;
	if (!nfa_hasend(a->snap) && (o->a[3] & 4)) return OP_SKIP;
	size_t max = (unsigned long)o->a[1] % 14; struct nfa *ma = nfa_clone(a->snap);
	struct genst g; memset(&g, 0, sizeof g); g.a = a; g.max = max; g.mode = (int)o->a[3] & 1; g.haltat = o->a[4]; g.r.s = mix64((u64)o->a[5], 4);
	size_t live = sim_live_total();
	enter(); int r = fsm_generate_matches(a->f, max, (int)(o->a[2] & 1), gen_cb, &g); leave();
	resnap(a);
	if (max == 0) { if (r) sim_fail("wrong-answer", "step %d: a bound of 0 is documented to be refused", CI); }
	else outcome(r, "fsm_generate_matches");
	if (g.after) sim_fail("callback-after-stop", "step %d: the generation callback was called %ld times after asking to halt", CI, g.after);
	want("language-changed", nfa_equiv(a->snap, ma, CMP_LANG | ((O & O_IDS) && a->ids_ok ? CMP_IDS : 0), BUDGET, M, sizeof M));
	(void)live;
	if (max && r && !g.cut && a->snap->n && a->snap->start >= 0 && !sim_fault_fired()) {
		u64 n = count_paths(a->snap, max, 100000);
		if (n > 0 && n <= 2500) {
			u64 *p = hmalloc((n + 1) * 8); size_t k = 0; walk_paths(a->snap, a->snap->start, mix64(7, (u64)a->snap->start), max, p, &k);
			if (g.n) qsort(g.paths, g.n, 8, cmp64);
			for (size_t i = 0; i < k; i++) if (!g.n || !bsearch(&p[i], g.paths, g.n, 8, cmp64)) sim_fail("gen-incomplete", "step %d: %zu accepted routes of at most %zu characters exist, %zu were reported", CI, k, max, g.n);
			hfree(p);
		}
	} else if (max && r && !g.cut && g.n == 0 && nfa_dfasize(ma, DFAMAX) <= DFAMAX) {
		/* nothing reported: nothing short enough may be accepted */
		unsigned char *re = hmalloc(ma->n + 1), *co = hmalloc(ma->n + 1); unsigned *d = hmalloc((ma->n + 1) * sizeof *d); nfa_marks(ma, re, co, d);
		if (ma->start >= 0 && d[ma->start] <= max && !sim_fault_fired()) sim_fail("gen-incomplete", "step %d: nothing was generated although a string of %u characters is accepted", CI, d[ma->start]);
		hfree(re); hfree(co); hfree(d);
	}
	hfree(g.seen); hfree(g.paths); if (g.m) nfa_free(g.m); nfa_free(ma);
	trace_u64(g.n);
	return r || max == 0 ? OP_OK : OP_FAIL;
}
/* required a limit */
int op_required(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !dfa_now(a) || a->snap->n > 40) return OP_SKIP;
	struct ro ro = ro_begin(a); const struct nfa *m = ro.pre; u64 map[4], full[4]; size_t cnt = 4242, fcnt = 0;
	const size_t BIG = 20000;
	if (nfa_empty_without(m, -1)) { nfa_free(ro.pre); return OP_SKIP; }
	struct fault none = { 0 }; sim_enter(CI, none, 0);
	enum fsm_detect_required_characters_res fr = fsm_detect_required_characters(a->f, BIG, full, &fcnt); sim_leave();
	size_t lim = (unsigned long)o->a[1] % 400; if (o->a[2] & 1) lim = BIG;
	memset(map, 0x77, sizeof map);
	enter(); enum fsm_detect_required_characters_res r = fsm_detect_required_characters(a->f, lim, map, o->a[2] & 2 ? NULL : &cnt); leave();
	bool fired = sim_fault_fired();
	int ret = OP_OK;
	switch (r) {
	case FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN: {
		ST(limit_not_hit);
		unsigned k = 0;
		for (int c = 0; c < 256; c++) { bool g = map[c >> 6] >> (c & 63) & 1, e = nfa_empty_without(m, c); k += g; if (g != e) sim_fail("wrong-required", "step %d: character 0x%02x is %s as required, but the automaton %s without it", CI, c, g ? "reported" : "not reported", e ? "accepts nothing" : "accepts something"); }
		if (!(o->a[2] & 2) && cnt != k) sim_fail("wrong-required", "step %d: count is %zu for %u characters", CI, cnt, k);
		break; }
	case FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED:
		ST(limit_hit);
		if (lim == 0) sim_fail("limit-unjustified", "step %d: no step limit was set but it was reported reached", CI);
		for (int i = 0; i < 4; i++) if (map[i]) sim_fail("limit-side-effect", "step %d: partial information returned when the step limit was reached", CI);
		/* a larger limit must not refuse where this one... and this one must refuse whatever a smaller one refuses */
		if (lim > 1) { struct fault nn = { 0 }; u64 t[4]; size_t c2; sim_enter(CI, nn, 0); enum fsm_detect_required_characters_res r2 = fsm_detect_required_characters(a->f, lim / 2 + 1 > lim ? lim : lim / 2 + (lim > 2), t, &c2); sim_leave(); if (r2 == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) sim_fail("limit-not-monotone", "step %d: limit %zu is refused but a smaller one is not", CI, lim); }
		break;
	case FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC: outcome(false, "fsm_detect_required_characters"); ret = OP_FAIL; break;
	default: sim_fail("wrong-answer", "step %d: fsm_detect_required_characters returned %d for a deterministic automaton", CI, (int)r);
	}
	(void)fr; (void)fired;
	trace_u64((u64)r); for (int i = 0; i < 4; i++) trace_u64(full[i]);
	ro_end(&ro, "fsm_detect_required_characters");
	return ret;
}
/* example a goal bufsz */
int op_example(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || nfa_haseps(a->snap) || !a->snap->n || a->snap->n > 400) return OP_SKIP;
	const struct nfa *m0 = a->snap; for (unsigned i = 0; i < m0->n; i++) for (unsigned j = 0; j < m0->s[i].ne; j++) if (m0->s[i].e[j].sym['\\' >> 6] >> ('\\' & 63) & 1) { /* ambiguous escape */ if (!(o->a[3] & 1)) break; }
	struct ro ro = ro_begin(a); const struct nfa *m = ro.pre; unsigned goal = (unsigned)((unsigned long)o->a[1] % m->n);
	char big[4096]; memset(big, 0x66, sizeof big); size_t bs = (unsigned long)o->a[2] % 3 == 0 ? (unsigned long)o->a[2] % 12 : sizeof big - 1;
	enter(); int n = fsm_example(a->f, goal, big, bs); leave();
	outcome(n >= 0, "fsm_example");
	if ((unsigned char)big[bs] != 0x66) sim_fail("example-overrun", "step %d: fsm_example wrote past the buffer", CI);
	if (n >= 0 && bs && memchr(big, 0, bs) == NULL) sim_fail("example-unterminated", "step %d: fsm_example did not terminate its text", CI);
	if (n >= 0 && bs == sizeof big - 1 && (size_t)n < bs) {
		if (strlen(big) != (size_t)n) sim_fail("example-wrong", "step %d: fsm_example returned %d for %zu characters", CI, n, strlen(big));
		unsigned char t[4096]; size_t l = 0; bool amb = false;
		for (int i = 0; i < n; ) { if (big[i] == '\\' && i + 3 < n && big[i + 1] == 'x' && isxdigit((unsigned char)big[i + 2]) && isxdigit((unsigned char)big[i + 3])) { unsigned v; sscanf(big + i + 2, "%2x", &v); if (isprint((int)v)) amb = true; t[l++] = (unsigned char)v; i += 4; } else { if (big[i] == '\\') amb = true; t[l++] = (unsigned char)big[i++]; } }
		if (!amb) {
			/* reachable set over t must contain the goal, or nothing when unreachable */
			struct nfa *x = nfa_clone(m); for (unsigned i = 0; i < x->n; i++) x->s[i].end = i == goal;
			unsigned char *re = hmalloc(m->n), *co = hmalloc(m->n); nfa_marks(m, re, co, NULL);
			bool acc = nfa_accepts(x, t, l, NULL, NULL, 0);
			if (re[goal] && !acc) { char w[300]; fmt_bytes(w, sizeof w, t, l); sim_fail("example-wrong", "step %d: example %s does not lead to state %u", CI, w, goal); }
			if (!re[goal] && n != 0) sim_fail("example-wrong", "step %d: an example of %d characters for a state that cannot be reached", CI, n);
			hfree(re); hfree(co); nfa_free(x);
		}
	}
	trace_bytes(big, sizeof big);
	ro_end(&ro, "fsm_example");
	return n >= 0 ? OP_OK : OP_FAIL;
}

/* ---- least-cost paths ---- */
struct path { fsm_state_t state; char c; struct path *next; }; void path_free(const struct fsm_alloc *, struct path *);
static unsigned cost_one(fsm_state_t a, fsm_state_t b, char c) { (void)a; (void)b; (void)c; return 1; }
static unsigned cost_mix(fsm_state_t a, fsm_state_t b, char c) { return (unsigned)(mix64(a * 1000u + b, (unsigned char)c) % 50); }
static unsigned cost_holes(fsm_state_t a, fsm_state_t b, char c) { unsigned k = (unsigned)(mix64(a * 7919u + b, (unsigned char)c) % 8); return k < 3 ? FSM_COST_INFINITY : k; }
static unsigned (*const costs[])(fsm_state_t, fsm_state_t, char) = { fsm_cost_legible, fsm_cost_legible, cost_one, cost_mix, cost_holes };
int op_shortest(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !has_start(a) || nfa_haseps(a->snap) || !a->snap->n || a->snap->n > 150) return OP_SKIP;
	struct ro ro = ro_begin(a); const struct nfa *m = ro.pre; unsigned n = m->n;
	unsigned from = o->a[3] & 1 ? (unsigned)m->start : (unsigned)((unsigned long)o->a[1] % n), goal = (unsigned)((unsigned long)o->a[2] % n);
	unsigned (*cost)(fsm_state_t, fsm_state_t, char) = costs[(unsigned long)o->a[4] % 5];
	enter(); struct path *p = fsm_shortest(a->f, from, goal, cost); leave();
	outcome(p != NULL, "fsm_shortest");
	if (p) { /* the model's answer: Bellman and Ford's relaxation until nothing changes */
		u64 *d = hmalloc(n * sizeof *d); for (unsigned i = 0; i < n; i++) d[i] = i == from ? 0 : ~0ull;
		for (bool more = true; more; ) { more = false; for (unsigned i = 0; i < n; i++) if (d[i] != ~0ull) for (unsigned j = 0; j < m->s[i].ne; j++) for (unsigned c = 0; c < 256; c++) if (m->s[i].e[j].sym[c >> 6] >> (c & 63) & 1) {
			unsigned k = cost(i, m->s[i].e[j].to, (char)c); if (k != FSM_COST_INFINITY && d[i] + k < d[m->s[i].e[j].to]) { d[m->s[i].e[j].to] = d[i] + k; more = true; } } }
		bool has = false; for (struct path *q = p; q; q = q->next) has |= q->state == goal;
		if (d[goal] == ~0ull) { if (has) sim_fail("path-wrong", "step %d: fsm_shortest gives a path to state %u, which cannot be reached from %u", CI, goal, from); }
		else {
			u64 t = 0; if (p->state != from) sim_fail("path-wrong", "step %d: the path to state %u begins at %u, not %u", CI, goal, p->state, from);
			struct path *q = p; unsigned len = 0;
			for (; q->next; q = q->next) {
				unsigned char c = (unsigned char)q->next->c; bool ok = false; if (++len > n) break;
				for (unsigned j = 0; j < m->s[q->state].ne; j++) if (m->s[q->state].e[j].to == q->next->state && m->s[q->state].e[j].sym[c >> 6] >> (c & 63) & 1) ok = true;
				if (!ok) sim_fail("path-wrong", "step %d: the path has a step from %u to %u by \\x%02x, which the automaton has not", CI, q->state, q->next->state, c);
				t += cost(q->state, q->next->state, (char)c);
			}
			if (q->state != goal) sim_fail("path-wrong", "step %d: the path ends at %u, not %u", CI, q->state, goal);
			if (t != d[goal]) sim_fail("path-cost", "step %d: the path from %u to %u costs %llu, the least is %llu", CI, from, goal, (unsigned long long)t, (unsigned long long)d[goal]);
			ST(probe_d);
		}
		hfree(d);
	}
	for (struct path *q = p; q; q = q->next) { trace_u64(q->state); trace_u64((unsigned char)q->c); }
	struct fault none = { 0 }; sim_enter(CI, none, 0); path_free(sim_allocs[a->alloc], p); sim_leave();
	ro_end(&ro, "fsm_shortest");
	return p ? OP_OK : OP_FAIL;
}

/* ---- printing ---- */
static const struct { int lang; const char *name; bool ir; } langs[] = {
	{ FSM_PRINT_AMD64_ATT, "amd64_att", true }, { FSM_PRINT_AMD64_GO, "amd64_go", true }, { FSM_PRINT_AMD64_NASM, "amd64_nasm", true },
	{ FSM_PRINT_API, "api", false }, { FSM_PRINT_AWK, "awk", true }, { FSM_PRINT_C, "c", true }, { FSM_PRINT_DOT, "dot", false },
	{ FSM_PRINT_FSM, "fsm", false }, { FSM_PRINT_GO, "go", true }, { FSM_PRINT_IR, "ir", true }, { FSM_PRINT_IRJSON, "irjson", true },
	{ FSM_PRINT_JSON, "json", false }, { FSM_PRINT_LLVM, "llvm", true }, { FSM_PRINT_RUST, "rust", true }, { FSM_PRINT_SH, "sh", true },
	{ FSM_PRINT_VMC, "vmc", true }, { FSM_PRINT_VMDOT, "vmdot", true }, { FSM_PRINT_VMOPS_C, "vmops_c", true },
	{ FSM_PRINT_VMOPS_H, "vmops_h", true }, { FSM_PRINT_VMOPS_MAIN, "vmops_main", true }
};
#define NLANG (sizeof langs / sizeof langs[0])
struct hookst { long calls, failat; bool failed; };
static int hk_tick(void *p) { struct hookst *h = p; if (h->failat >= 0 && h->calls++ == h->failat) { h->failed = true; errno = EIO; return -1; } return 0; }
static int hk_args(FILE *f, const struct fsm_options *opt, void *lo, void *ho) { (void)opt; (void)lo; fprintf(f, ", void *opaque"); return hk_tick(ho); }
static int hk_accept(FILE *f, const struct fsm_options *opt, const struct fsm_state_metadata *md, void *lo, void *ho) { (void)opt; (void)lo; fprintf(f, "ACCEPT(%zu)", md->end_id_count); for (size_t i = 0; i < md->end_id_count; i++) fprintf(f, " %u", md->end_ids[i]); return hk_tick(ho); }
static int hk_reject(FILE *f, const struct fsm_options *opt, const struct fsm_state_metadata *md, void *lo, void *ho) { (void)opt; (void)lo; (void)md; fprintf(f, "REJECT"); return hk_tick(ho); }
static int hk_comment(FILE *f, const struct fsm_options *opt, const struct fsm_state_metadata *md, void *ho) { (void)opt; fprintf(f, "/* c %zu */", md->end_id_count); return hk_tick(ho); }
static int hk_conflict(FILE *f, const struct fsm_options *opt, const struct fsm_state_metadata *md, const char *ex, void *ho) { (void)f; (void)opt; (void)ex; if (md->end_id_count < 2) sim_fail("wrong-conflict", "step %d: conflict reported for %zu ids", CI, md->end_id_count); return hk_tick(ho); }
static void print_opts(struct op *o, struct fsm_options *fo, struct fsm_hooks *hk, struct hookst *hs) {
	unsigned b = (unsigned)((unsigned long)o->a[2]); memset(fo, 0, sizeof *fo); memset(hk, 0, sizeof *hk); memset(hs, 0, sizeof *hs); hs->failat = -1;
	fo->anonymous_states = b & 1; fo->consolidate_edges = b >> 1 & 1; fo->fragment = b >> 2 & 1; fo->comments = b >> 3 & 1; fo->case_ranges = b >> 4 & 1; fo->always_hex = b >> 5 & 1; fo->group_edges = b >> 6 & 1;
	if (b & 128) fo->prefix = "pfx_"; if (b & 256) fo->package_prefix = "pkg";
	unsigned io = (b >> 9) % 3, am = (b >> 11) % 4;
	fo->io = io == 0 ? FSM_IO_STR : io == 1 ? FSM_IO_PAIR : FSM_IO_GETC;
	fo->ambig = am == 0 ? AMBIG_NONE : am == 1 ? AMBIG_MULTIPLE : am == 2 ? AMBIG_EARLIEST : AMBIG_ERROR;
	unsigned h = (b >> 13) & 15; hk->hook_opaque = hs;
	if (h & 1) hk->accept = hk_accept; if (h & 2) hk->reject = hk_reject; if (h & 4) hk->comment = hk_comment; if (h & 8) hk->conflict = hk_conflict;
	if (b >> 17 & 1) hk->args = hk_args;
}
/* print a lang optbits chunkmode(bufmode) errat seed hookfail */
int op_print(struct op *o) {
	struct slot *a = sl(o->a[0]); if (!a || !a->snap->n || !has_start(a)) return OP_SKIP;
	unsigned li = (unsigned)((unsigned long)o->a[1] % NLANG); if (langs[li].ir && !dfa_now(a)) return OP_SKIP;
	if (a->snap->n > 60 && (a->snap->n > 300 || nfa_edges(a->snap) > 400)) return OP_SKIP;
	struct fsm_options fo; struct fsm_hooks hk; struct hookst hs; print_opts(o, &fo, &hk, &hs);
	/* documented restrictions */
	int lang = langs[li].lang;
	if (lang == FSM_PRINT_GO && fo.io == FSM_IO_GETC) fo.io = FSM_IO_STR;
	bool allids = true; for (unsigned i = 0; i < a->snap->n; i++) if (a->snap->s[i].end && !a->snap->s[i].nids) allids = false;
	if (!allids && fo.ambig != AMBIG_NONE && !(hk.accept)) fo.ambig = AMBIG_NONE; /* ids asked for where there are none: the defaults assert */
	struct ro ro = ro_begin(a);
	/* reference output: nothing fails, whole pieces */
	struct stream rs; stream_init(&rs, NULL, 0, 1, 0, -1); FILE *rf = stream_writer(&rs, 0); struct fault none = { 0 };
	unsigned char fill = sim_getfill();
	sim_enter(CI, none, 0); errno = 0; int rr = fsm_print(rf, a->f, &fo, &hk, (enum fsm_print_lang)lang); int e = errno; sim_leave();
	if (fclose(rf)) sim_harness_error("reference stream");
	if (rr < 0) {
		stream_fini(&rs);
		if (e != ENOTSUP && e != EINVAL) sim_fail("spurious-failure", "step %d: printing %s failed although nothing was injected (errno %d)", CI, langs[li].name, e);
		ro_end(&ro, "printing");
		return OP_SKIP;
	}
	long errat = o->a[4]; if (errat >= 0) errat = rs.n ? errat % (long)(rs.n + 1) : 0; 
	if (o->a[6] >= 0) hs.failat = o->a[6]; hs.calls = 0; hs.failed = false;
	struct stream s; stream_init(&s, NULL, 0, (u64)o->a[5], 0, errat);
	FILE *f = stream_writer(&s, (int)o->a[3]);
	sim_fill((unsigned char)(fill ^ 0x5a));
	enter(); int r = fsm_print(f, a->f, &fo, &hk, (enum fsm_print_lang)lang); leave();
	bool fired = sim_fault_fired(), err = ferror(f) != 0;
	if (r >= 0 && err) sim_fail("print-error-lost", "step %d: printing %s returned %d although the stream had failed (after %ld bytes)", CI, langs[li].name, r, errat);
	if (r >= 0 && hs.failed) sim_fail("print-error-lost", "step %d: printing %s returned %d although a hook reported failure", CI, langs[li].name, r);
	if (r < 0 && !err && !fired && !hs.failed) sim_fail("spurious-failure", "step %d: printing %s failed although nothing was injected", CI, langs[li].name);
	int fc = fclose(f); sim_fill(fill);
	if (r >= 0 && fc == 0) {
		if (r != rr) sim_fail("print-differs", "step %d: printing %s returned %d, then %d", CI, langs[li].name, rr, r);
		if (s.n != rs.n || memcmp(s.d, rs.d, s.n)) { size_t i = 0; while (i < s.n && i < rs.n && s.d[i] == rs.d[i]) i++; char w[80], v[80]; fmt_bytes(w, sizeof w, s.d + i, s.n - i > 20 ? 20 : s.n - i); fmt_bytes(v, sizeof v, rs.d + i, rs.n - i > 20 ? 20 : rs.n - i); sim_fail("print-differs", "step %d: printing %s twice gave different text at byte %zu of %zu/%zu: %s / %s%s", CI, langs[li].name, i, s.n, rs.n, w, v, fired ? " (an allocation failed)" : ""); }
	}
	trace_u64((u64)rr); trace_bytes(rs.d, rs.n);
	stream_fini(&s); stream_fini(&rs);
	ro_end(&ro, "printing");
	return r >= 0 && fc == 0 ? OP_OK : OP_FAIL;
}

/* ---- parsing ---- */
/* runs fsm_parse in a child first, as refusal may end the process; returns 0 refused, 1 accepted */
bool parse_try(const unsigned char *d, size_t n, int chunk, int bufmode, long errat, int al, u64 seed, struct fsm **out) {
	int mf = memfd_create("err", 0); if (mf < 0) sim_harness_error("memfd");
	quiet_flush();
	pid_t p = fork(); if (p < 0) sim_harness_error("fork");
	if (p == 0) {
		sim_alone();
		dup2(mf, 2);
		struct stream s; stream_init(&s, d, n, seed, chunk, errat); FILE *f = stream_reader(&s, bufmode);
		enter(); struct fsm *q = fsm_parse(f, sim_allocs[al]); leave();
		if (q) { struct nfa *m = nfa_extract(q); nfa_free(m); fsm_free(q); }
		_exit(q ? 0 : 3);
	}
	int st; while (waitpid(p, &st, 0) < 0) ;
	off_t len = lseek(mf, 0, SEEK_END);
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 3)) {
		close(mf); ST(parse_rejects);
		if (len == 0 && WEXITSTATUS(st) == 1) sim_fail("parse-undiagnosed", "step %d: text was refused without a diagnosis", CI);
		*out = NULL; return false;
	}
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		char b[4096]; ssize_t k = pread(mf, b, sizeof b - 1, 0); if (k > 0) { if (write(2, b, (size_t)k)) {} }
		if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
		signal(WTERMSIG(st), SIG_DFL); struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); raise(WTERMSIG(st)); _exit(79);
	}
	close(mf);
	struct stream s; stream_init(&s, d, n, seed, chunk, errat); FILE *f = stream_reader(&s, bufmode);
	enter(); *out = fsm_parse(f, sim_allocs[al]); leave();
	fclose(f); stream_fini(&s); ST(parse_ok);
	if (!*out) sim_fail("parse-unstable", "step %d: the same text was accepted, then refused", CI);
	return true;
}
unsigned char *text_of(struct fsm *f, const struct fsm_options *fo, size_t *n) {
	struct stream s; stream_init(&s, NULL, 0, 1, 0, -1); FILE *w = stream_writer(&s, 0); struct fault none = { 0 };
	sim_enter(CI, none, 0); int r = fsm_print(w, f, fo, NULL, FSM_PRINT_FSM); sim_leave(); fclose(w);
	if (r < 0) sim_fail("spurious-failure", "step %d: printing the text form failed although nothing was injected", CI);
	unsigned char *d = s.d ? s.d : hmalloc(1); *n = s.n; return d;
}
/* roundtrip a d alloc optbits chunk bufmode seed */
int op_roundtrip(struct op *o) {
	struct slot *a = sl(o->a[0]), *d = sl_any(o->a[1]); if (!a || a == d || !a->snap->n || a->snap->n > 300) return OP_SKIP;
	int al = (int)((unsigned long)o->a[2] % NTAGS); struct fsm_options fo; memset(&fo, 0, sizeof fo); unsigned b = (unsigned)((unsigned long)o->a[3]);
	fo.anonymous_states = b & 1; fo.consolidate_edges = b >> 1 & 1; fo.comments = b >> 2 & 1; fo.group_edges = b >> 3 & 1; fo.always_hex = b >> 4 & 1;
	fo.ambig = b & 32 ? AMBIG_NONE : AMBIG_MULTIPLE;
	drop(d);
	size_t n; unsigned char *t = text_of(a->f, &fo, &n); struct fsm *q;
	bool ok = parse_try(t, n, (int)o->a[4], (int)o->a[5], -1, al, (u64)o->a[6], &q);
	if (!ok && fo.group_edges && CO->f.mode == F_NONE) {
		/* grouped edges are a form of their own: refused as such, or is it the rest? */
		hfree(t); fo.group_edges = 0; t = text_of(a->f, &fo, &n);
		ok = parse_try(t, n, (int)o->a[4], (int)o->a[5], -1, al, (u64)o->a[6], &q);
		if (ok && (O & O_GROUPED))
			sim_fail("roundtrip-refused-grouped", "step %d: the text form with group_edges was refused when read back, without group_edges it is accepted", CI);
	}
	if (!ok) { bool fired = CO->f.mode != F_NONE; hfree(t); if (!fired) sim_fail("roundtrip-refused", "step %d: the text form of an automaton was refused when read back", CI); return OP_FAIL; }
	put(d, q, al); d->ids_ok = a->ids_ok;
	unsigned what = CMP_LANG | (a->ids_ok && fo.ambig == AMBIG_MULTIPLE ? CMP_IDS : 0); if (!(what & CMP_IDS)) d->ids_ok = false;
	if ((a->snap->start >= 0) != (d->snap->start >= 0)) sim_fail("roundtrip-differs", "step %d: the start state is %s after reading back", CI, d->snap->start >= 0 ? "set" : "missing");
	want("roundtrip-differs", nfa_equiv(d->snap, a->snap, what, BUDGET, M, sizeof M));
	hfree(t);
	return OP_OK;
}
/* parse a d alloc damage chunk errat seed optbits : the text of a, damaged */
int op_parse(struct op *o) {
	struct slot *a = sl(o->a[0]), *d = sl_any(o->a[1]); if (a == d) return OP_SKIP;
	int al = (int)((unsigned long)o->a[2] % NTAGS); struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.ambig = AMBIG_MULTIPLE; fo.comments = o->a[7] & 1; fo.group_edges = o->a[7] >> 1 & 1; fo.anonymous_states = o->a[7] >> 2 & 1;
	struct rng r = { mix64((u64)o->a[6], 8) }; size_t n; unsigned char *t;
	if (o->s) { t = hmalloc(o->n + 64); memcpy(t, o->s, o->n); n = o->n; }
	else { if (!a || !a->snap->n || a->snap->n > 60) return OP_SKIP; unsigned char *t0 = text_of(a->f, &fo, &n); t = hmalloc(n + 64); memcpy(t, t0, n); hfree(t0); }
	drop(d);
	static const char frag[] = "0123456789 ;;->\"'=[],:#\\xo{}?..\nstartend"; 
	unsigned dam = (unsigned)((unsigned long)o->a[3] % 6), reps = 1 + rn(&r, 3);
	for (unsigned k = 0; k < reps && n; k++) switch (dam) {
	case 0: k = reps; break;
	case 1: n = rn(&r, (unsigned)n + 1); ST(io_truncations); break;
	case 2: t[rn(&r, (unsigned)n)] = (unsigned char)frag[rn(&r, sizeof frag - 1)]; ST(io_corruptions); break;
	case 3: t[rn(&r, (unsigned)n)] ^= (unsigned char)(1u << rn(&r, 8)); ST(io_corruptions); break;
	case 4: { size_t i = rn(&r, (unsigned)n), l = 1 + rn(&r, 6); if (l > n - i) l = n - i; memmove(t + i, t + i + l, n - i - l); n -= l; ST(io_corruptions); break; }
	case 5: { size_t i = rn(&r, (unsigned)n), l = 1 + rn(&r, 6); memmove(t + i + l, t + i, n - i); for (size_t j = 0; j < l; j++) t[i + j] = (unsigned char)frag[rn(&r, sizeof frag - 1)]; n += l; ST(io_corruptions); break; }
	}
	long errat = o->a[5] >= 0 ? o->a[5] % (long)(n + 1) : -1; struct fsm *q, *q2;
	bool ok = parse_try(t, n, (int)o->a[4], (int)(o->a[6] & 7), errat, al, (u64)o->a[6], &q);
	if (ok) {
		put(d, q, al); bool fired = sim_fault_fired();
		size_t m = errat >= 0 ? (size_t)errat : n; struct fault sv = CO->f; CO->f = (struct fault) { 0 };
		bool ok2 = parse_try(t, m, 0, 0, -1, al, 0, &q2); CO->f = sv;
		if (ok2) { struct nfa *b = nfa_extract(q2); if (!nfa_same(d->snap, b, M, sizeof M)) want(errat >= 0 ? "parse-stream-error" : fired ? "wrong-result" : "parse-delivery", 0); nfa_free(b); fsm_free(q2); }
		else if (!fired) sim_fail("parse-delivery", "step %d: the bytes delivered are accepted one way and refused another", CI);
		else sim_fail("wrong-result", "step %d: damaged text accepted only when memory ran out", CI);
		if (has_start(d) && d->snap->n) { size_t n2; unsigned char *t2 = text_of(d->f, &fo, &n2); (void)n2; hfree(t2); }
	}
	hfree(t);
	return ok ? OP_OK : CO->f.mode ? OP_FAIL : OP_SKIP;
}

/* ---- pattern groups ---- */
/* group d flags idbase reflags s(newline separated PCREs) */
int op_group(struct op *o) {
	struct slot *d = sl_any(o->a[0]); drop(d); unsigned n = 0; struct nfa *part[MAXPARTS]; struct fsm *f[MAXPARTS]; memset(f, 0, sizeof f);
	unsigned fl = (unsigned)((unsigned long)o->a[3]) & (RE_ICASE | RE_SINGLE | RE_END_NL | RE_ANCHORED | RE_MULTI); int al = (int)((unsigned long)o->a[4] % NTAGS); bool bad = false, anylive = false;
	const unsigned char *p = o->s; size_t left = o->n; struct fault none = { 0 };
	while (n < 6 && !bad) {
		const unsigned char *e = left ? memchr(p, '\n', left) : NULL; size_t l = e ? (size_t)(e - p) : left;
		struct src s = { p, l, 0, 0 }; struct re_err err; sim_enter(CI, none, 0);
		struct fsm *x = re_comp(RE_PCRE, src_getc, &s, NULL, (enum re_flags)fl, &err); s.i = 0;
		struct fsm *y = x ? re_comp(RE_PCRE, src_getc, &s, sim_allocs[al], (enum re_flags)(fl | RE_SAVE_LINKAGE_INFO), &err) : NULL;
		sim_leave();
		if (!x || !y) { if (x) fsm_free(x); if (y) fsm_free(y); bad = true; break; }
		part[n] = nfa_extract(x); fsm_free(x); f[n] = y; n++;
		if (part[n - 1]->n > 120) bad = true;
		if (!e) break; left -= l + 1; p = e + 1;
	}
	(void)anylive;
	if (bad || !n) { for (unsigned i = 0; i < n; i++) { nfa_free(part[i]); if (f[i]) fsm_free(f[i]); } return OP_SKIP; }
	struct fsm_combined_base_pair bases[MAXPARTS]; unsigned base = (unsigned)((unsigned long)o->a[2] % 2000); struct fsm *own[MAXPARTS]; memcpy(own, f, sizeof own);
	enter(); struct fsm *g = fsm_union_repeated_pattern_group(n, f, o->a[1] & 1 ? bases : NULL, base); leave();
	outcome(g != NULL, "fsm_union_repeated_pattern_group");
	if (!g) {
		/* ownership was transferred: anything still live is lost storage */
		for (unsigned i = 0; i < n; i++) { if (sim_is_live(own[i])) { if (O & O_LEAK) sim_fail("leak", "step %d: fsm_union_repeated_pattern_group failed without releasing pattern %u", CI, i); fsm_free(own[i]); } nfa_free(part[i]); }
		return OP_FAIL;
	}
	put(d, g, al);
	int r = OP_OK;
	if (small_enough(d, 260)) {
		enter(); int q = fsm_determinise(d->f); leave();
		if (!outcome(q, "fsm_determinise")) r = OP_FAIL;
		settle(d);
		if (q && d->f) {
			want(fl & RE_ANCHORED ? "group-wrong-anchored-flag" : "group-wrong", nfa_check_group(d->snap, n, (const struct nfa *const *)part, base, BUDGET, M, sizeof M));
			if (o->a[1] & 2) { enter(); q = fsm_minimise(d->f); leave(); if (!outcome(q, "fsm_minimise")) r = OP_FAIL; settle(d); if (q && d->f) want(fl & RE_ANCHORED ? "group-wrong-anchored-flag" : "group-wrong", nfa_check_group(d->snap, n, (const struct nfa *const *)part, base, BUDGET, M, sizeof M)); }
		}
	} 
	for (unsigned i = 0; i < n; i++) nfa_free(part[i]);
	return r;
}

/* ---- compiling patterns (delivery, reentrancy, error reports) ---- */
struct rsrc { const unsigned char *d; size_t n, i; long nestat; int nestmode; size_t consumed; u64 seed; bool innest; };
static const int dia[] = { RE_LIKE, RE_LITERAL, RE_GLOB, RE_NATIVE, RE_SQL, RE_PCRE };
static int rs_getc(void *p) {
	struct rsrc *s = p; ST(getc_calls);
	if ((long)s->i == s->nestat && !s->innest) {
		sim_suspend(); s->innest = true; ST(nested_compiles);
		struct rng r = { s->seed }; char buf[64]; int d = dia[rn(&r, 6)]; size_t l = gen_pattern(&r, d, buf, 60, (s->nestmode & 1 ? GEN_BROKEN : 0) | GEN_ANCHORS);
		struct src in = { (unsigned char *)buf, l, 0, 0 }; struct re_err e; struct fsm *f = re_comp((enum re_dialect)d, src_getc, &in, NULL, 0, &e);
		if (f) fsm_free(f);
		s->innest = false; sim_resume(); s->nestat = -1;
	}
	if (s->i < s->n) { s->consumed++; return s->d[s->i++]; }
	return EOF;
}
/* rex d alloc dialect flags mode chunk cut seed s */
int op_rex(struct op *o) {
	struct slot *d = sl_any(o->a[0]); int al = (int)((unsigned long)o->a[1] % NTAGS); enum re_dialect di = (enum re_dialect)dia[(unsigned long)o->a[2] % 6]; enum re_flags fl = (enum re_flags)o->a[3];
	drop(d); size_t n = o->s ? o->n : 0; if (o->a[6] >= 0 && n) n = (size_t)(o->a[6] % (long)(n + 1));
	const unsigned char *s = o->s ? o->s : (const unsigned char *)""; struct fault none = { 0 };
	unsigned mode = (unsigned)((unsigned long)o->a[4]);
	/* baseline: plain buffer, nothing in between */
	struct src b = { s, n, 0, 0 }; struct re_err e0, e1; memset(&e0, 0x11, sizeof e0); memset(&e1, 0xee, sizeof e1); unsigned char fill = sim_getfill();
	sim_enter(CI, none, 0); struct fsm *f0 = re_comp(di, src_getc, &b, NULL, fl, &e0); sim_leave();
	size_t cons0 = b.i; struct nfa *m0 = f0 ? nfa_extract(f0) : NULL; if (f0) fsm_free(f0);
	size_t live = sim_live_total(); struct fsm *f; size_t cons = 0; FILE *fp = NULL; struct stream st; char *cs = NULL; const char *cp; struct rsrc rs = { s, n, 0, -1, 0, 0, (u64)o->a[7], false };
	sim_fill((unsigned char)(fill ^ (mode & 16 ? 0xff : 0)));
	bool nul = memchr(s, 0, n) != NULL; unsigned k = mode % 4; if (k == 3 && nul) k = 0;
	struct re_err *ep = mode & 32 ? NULL : &e1;
	switch (k) {
	case 0: case 1:
		if (k == 1) { rs.nestat = (long)((unsigned long)o->a[5] % (n + 1)); rs.nestmode = (int)(mode >> 3); }
		enter(); f = re_comp(di, rs_getc, &rs, sim_allocs[al], fl, ep); leave(); cons = rs.consumed; break;
	case 2:
		stream_init(&st, o->s ? s : NULL, o->s ? o->n : 0, (u64)o->a[7], (int)o->a[5], n < o->n ? (long)n : -1); if (!o->s) st.d = hmalloc(1); fp = stream_reader(&st, (int)(mode >> 3));
		enter(); f = re_comp(di, fsm_fgetc, fp, sim_allocs[al], fl, ep); leave(); fclose(fp); stream_fini(&st); cons = n; break;
	default:
		cs = hmalloc(n + 1); memcpy(cs, s, n); cs[n] = 0; cp = cs;
		enter(); f = re_comp(di, fsm_sgetc, &cp, sim_allocs[al], fl, ep); leave(); cons = n; break;
	}
	bool fired = sim_fault_fired(); sim_fill(fill);
	if (!f) {
		ST(compiles_err);
		if (sim_live_total() != live) sim_fail("leak", "step %d: a failed compile holds %ld blocks", CI, (long)sim_live_total() - (long)live);
		if (ep) {
			if (e1.e == RE_ESUCCESS) sim_fail("wrong-error", "step %d: the compile failed but the error says success", CI);
			if (e1.e == (enum re_errno)0xeeeeeeee) sim_fail("wrong-error", "step %d: the compile failed without filling in the error", CI);
			if ((e1.e & RE_MARK) && (e1.start.byte > e1.end.byte || e1.end.byte > cons + 1 || e1.start.byte > cons)) sim_fail("wrong-error-position", "step %d: error '%s' at bytes %u..%u, but only %zu bytes were consumed", CI, re_strerror(e1.e), e1.start.byte, e1.end.byte, cons);
		}
		if (!fired && m0) sim_fail("compile-differs", "step %d: the same bytes compile when read from memory but are refused (%s) delivered another way (mode %u)", CI, ep ? re_strerror(e1.e) : "?", k);
		if (!fired && ep) {
			if (e0.e != e1.e) sim_fail("compile-differs", "step %d: the same bytes are refused with '%s' or '%s' depending on delivery (mode %u)", CI, re_strerror(e0.e), re_strerror(e1.e), k);
			if ((e0.e & RE_MARK) && (e0.start.byte != e1.start.byte || e0.end.byte != e1.end.byte)) sim_fail("compile-differs", "step %d: error position depends on delivery: %u..%u or %u..%u", CI, e0.start.byte, e0.end.byte, e1.start.byte, e1.end.byte);
		}
		if (fired && m0 && ep && e1.e != RE_EERRNO) sim_fail("wrong-error", "step %d: out of memory is reported as '%s'", CI, re_strerror(e1.e));
	} else {
		ST(compiles_ok);
		if (!m0) sim_fail("compile-differs", "step %d: the same bytes are refused (%s) when read from memory but compile delivered another way (mode %u)%s", CI, re_strerror(e0.e), k, fired ? " with an allocation failing" : "");
		struct nfa *m1 = nfa_extract(f);
		if (!nfa_same(m0, m1, M, sizeof M)) { if (!fired) want("compile-differs", 0); want("wrong-result", nfa_equiv(m1, m0, CMP_LANG | CMP_IDS, BUDGET, M, sizeof M)); }
		nfa_free(m1);
		if (m0->n > 900) fsm_free(f); else put(d, f, al);
	}
	(void)cons0; hfree(cs); int ret = f ? OP_OK : m0 ? OP_FAIL : fired ? OP_FAIL : OP_SKIP; if (m0) nfa_free(m0);
	return ret;
}
