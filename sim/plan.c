/* Plans as text. */
#include "hist.h"

int op_byname(const char *n) { for (int i = 0; i < nopdefs; i++) if (!strcmp(opdefs[i].name, n)) return i; return -1; }
void plan_write(const struct plan *p, FILE *f, int limit, int override, struct fault ov) {
	fprintf(f, "plan %s %llu %llu %u\n", p->profile, (unsigned long long)p->seed, (unsigned long long)p->run, p->fill);
	for (int i = 0; i < p->n && i < limit; i++) {
		const struct op *o = &p->ops[i];
		fprintf(f, "%s", opdefs[o->kind].name);
		for (int k = 0; k < OPA; k++) fprintf(f, " %ld", o->a[k]);
		if (o->s) { fprintf(f, " s:"); for (size_t k = 0; k < o->n; k++) fprintf(f, "%02x", o->s[k]); }
		struct fault ft = i == override ? ov : o->f;
		if (ft.mode) fprintf(f, " f:%d:%ld:%ld", (int)ft.mode, ft.k, ft.n);
		fprintf(f, " i:%d", o->idx); if (p->nthr) fprintf(f, " t:%d", o->t);
		if (i == override ? (O & O_RETRY) != 0 : o->retry) fprintf(f, " r");
		if (o->branch && override < 0) fprintf(f, " b:%ld", o->branch);
		fputc('\n', f);
	}
	if (p->nthr && p->smode != 5) fprintf(f, "sched %d %d %llu %ld\n", p->nthr, p->smode, (unsigned long long)p->sseed, p->sgap);
	else if (p->nthr) for (int i = 0; i < p->nsw; i++) fprintf(f, "sw %d %d %d %llu %d\n", p->nthr, p->sw[i].tid, p->sw[i].op, (unsigned long long)p->sw[i].pt, p->sw[i].to);
}
struct plan *plan_read(FILE *f) {
	struct plan *p = hcalloc(1, sizeof *p); size_t cap = 0; static char line[1 << 20];
	while (fgets(line, sizeof line, f)) {
		if (line[0] == '#' || line[0] == '\n') continue;
		if (!strncmp(line, "plan ", 5)) { unsigned long long a, b; if (sscanf(line, "plan %15s %llu %llu %u", p->profile, &a, &b, &p->fill) != 4) sim_harness_error("bad plan header"); p->seed = a; p->run = b; continue; }
		if (!strncmp(line, "sched ", 6)) { unsigned long long a; if (sscanf(line, "sched %d %d %llu %ld", &p->nthr, &p->smode, &a, &p->sgap) != 4) sim_harness_error("bad sched line"); p->sseed = a; continue; }
		if (!strncmp(line, "sw ", 3)) { int t, to, op; unsigned long long pt; if (sscanf(line, "sw %d %d %d %llu %d", &p->nthr, &t, &op, &pt, &to) != 5) sim_harness_error("bad sw line"); p->smode = 5; if (!p->sw) p->sw = hcalloc(NSW, sizeof *p->sw); if (p->nsw < NSW) p->sw[p->nsw++] = (struct sw) { (int16_t)t, (int16_t)to, op, pt }; continue; }
		struct op o; memset(&o, 0, sizeof o); o.idx = p->n; int k = 0;
		char *sv, *t = strtok_r(line, " \n", &sv); if (!t) continue;
		o.kind = op_byname(t); if (o.kind < 0) sim_harness_error("unknown op %s", t);
		while ((t = strtok_r(NULL, " \n", &sv))) {
			if (!strncmp(t, "s:", 2)) { size_t l = strlen(t + 2) / 2; o.s = hmalloc(l + 1); o.n = l; for (size_t i = 0; i < l; i++) { unsigned v; sscanf(t + 2 + 2 * i, "%2x", &v); o.s[i] = (unsigned char)v; } o.s[l] = 0; }
			else if (!strncmp(t, "f:", 2)) { int m; sscanf(t + 2, "%d:%ld:%ld", &m, &o.f.k, &o.f.n); o.f.mode = (enum fmode)m; }
			else if (!strncmp(t, "i:", 2)) o.idx = atoi(t + 2);
			else if (!strncmp(t, "t:", 2)) { o.t = atoi(t + 2); if (o.t && !p->nthr) { p->nthr = 1; p->smode = 5; } if (o.t > p->nthr) p->nthr = o.t; }
			else if (!strcmp(t, "r")) o.retry = 1;
			else if (!strncmp(t, "b:", 2)) o.branch = atol(t + 2);
			else if (k < OPA) o.a[k++] = atol(t);
		}
		if ((size_t)p->n >= cap) { cap = cap ? cap * 2 : 32; p->ops = hrealloc(p->ops, cap * sizeof *p->ops); }
		p->ops[p->n++] = o;
	}
	return p;
}
void plan_free(struct plan *p) { for (int i = 0; i < p->n; i++) hfree(p->ops[i].s); hfree(p->ops); hfree(p->sw); hfree(p); }
