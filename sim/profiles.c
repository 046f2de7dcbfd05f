/* What each property's histories are made of. */
#include "ops.h"

struct wt { const char *op; int w; };
struct prof {
	const char *name; unsigned oracles;
	int minops, maxops;
	int fault_pct;      /* main-line calls with a random fault */
	int branch_pct;     /* calls whose allocations are enumerated */
	int branch_max;
	unsigned style;     /* mask for build */
	int retry_pct;
	int alset;          /* 0: default mostly; 1: custom mostly */
	const struct wt *w;
};
#define W_(n) static const struct wt n[]
W_(w_algebra) = { {"shape",6},{"union",14},{"unionarray",5},{"concat",10},{"intersect",14},{"subtract",12},{"charset",4},{"complement",8},{"reverse",6},{"clone",12},{"build",8},{"comp",8},
	{"determinise",4},{"minimise",3},{"trim",2},{"rmeps",2},{"edit",3},{"equal",8},{"empty",5},{"shuffle",1},{"vacuum",1},{"merge",1},{"move",1},{"setendid",1},{"free",1},{0,0} };
W_(w_trans) = { {"shape",7},{"determinise",12},{"minimise",12},{"trim",10},{"rmeps",10},{"clone",8},{"shuffle",8},{"vacuum",6},{"complete",6},{"move",4},{"compact",5},{"rmstate",3},{"mergestates",3},{"subgraph",3},{"collate",3},
	{"build",8},{"comp",6},{"edit",6},{"union",4},{"concat",2},{"merge",2},{"reverse",2},{"subtract",2},{"query",3},{0,0} };
W_(w_ids) = { {"shape",9},{"setendid",8},{"mapids",6},{"incrids",3},{"determinise",8},{"minimise",8},{"trim",5},{"rmeps",5},{"clone",6},{"shuffle",5},{"union",8},{"unionarray",5},{"concat",4},{"intersect",6},{"subtract",5},{"charset",2},
	{"merge",3},{"compact",4},{"complete",2},{"move",2},{"vacuum",2},{"build",8},{"comp",4},{"edit",6},{"strings",1},{0,0} };
W_(w_eager) = { {"group",30},{"eagerset",14},{"build",10},{"determinise",10},{"minimise",10},{"trim",6},{"rmeps",6},{"clone",5},{"shuffle",3},{"vacuum",2},{"move",2},{"engines",8},{"compact",2},{0,0} };
W_(w_all) = { {"shape",4},{"build",6},{"edit",6},{"comp",8},{"union",5},{"unionarray",4},{"concat",5},{"intersect",5},{"subtract",5},{"charset",3},{"complement",5},{"reverse",5},{"determinise",6},{"detlimit",3},{"minimise",6},{"trim",5},{"rmeps",5},
	{"clone",5},{"shuffle",4},{"vacuum",3},{"complete",3},{"merge",4},{"move",2},{"compact",4},{"rmstate",3},{"mergestates",3},{"subgraph",3},{"collate",3},{"equal",4},{"empty",3},{"setendid",3},{"eagerset",4},{"query",2},
	{"strnew",2},{"stradd",5},{"strbuild",3},{"strings",2},{"engines",4},{"generate",4},{"required",3},{"example",3},{"shortest",2},{"print",8},{"roundtrip",2},{"group",5},{"rex",4},{"mapids",1},{"vmc",2},{"vmrun",1},{"vmsave",1},{"capture",3},{0,0} };
W_(w_limit) = { {"shape",5},{"detlimit",20},{"required",14},{"query",14},{"mapids",8},{"generate",8},{"build",10},{"comp",10},{"edit",3},{"determinise",4},{"union",4},{"reverse",4},{"clone",3},{"setendid",3},{"minimise",2},{0,0} };
W_(w_rex) = { {"rex",100},{0,0} };
W_(w_shared) = { {"engines",14},{"query",14},{"equal",10},{"empty",5},{"example",8},{"shortest",5},{"required",8},{"print",16},{"clone",14},{"roundtrip",4},{"vmrun",12},{"vmc",4},{0,0} };
W_(w_private) = { {"determinise",5},{"minimise",5},{"trim",4},{"reverse",2},{"complement",3},{"setendid",4},{"eagerset",2},{"edit",4},{"engines",3},{"print",3},{"generate",3},{"query",3},{"rmeps",3},{"shuffle",1},{"vacuum",1},{"union",2},{"intersect",2},{"mapids",2},{0,0} };
W_(w_engines) = { {"shape",8},{"engines",50},{"build",8},{"comp",12},{"rex",3},{"determinise",4},{"minimise",6},{"union",4},{"reverse",2},{"strings",4},{"intersect",2},{"complement",2},{"vmc",10},{"vmrun",10},{"vmsave",8},{"native",12},{0,0} };
W_(w_native) = { {"shape",6},{"native",30},{"build",10},{"comp",12},{"setendid",12},{"determinise",8},{"minimise",8},{"union",8},{"strings",3},{"intersect",2},{"complement",2},{"reverse",1},{"group",2},{0,0} };
W_(w_print) = { {"shape",6},{"print",50},{"build",10},{"comp",10},{"determinise",4},{"minimise",4},{"setendid",5},{"union",4},{"eagerset",2},{"clone",2},{0,0} };
W_(w_parse) = { {"shape",4},{"roundtrip",22},{"parse",24},{"build",12},{"comp",8},{"setendid",5},{"determinise",3},{"minimise",2},{"union",3},{"edit",3},{"clone",1},{0,0} };
W_(w_gen) = { {"shape",6},{"generate",40},{"example",16},{"shortest",14},{"build",14},{"comp",14},{"determinise",4},{"minimise",4},{"union",3},{"reverse",2},{"edit",3},{"shuffle",3},{"setendid",2},{0,0} };
W_(w_cap) = { {"capture",80},{"shape",4},{"determinise",6},{"minimise",4},{"union",4},{0,0} };
W_(w_mean) = { {"meaning",90},{"union",2},{"determinise",3},{"minimise",3},{"reverse",1},{0,0} };
W_(w_desc) = { {"shape",6},{"describe",40},{"build",12},{"comp",10},{"setendid",10},{"edit",3},{"determinise",6},{"minimise",6},{"union",6},{"strings",3},{"complement",2},{"complete",2},{"reverse",2},{"group",1},{"clone",2},{0,0} };
W_(w_str) = { {"strnew",6},{"stradd",40},{"strbuild",22},{"strings",10},{"strfree",2},{"determinise",2},{"minimise",2},{0,0} };

static const struct prof profs[] = {
	{ "C01", O_LANG, 8, 26, 12, 0, 0, 0x7f, 40, 0, w_algebra },
	{ "C02", O_LANG | O_POST, 6, 24, 10, 0, 0, 0x7f, 40, 0, w_trans },
	{ "C03", O_IDS, 8, 26, 10, 0, 0, 0x7f, 40, 0, w_ids },
	{ "C04", O_EAGER, 4, 14, 8, 0, 0, 0xff, 40, 0, w_eager },
	{ "C05", O_LANG | O_IDS | O_EAGER | O_POST, 6, 12, 6, 45, 24, 0xff, 50, 0, w_all },
	{ "C06", O_LEAK | O_ALLOC, 6, 12, 6, 45, 24, 0xff, 50, 1, w_all },
	{ "C07", O_UNCH | O_RETRY | O_LANG | O_IDS, 6, 12, 6, 45, 24, 0xff, 100, 0, w_all },
	{ "C08", O_LEAK, 2, 8, 15, 25, 20, 0x7f, 50, 0, w_rex },
	{ "C09", O_LANG, 5, 14, 8, 8, 12, 0x7f, 50, 0, w_engines },
	{ "C10", O_LEAK, 5, 14, 6, 30, 24, 0xff, 50, 0, w_print },
	{ "C11", O_LANG | O_IDS | O_GROUPED, 5, 14, 6, 10, 8, 0x7f, 50, 0, w_parse },
	{ "C12", 0, 3, 6, 10, 0, 0, 0xff, 50, 0, w_shared },
	{ "C13", 0, 3, 7, 12, 0, 0, 0xff, 50, 0, w_all },
	{ "C16", O_LANG | O_LEAK, 5, 14, 8, 15, 16, 0x7f, 50, 0, w_gen },
	{ "C17", O_LANG | O_IDS | O_POST, 5, 16, 8, 8, 12, 0x7f, 50, 0, w_limit },
	{ "C19", O_LANG | O_IDS | O_POST | O_STRID, 6, 30, 8, 10, 12, 0x7f, 60, 0, w_str },
	{ "C23", O_LANG, 4, 12, 5, 0, 0, 0x7f, 50, 0, w_native },
	{ "C24", O_LEAK, 4, 14, 10, 8, 16, 0x7f, 50, 0, w_cap },
	{ "C20", O_LEAK, 4, 14, 12, 6, 14, 0x7f, 50, 0, w_mean },
	{ "C22", O_LEAK | O_ANCH, 4, 14, 12, 6, 14, 0x7f, 50, 0, w_mean },
	{ "C25", O_LANG, 5, 14, 5, 0, 0, 0x7f, 50, 0, w_desc },
	{ NULL }
};
static const struct prof *find(const char *n) { for (const struct prof *p = profs; p->name; p++) if (!strcmp(p->name, n)) return p; sim_harness_error("unknown profile %s", n); }
unsigned profile_oracles(const char *n) { return find(n)->oracles; }

static const int dias[] = { RE_LIKE, RE_LITERAL, RE_GLOB, RE_NATIVE, RE_SQL, RE_PCRE };
static long reflags(struct rng *r) {
	long f = 0; if (chance(r, 1, 5)) f |= RE_ICASE; if (chance(r, 1, 8)) f |= RE_SINGLE; if (chance(r, 1, 12)) f |= RE_END_NL; if (chance(r, 1, 12)) f |= RE_ANCHORED; if (chance(r, 1, 20)) f |= RE_EXTENDED; if (chance(r, 1, 12)) f |= RE_SAVE_LINKAGE_INFO; return f;
}
static void setstr(struct op *o, const void *s, size_t n) { o->s = hmalloc(n + 1); memcpy(o->s, s, n); o->s[n] = 0; o->n = n; }
static void setpat(struct rng *r, struct op *o, int dia, unsigned opts) { char b[200]; size_t n = gen_pattern(r, dia, b, 8 + rn(r, 100), opts); setstr(o, b, n); }
static long slotpick(struct rng *r) { return chance(r, 3, 4) ? rn(r, 4) : rn(r, NS); }
static void word(struct rng *r, struct op *o) {
	unsigned char b[40]; size_t n = rn(r, 6); if (chance(r, 1, 10)) n = rn(r, 30); unsigned k = chance(r, 1, 5) ? 256 : 3;
	for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(k == 256 ? rn(r, 256) : 'a' + rn(r, 3));
	setstr(o, b, n);
}
static void args(struct rng *r, const struct prof *p, const char *op, struct op *o, const int *als) {
	long *a = o->a; int al = als[chance(r, 4, 5) ? 0 : 1];
#define IS(x) (!strcmp(op, x))
	for (int i = 1; i < OPA; i++) a[i] = (long)(rnd(r) & 0xfffff);
	a[0] = slotpick(r);
	if (IS("shape")) { a[1] = al; a[3] = chance(r, 1, 2) ? rn(r, 1000) : rn(r, 12); if (!strcmp(p->name, "C05") || !strcmp(p->name, "C06") || !strcmp(p->name, "C07")) a[3] %= 20; }
	else if (IS("build")) { a[1] = al; a[2] = 1 + rn(r, chance(r, 1, 3) ? 4 : 12); if (chance(r, 1, 12)) a[2] = 0; a[3] = chance(r, 1, 4) ? rn(r, 40) : rn(r, 18); unsigned st = 0; if (chance(r, 1, 2)) st |= 1; if (chance(r, 1, 3)) st |= 2; if (chance(r, 2, 3)) st |= 4; if (chance(r, 1, 2)) st |= 8; if (chance(r, 1, 5)) st |= 16; if (chance(r, 1, 4)) st |= 32; if (chance(r, 1, 8)) st |= 64; if (chance(r, 1, 2)) st |= 128; if (!strcmp(p->name, "C03")) st |= 8; a[5] = st & p->style; }
	else if (IS("edit")) { a[1] = rn(r, 8); a[4] = chance(r, 3, 4) ? 'a' + rn(r, 3) : rn(r, 256); }
	else if (IS("comp") || IS("rex")) {
		a[1] = al; int d = chance(r, 1, 2) ? 5 : chance(r, 1, 2) ? 3 : (int)rn(r, 6); a[2] = d; a[3] = reflags(r);
		bool rex = IS("rex"); setpat(r, o, dias[d], (chance(r, 1, rex ? 3 : 20) ? GEN_BROKEN : 0) | (chance(r, 1, 3) ? GEN_ANCHORS : 0));
		if (rex) { if (chance(r, 1, 12) && o->n) { o->s[rn(r, (unsigned)o->n)] = (unsigned char)rn(r, 256); } a[5] = chance(r, 1, 2) ? -1 : 1 + rn(r, 7); if ((a[4] & 3) == 1) a[5] = rn(r, 100); a[6] = chance(r, 1, 4) ? rn(r, 100) : -1; }
	}
	else if (IS("meaning")) {
		int d = chance(r, 3, 5) ? 5 : chance(r, 1, 2) ? 3 : (int)rn(r, 6); a[1] = al; a[2] = d; a[3] = 0; if (chance(r, 1, 5)) a[3] |= RE_ICASE; if (chance(r, 1, 8)) a[3] |= RE_SINGLE; if (chance(r, 1, 12)) a[3] |= RE_ANCHORED; if (chance(r, 1, 12)) a[3] |= RE_EXTENDED; if (chance(r, 1, 12)) a[3] |= RE_REVERSE; if (chance(r, 1, 12)) a[3] |= RE_SAVE_LINKAGE_INFO;
		unsigned char b[128]; size_t n = gen_meaning(r, d, b, chance(r, 1, 2) ? 24 : 100, a + 3, chance(r, 1, 5) ? 2 : (p->oracles & O_ANCH) || chance(r, 1, 8)); setstr(o, b, n);
	}
	else if (IS("unionarray")) { for (int i = 0; i < 4; i++) a[i] = chance(r, 1, 4) ? -1 : rn(r, NS); }
	else if (IS("charset")) { unsigned char b[8]; size_t n = rn(r, 5); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)('a' + rn(r, 4)); setstr(o, b, n); if (chance(r, 1, 10)) { hfree(o->s); o->s = NULL; o->n = 0; } }
	else if (IS("union") || IS("concat") || IS("intersect") || IS("subtract") || IS("merge") || IS("move") || IS("clone") || IS("equal")) { a[1] = slotpick(r); if (a[1] == a[0]) a[1] = (a[0] + 1 + rn(r, 3)) % NS; }
	else if (IS("setendid") || IS("eagerset")) { a[1] = chance(r, 3, 4) ? rn(r, 10) : rn(r, 1000); if (chance(r, 1, 20)) a[1] = UINT_MAX; }
	else if (IS("mapids")) a[2] = chance(r, 1, 3) ? rn(r, 4) : -1;
	else if (IS("incrids")) a[1] = rn(r, 50);
	else if (IS("strnew") || IS("strfree")) a[0] = rn(r, NSETS);
	else if (IS("stradd")) { a[0] = rn(r, NSETS); a[1] = chance(r, 3, 4) ? rn(r, 5) : rn(r, 1000); a[2] = rn(r, 4) | (chance(r, 1, 2) ? 1 : 0); word(r, o); }
	else if (IS("strbuild")) { a[0] = rn(r, NSETS); a[1] = slotpick(r); a[3] = al; }
	else if (IS("strings")) { unsigned char b[60]; size_t n = rn(r, 30); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(chance(r, 1, 4) ? 0 : 'a' + rn(r, 3)); setstr(o, b, n); a[1] = al; }
	else if (IS("print")) { a[4] = chance(r, 1, 2) ? (long)rn(r, 5000) : -1; a[6] = chance(r, 1, 8) ? (long)rn(r, 6) : -1; a[3] = rn(r, 5); if (chance(r, 1, 2)) a[2] &= 0x1fff; if (chance(r, 1, 2)) a[2] &= ~0x1800L; }
	else if (IS("roundtrip")) { if (!chance(r, 1, 24)) a[3] &= ~8L; a[1] = slotpick(r); a[2] = al; a[4] = chance(r, 1, 2) ? -1 : rn(r, 5); a[5] = rn(r, 5); }
	else if (IS("parse")) { a[1] = (a[0] + 1 + rn(r, 3)) % NS; a[2] = al; a[4] = chance(r, 1, 2) ? -1 : rn(r, 5); a[5] = chance(r, 1, 4) ? rn(r, 400) : -1; }
	else if (IS("vmsave")) { if (chance(r, 1, 2)) a[3] = -1; else if (chance(r, 1, 3)) a[3] %= 30; if (chance(r, 1, 3)) a[4] = -1; else if (chance(r, 1, 3)) a[4] %= 30; }
	else if (IS("native")) { if (!strcmp(p->name, "C23")) a[2] |= 1; else a[2] &= ~1L; }
	else if (IS("generate")) { a[1] = 1 + rn(r, 7); if (chance(r, 1, 30)) a[1] = 0; a[4] = chance(r, 1, 4) ? rn(r, 8) : -1; }
	else if (IS("group")) {
		unsigned n = 1 + rn(r, 4); char b[300]; size_t l = 0;
		for (unsigned i = 0; i < n; i++) {
			char t[64]; if (i) b[l++] = '\n';
			/* anchors and overlaps matter most */
			if (chance(r, 1, 3)) l += (size_t)sprintf(b + l, "^");
			size_t k = gen_pattern(r, RE_PCRE, t, 3 + rn(r, 20), chance(r, 1, 5) ? GEN_ANCHORS : 0); for (size_t j = 0; j < k; j++) if (t[j] != '\n') b[l++] = t[j];
			if (chance(r, 1, 3)) l += (size_t)sprintf(b + l, "$");
		}
		setstr(o, b, l); a[3] = chance(r, 1, 4) ? (long)(rnd(r) & 0x7ff & ~RE_ANCHORED) : 0; a[4] = al; a[1] |= 2;
	}
}
static const char *pickop(struct rng *r, const struct wt *w) { int tot = 0; for (const struct wt *x = w; x->op; x++) tot += x->w; int k = (int)rn(r, (unsigned)tot); for (;; w++) { if (k < w->w) return w->op; k -= w->w; } }
static struct op *addop(struct rng *r, struct plan *pl, const struct prof *p, const char *name, int t, const int *als) {
	struct op *o = &pl->ops[pl->n]; memset(o, 0, sizeof *o); o->idx = pl->n++; o->t = t; o->kind = op_byname(name); if (o->kind < 0) sim_harness_error("profile names unknown op %s", name);
	args(r, p, name, o, als); if (!strcmp(name, "shape")) o->a[3] %= 24; return o;
}
static void rndfault(struct rng *r, struct op *o, int retry_pct) {
	switch (rn(r, 7)) {
	case 6: o->f.mode = F_LARGE; o->f.k = 1l << (4 + rn(r, 10)); o->f.n = chance(r, 1, 2) ? 0 : rn(r, 6); break;
	case 0: case 1: case 2: o->f.mode = F_SINGLE; o->f.k = rn(r, 1u << rn(r, 8)); break;
	case 3: o->f.mode = F_FROM; o->f.k = rn(r, 1u << rn(r, 8)); break;
	case 4: o->f.mode = F_BURST; o->f.k = rn(r, 1u << rn(r, 8)); o->f.n = 2 + rn(r, 6); break;
	case 5: o->f.mode = F_RANDOM; o->f.k = 0; o->f.n = 3 + rn(r, 40); break;
	}
	o->retry = (int)rn(r, 100) < retry_pct;
}
static void gen_threads(struct rng *r, struct plan *pl, const struct prof *p, const int *als) {
	bool shared = p->w == w_shared; pl->nthr = 2 + (int)rn(r, chance(r, 1, 2) ? 1 : 3); pl->ops = hcalloc(128, sizeof *pl->ops);
	static const long gaps[] = { 2, 5, 20, 60, 200, 1000, 5000 };
	static const int modes[] = { 1, 1, 1, 2, 2, 3, 4 };
	pl->smode = modes[rn(r, 7)]; pl->sgap = gaps[rn(r, 7)]; pl->sseed = rnd(r);
	if (shared) for (int i = 0; i < 3; i++) {
		struct op *o = addop(r, pl, p, chance(r, 1, 5) ? "shape" : chance(r, 1, 6) ? "group" : chance(r, 1, 2) ? "comp" : "build", 0, als); o->a[0] = i;
		if (chance(r, 1, 3)) addop(r, pl, p, "setendid", 0, als)->a[0] = i;
		if (chance(r, 1, 8)) addop(r, pl, p, "eagerset", 0, als)->a[0] = i;
		if (chance(r, i ? 2 : 7, i ? 3 : 8)) addop(r, pl, p, chance(r, 1, 2) ? "determinise" : "minimise", 0, als)->a[0] = i;
		if (chance(r, 1, 2)) { o = addop(r, pl, p, "vmc", 0, als); o->a[0] = i; o->a[1] = i; }
	}
	bool dry = chance(r, 1, 2), same = !shared && chance(r, 1, 6); int first = pl->n, len = 0;
	for (int t = 1; t <= pl->nthr; t++) {
		if (same && t > 1) { /* the same history everywhere */
			for (int i = 0; i < len; i++) { pl->ops[pl->n] = pl->ops[first + i]; struct op *o = &pl->ops[pl->n]; o->idx = pl->n++; o->t = t; if (o->s) { unsigned char *c = hmalloc(o->n + 1); memcpy(c, o->s, o->n + 1); o->s = c; } }
			continue;
		}
		int n = p->minops + (int)rn(r, (unsigned)(p->maxops - p->minops + 1));
		for (int i = 0; i < n; i++) {
			struct op *o;
			if (!shared) {
				o = addop(r, pl, p, i < 2 ? (chance(r, 1, 2) ? "comp" : chance(r, 1, 4) ? "rex" : "build") : pickop(r, p->w), t, als);
				const char *nm = opdefs[o->kind].name;
				if (i < 2) o->a[0] = i;
				else if (strncmp(nm, "str", 3) && chance(r, 5, 6)) {
					o->a[0] = rn(r, 2);
					if (!strcmp(nm, "union") || !strcmp(nm, "concat") || !strcmp(nm, "intersect") || !strcmp(nm, "subtract") || !strcmp(nm, "merge") || !strcmp(nm, "equal") || !strcmp(nm, "clone")) o->a[1] = o->a[0] ^ 1;
				}
			} else if (i && chance(r, 1, 3)) {
				o = addop(r, pl, p, pickop(r, w_private), t, als); o->a[0] = 3; if (o->a[1] < 6 && (!strcmp(opdefs[o->kind].name, "union") || !strcmp(opdefs[o->kind].name, "intersect"))) o->a[1] = 4 + o->a[1] % 2;
			} else {
				const char *nm = pickop(r, p->w); o = addop(r, pl, p, nm, t, als);
				o->a[0] = chance(r, 2, 3) ? 0 : rn(r, 3);
				if (!strcmp(nm, "equal")) o->a[1] = rn(r, 3);
				if (!strcmp(nm, "clone") || !strcmp(nm, "roundtrip")) o->a[1] = 3 + rn(r, 3);
			}
			if (opdefs[o->kind].flags & OF_FREE) continue;
			if (!dry && (int)rn(r, 100) < p->fault_pct) rndfault(r, o, p->retry_pct);
		}
		len = pl->n - first;
	}
}
struct plan *plan_gen(const char *profile, u64 seed, u64 run) {
	const struct prof *p = find(profile); struct rng r = { mix64(mix64(seed, 0x51), run) };
	struct plan *pl = hcalloc(1, sizeof *pl); snprintf(pl->profile, sizeof pl->profile, "%s", profile); pl->seed = seed; pl->run = run;
	static const unsigned fills[] = { 0xa5, 0x00, 0xff, 0x5a }; pl->fill = fills[rn(&r, 4)];
	int als[2]; als[0] = p->alset ? (chance(&r, 1, 4) ? 0 : 1 + (int)rn(&r, 3)) : (chance(&r, 2, 3) ? 0 : 1); als[1] = chance(&r, 1, 2) ? als[0] : 1 + (int)rn(&r, NTAGS - 1);
	if (p->w == w_shared || !strcmp(p->name, "C13")) { gen_threads(&r, pl, p, als); return pl; }
	int n = p->minops + (int)rn(&r, (unsigned)(p->maxops - p->minops + 1)); pl->ops = hcalloc((size_t)n + 8, sizeof *pl->ops);
	int tot = 0; for (const struct wt *w = p->w; w->op; w++) tot += w->w;
	bool rexonly = p->w == w_rex || p->w == w_mean, stronly = p->w == w_str, eager = p->w == w_eager;
	/* swarm: each run leaves some operations out */
	bool off[64] = { 0 }; int nw = 0; for (const struct wt *w = p->w; w->op; w++, nw++) off[nw] = nw > 2 && chance(&r, 1, 4);
	int init = rexonly ? 0 : stronly ? 1 : 2 + (int)rn(&r, 3);
	bool dry = chance(&r, 1, 5); /* a run without main-line faults */
	for (int i = 0; i < n; i++) {
		const char *name = NULL;
		if (i < init) name = stronly ? "strnew" : chance(&r, 2, 5) ? "comp" : chance(&r, 1, 5) && !eager ? "shape" : "build";
		else while (!name) { int k = (int)rn(&r, (unsigned)tot), j = 0; for (const struct wt *w = p->w; w->op; w++, j++) { if (k < w->w) { if (!off[j] || chance(&r, 1, 50)) name = w->op; break; } k -= w->w; } }
		struct op *o = &pl->ops[pl->n++]; o->idx = i; o->kind = op_byname(name); if (o->kind < 0) sim_harness_error("profile names unknown op %s", name);
		args(&r, p, name, o, als);
		if (i < init && !stronly) o->a[0] = i;
		if (opdefs[o->kind].flags & OF_FREE) continue;
		if (getenv("SIM_NOFAULT")) continue; /* developer aid */
		if (p->branch_pct && (int)rn(&r, 100) < p->branch_pct) o->branch = p->branch_max;
		else if (!dry && (int)rn(&r, 100) < p->fault_pct) {
			rndfault(&r, o, p->retry_pct);
		}
	}
	/* now and then, thresholds which only size reaches */
	static const struct { const char *p; unsigned in; const char *what; } bigs[] = { { "C01", 60, "4" }, { "C02", 40, "122" }, { "C03", 60, "12" }, { "C04", 30, "7" }, { "C05", 8, "01225577" }, { "C06", 8, "01225577" }, { "C07", 8, "0122" }, { "C09", 40, "0" }, { "C11", 40, "3" }, { "C16", 40, "6" }, { "C19", 40, "5" } };
	for (size_t i = 0; i < sizeof bigs / sizeof *bigs; i++) if (!strcmp(p->name, bigs[i].p) && chance(&r, 1, bigs[i].in)) {
		struct op *o = addop(&r, pl, p, "big", 0, als); o->idx = n; o->a[5] = bigs[i].what[rn(&r, (unsigned)strlen(bigs[i].what))] - '0'; o->branch = 0;
		if (p->branch_pct && chance(&r, 3, 4)) { /* far more allocations than elsewhere: a point drawn from all of them */
			rndfault(&r, o, 80); if (o->f.mode != F_LARGE && o->f.mode != F_RANDOM) o->f.k = rn(&r, 1u << rn(&r, 16)); else if (o->f.mode == F_RANDOM) o->f.n = 3 + rn(&r, 1u << rn(&r, 13)); else o->f.k = 1l << (6 + rn(&r, 12));
			if (!strcmp(p->name, "C07")) o->retry = 1;
		}
	}
	return pl;
}
