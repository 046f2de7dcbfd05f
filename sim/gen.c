/* Pattern generator for every dialect. */
#include "gen.h"
#include <re/re.h>

struct out { struct rng *r; char *b; size_t n, max; int depth; unsigned opts; int budget; };
static void put(struct out *o, char c) { if (o->n < o->max) o->b[o->n++] = c; }
static void puts_(struct out *o, const char *s) { while (*s) put(o, *s++); }
static void putn(struct out *o, unsigned n) { char t[12]; snprintf(t, sizeof t, "%u", n); puts_(o, t); }

static void lit(struct out *o) {
	static const char *odd[] = { "\\n", "\\t", "\\x41", "\\x00", "\\\\", "\\.", "\\x{ff}", "\\$", "\\[" };
	if (chance(o->r, 1, 25)) { puts_(o, odd[rn(o->r, 9)]); return; }
	put(o, (char)('a' + rn(o->r, chance(o->r, 1, 6) ? 6 : 3)));
}
static void cls(struct out *o, bool esc) {
	put(o, '['); if (chance(o->r, 1, 4)) put(o, '^');
	unsigned k = 1 + rn(o->r, 3);
	for (unsigned i = 0; i < k; i++) {
		char c = (char)('a' + rn(o->r, 4)); put(o, c);
		if (chance(o->r, 1, 4)) { put(o, '-'); put(o, (char)(c + (int)rn(o->r, 4))); }
	}
	if (esc && chance(o->r, 1, 12)) puts_(o, "\\d");
	if (esc && chance(o->r, 1, 14)) puts_(o, "[:alpha:]");
	put(o, ']');
}
static void quant(struct out *o, bool pcre) {
	switch (rn(o->r, 9)) {
	case 0: case 1: put(o, '*'); break;
	case 2: case 3: put(o, '+'); break;
	case 4: case 5: put(o, '?'); break;
	case 6: put(o, '{'); putn(o, rn(o->r, 3)); put(o, ','); put(o, '}'); break;
	case 7: { unsigned m = rn(o->r, 3); put(o, '{'); putn(o, m); put(o, ','); putn(o, m + rn(o->r, 3)); put(o, '}'); break; }
	case 8: put(o, '{'); putn(o, rn(o->r, 4)); put(o, '}'); break;
	}
	if (pcre && chance(o->r, 1, 12)) put(o, '?');
}
static void alt(struct out *o, enum re_dialect d);
static void atom(struct out *o, enum re_dialect d) {
	bool pcre = d == RE_PCRE;
	o->budget--;
	unsigned k = rn(o->r, 20);
	if (k < 11 || o->budget < 0) lit(o);
	else if (k < 13) put(o, '.');
	else if (k < 15) cls(o, pcre);
	else if (k < 18 && o->depth < 3) {
		o->depth++;
		put(o, '(');
		if (pcre && chance(o->r, 1, 3)) puts_(o, "?:");
		else if (pcre && chance(o->r, 1, 16)) puts_(o, "?i:");
		alt(o, d); put(o, ')'); o->depth--;
	} else if (k == 18 && pcre) {
		static const char *e[] = { "\\d", "\\w", "\\s", "\\D", "\\h", "\\N" };
		puts_(o, e[rn(o->r, 6)]);
	} else if (k == 19 && pcre && (o->opts & GEN_ANCHORS)) {
		static const char *e[] = { "^", "$", "\\A", "\\z", "\\Z" };
		puts_(o, e[rn(o->r, 5)]); return;
	} else lit(o);
	if (chance(o->r, 1, 3)) quant(o, pcre);
}
static void seq(struct out *o, enum re_dialect d) {
	unsigned k = 1 + rn(o->r, o->depth ? 3 : 4);
	if (chance(o->r, 1, 25)) k = 0;
	for (unsigned i = 0; i < k; i++) atom(o, d);
}
static void alt(struct out *o, enum re_dialect d) {
	seq(o, d);
	unsigned k = chance(o->r, 1, 3) ? 1 + rn(o->r, 2) : 0;
	for (unsigned i = 0; i < k; i++) { put(o, '|'); seq(o, d); }
}
size_t gen_pattern(struct rng *r, int dialect, char *buf, size_t max, unsigned opts) {
	struct out o = { r, buf, 0, max, 0, opts, 10 };
	switch (dialect) {
	case RE_PCRE:
		if ((opts & GEN_ANCHORS) && chance(r, 1, 3)) put(&o, '^');
		alt(&o, RE_PCRE);
		if ((opts & GEN_ANCHORS) && chance(r, 1, 3)) put(&o, '$');
		break;
	case RE_NATIVE:
		if ((opts & GEN_ANCHORS) && chance(r, 1, 3)) put(&o, '^');
		alt(&o, RE_NATIVE);
		if ((opts & GEN_ANCHORS) && chance(r, 1, 3)) put(&o, '$');
		break;
	case RE_GLOB: { unsigned k = rn(r, 7); for (unsigned i = 0; i < k; i++) { unsigned q = rn(r, 6); if (q == 0) put(&o, '*'); else if (q == 1) put(&o, '?'); else put(&o, (char)('a' + rn(r, 3))); } break; }
	case RE_LIKE: { unsigned k = rn(r, 7); for (unsigned i = 0; i < k; i++) { unsigned q = rn(r, 8); if (q == 0) put(&o, '%'); else if (q == 1) put(&o, '_'); else if (q == 2) cls(&o, false); else put(&o, (char)('a' + rn(r, 3))); } break; }
	case RE_SQL: {
		unsigned k = rn(r, 7); int open = 0;
		for (unsigned i = 0; i < k; i++) {
			unsigned q = rn(r, 12);
			if (q == 0) put(&o, '%'); else if (q == 1) put(&o, '_'); else if (q == 2) cls(&o, false);
			else if (q == 3) { put(&o, '('); open++; put(&o, 'a'); }
			else if (q == 4 && open) { put(&o, ')'); open--; if (chance(r, 1, 2)) put(&o, "*+?"[rn(r, 3)]); }
			else if (q == 5 && i + 1 < k && i) { put(&o, '|'); put(&o, 'b'); }
			else put(&o, (char)('a' + rn(r, 3)));
		}
		while (open--) put(&o, ')');
		break; }
	default: { unsigned k = rn(r, 6); for (unsigned i = 0; i < k; i++) put(&o, (char)(chance(r, 1, 8) ? rn(r, 256) : 'a' + rn(r, 3))); break; }
	}
	if (opts & GEN_BROKEN) {
		unsigned m = 1 + rn(r, 3);
		while (m--) {
			static const char junk[] = "()[]{}*+?|\\^$-,.:#<>=!&Z0\n\xff";
			unsigned at = rn(r, (unsigned)o.n + 1);
			switch (rn(r, 4)) {
			case 0: if (o.n) { memmove(buf + at, buf + at + 1, at < o.n ? o.n - at - 1 : 0); if (at < o.n) o.n--; } break;
			case 1: case 2: if (o.n < max) { memmove(buf + at + 1, buf + at, o.n - at); buf[at] = junk[rn(r, sizeof junk - 1)]; o.n++; } break;
			case 3: {
				static const char *frag[] = { "{3,1}", "(?", "(?<n>", "[[:foo:]]", "\\Q", "(*", "\\x{110000}", "\\1", "{2999}", "[z-a]", "(?#", "\\c", "[[.a.]]", "(?P", "\\x", "\\8", "(?i", "(?x)# c" };
				const char *f = frag[rn(r, 18)]; size_t fl = strlen(f);
				if (o.n + fl <= max) { memmove(buf + at + fl, buf + at, o.n - at); memcpy(buf + at, f, fl); o.n += fl; }
				break; }
			}
		}
	}
	return o.n;
}
