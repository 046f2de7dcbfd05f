/*
 * What patterns mean: an independent parser of the dialects (conservative: it answers "don't know" rather than guess), which builds
 * the reference automaton from the text. Patterns are compiled from a simulated character source under faults, and what comes out, then
 * and after transformations, must have that language.
 */
#define _GNU_SOURCE
#include "ops.h"
#include <errno.h>
#include <ctype.h>
#include <re/literal.h>

typedef struct { u64 w[4]; } set;
static bool has(const set *s, unsigned c) { return s->w[c >> 6] >> (c & 63) & 1; }
static void inc(set *s, unsigned c) { s->w[c >> 6] |= (u64)1 << (c & 63); }
static set set_none(void) { set s = {{ 0 }}; return s; }
static set set_not(set s) { for (int i = 0; i < 4; i++) s.w[i] = ~s.w[i]; return s; }
static set set_or(set a, set b) { for (int i = 0; i < 4; i++) a.w[i] |= b.w[i]; return a; }
static set set_minus(set a, set b) { for (int i = 0; i < 4; i++) a.w[i] &= ~b.w[i]; return a; }
static bool up(unsigned c) { return c >= 'A' && c <= 'Z'; }
static bool low(unsigned c) { return c >= 'a' && c <= 'z'; }
static bool dig(unsigned c) { return c >= '0' && c <= '9'; }
static set set_fold(set s) { set r = s; for (unsigned c = 'A'; c <= 'Z'; c++) { if (has(&s, c)) inc(&r, c + 32); if (has(&s, c + 32)) inc(&r, c); } return r; }
static bool in_class(const char *n, unsigned c, bool *known) {
	*known = true; bool print = c >= 32 && c < 127, al = up(c) || low(c);
	if (!strcmp(n, "alnum")) return al || dig(c);
	if (!strcmp(n, "alpha")) return al;
	if (!strcmp(n, "ascii")) return c < 128;
	if (!strcmp(n, "blank") || !strcmp(n, "hspace")) return c == ' ' || c == '\t';
	if (!strcmp(n, "cntrl")) return c < 32 || c == 127;
	if (!strcmp(n, "digit")) return dig(c);
	if (!strcmp(n, "graph")) return print && c != ' ';
	if (!strcmp(n, "lower")) return low(c);
	if (!strcmp(n, "print")) return print;
	if (!strcmp(n, "punct")) return print && c != ' ' && !al && !dig(c);
	if (!strcmp(n, "space")) return c == ' ' || (c >= 9 && c <= 13);
	if (!strcmp(n, "upper")) return up(c);
	if (!strcmp(n, "vspace")) return c >= 10 && c <= 13;
	if (!strcmp(n, "word")) return al || dig(c) || c == '_';
	if (!strcmp(n, "xdigit")) return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
	if (!strcmp(n, "\\h")) return c == ' ' || c == '\t' || c == 0xa0;
	if (!strcmp(n, "\\v")) return (c >= 10 && c <= 13) || c == 0x85;
	if (!strcmp(n, "only space")) return c == ' ';
	*known = false; return false;
}
static bool named(const char *n, set *s) { bool k = false; *s = set_none(); for (unsigned c = 0; c < 256; c++) if (in_class(n, c, &k)) inc(s, c); return k; }

/* syntax tree */
enum { N_SET, N_EMPTY, N_CAT, N_ALT, N_REP, N_START, N_END, N_ENDNL };
struct node { int k; set s; int a, b; unsigned min, max; };
#define INF 1000u
#define MAXN 600
enum { J_OK, J_REFUSE, J_UNKNOWN };
struct pp { const unsigned char *t; size_t n, i; int di; bool icase, single, ext; int judge; struct node v[MAXN]; int nv; unsigned depth; bool anchors, unsure; };
static int mk(struct pp *p, int k, int a, int b) { if (p->nv == MAXN) { p->judge = J_UNKNOWN; return 0; } p->v[p->nv] = (struct node) { .k = k, .a = a, .b = b }; return p->nv++; }
static int mkset(struct pp *p, set s) { int x = mk(p, N_SET, 0, 0); p->v[x].s = p->icase ? set_fold(s) : s; return x; }
static int mkbyte(struct pp *p, unsigned c) { set s = set_none(); inc(&s, c); return mkset(p, s); }
static int unknown(struct pp *p) { p->judge = J_UNKNOWN; p->i = p->n; return mk(p, N_EMPTY, 0, 0); }
/* must be refused; what comes after doesn't matter */
static int refuse(struct pp *p) { if (p->judge == J_OK) p->judge = J_REFUSE; p->i = p->n; return mk(p, N_EMPTY, 0, 0); }
static int at(const struct pp *p, size_t k) { return p->i + k < p->n ? p->t[p->i + k] : -1; }
static bool lit(struct pp *p, const char *s) { size_t l = strlen(s); if (p->n - p->i < l || memcmp(p->t + p->i, s, l)) return false; p->i += l; return true; }
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int p_alts(struct pp *p);
static set dot(struct pp *p) { set s = set_none(); if (!p->single) inc(&s, '\n'); return set_not(s); }
static bool special_letter(int c) { return isalnum(c); }

/* after a backslash, in or out of a group: one byte, or -1 if it's something else, -2 refuse, -3 unknown; consumes it */
static int escape(struct pp *p, bool grp) {
	int c = at(p, 0); if (c < 0) return -2;
	if (p->di == RE_NATIVE) {
		if (c == 'x') { int a = hexval(at(p, 1)), b = a < 0 ? -1 : hexval(at(p, 2)); if (b < 0) return -3; p->i += 3; return a * 16 + b; }
		if (c >= '0' && c <= '7') { unsigned u = 0, k = 0; while (at(p, 0) >= '0' && at(p, 0) <= '7' && (grp || k < 3)) { if (u < 100000) u = u * 8 + (unsigned)(at(p, 0) - '0'); p->i++; k++; } return u > 255 ? -2 : (int)u; }
		const char *set_ = grp ? "\\^-[]" : "\\^$?*+.|(){["; const char *ws = "f\fn\nr\rt\tv\v";
		for (const char *q = ws; *q; q += 2) if (*q == c) { p->i++; return (unsigned char)q[1]; }
		if (c && strchr(set_, c)) { p->i++; return c; }
		return -3;
	}
	switch (c) {
	case 'a': p->i++; return 7; case 'e': p->i++; return 27; case 'f': p->i++; return '\f'; case 'n': p->i++; return '\n'; case 'r': p->i++; return '\r'; case 't': p->i++; return '\t';
	case 'b': if (!grp) return -2; p->i++; return 8;
	case 'c': { if (grp) return -3; int x = at(p, 1); if (x < 0) return -3; if (x < 32 || x > 126) return -2; p->i += 2; return (low((unsigned)x) ? x - 32 : x) ^ 0x40; }
	case 'x':
		if (at(p, 1) == '{') { unsigned u = 0; size_t k = 2; for (; hexval(at(p, k)) >= 0; k++) if (u < 100000) u = u * 16 + (unsigned)hexval(at(p, k)); if (k == 2 || at(p, k) != '}') return -3; p->i += k + 1; return u > 255 ? -3 : (int)u; }
		{ unsigned u = 0; size_t k = 1; for (; k < 3 && hexval(at(p, k)) >= 0; k++) u = u * 16 + (unsigned)hexval(at(p, k)); p->i += k; return (int)u; }
	case 'o': { if (at(p, 1) != '{') return -3; unsigned u = 0; size_t k = 2; for (; at(p, k) >= '0' && at(p, k) <= '7'; k++) if (u < 100000) u = u * 8 + (unsigned)(at(p, k) - '0'); if (k == 2 || at(p, k) != '}') return -3; p->i += k + 1; return u > 255 ? -3 : (int)u; }
	case '0': { unsigned u = 0; size_t k = 1; for (; k < 3 && at(p, k) >= '0' && at(p, k) <= '7'; k++) u = u * 8 + (unsigned)(at(p, k) - '0'); p->i += k; return (int)u; }
	}
	if (c >= '1' && c <= '9') return grp ? -3 : -2;
	if (special_letter(c)) return -1;
	if (c < 128 && c > 32) { p->i++; return c; }
	return -3;
}
/* \d and such, the backslash consumed */
static bool type(struct pp *p, set *s) {
	static const struct { char c; const char *n; } t[] = { { 'd', "digit" }, { 's', "space" }, { 'w', "word" }, { 'h', "\\h" }, { 'v', "\\v" } };
	int c = at(p, 0); if (p->di != RE_PCRE) return false;
	for (unsigned i = 0; i < 5; i++) if (c == t[i].c || c == t[i].c - 32) { named(t[i].n, s); if (c != t[i].c) *s = set_not(*s); p->i++; return true; }
	return false;
}
static bool named_at(struct pp *p, set *s) { /* at "[:" */
	static const char *pcre = " alnum alpha ascii blank cntrl digit graph lower print punct space upper word xdigit ", *native = " alnum alpha ascii cntrl digit graph hspace lower print punct space upper vspace word xdigit ", *sql = " ALNUM ALPHA DIGIT LOWER SPACE UPPER WHITESPACE ";
	char n[16] = " "; size_t k = 2; for (; at(p, k) >= 0 && isalpha(at(p, k)) && k < 13; k++) n[k - 1] = (char)at(p, k);
	if (at(p, k) != ':' || at(p, k + 1) != ']') return false;
	n[k - 1] = ' '; n[k] = 0; if (!strstr(p->di == RE_PCRE ? pcre : p->di == RE_NATIVE ? native : sql, n)) return false;
	n[k - 1] = 0; if (p->di == RE_SQL) { for (char *q = n + 1; *q; q++) *q = (char)tolower(*q); if (!strcmp(n + 1, "space")) strcpy(n + 1, "only space"); else if (!strcmp(n + 1, "whitespace")) strcpy(n + 1, "space"); }
	p->i += k + 2; return named(n + 1, s);
}
static int p_group_sql(struct pp *p) { /* after [ */
	set part[2] = { set_none(), set_none() }; bool inv[2] = { false, false }, any[2] = { false, false }; int w = 0;
	if (at(p, 0) == '^') { inv[0] = true; p->i++; }
	for (;;) {
		int c = at(p, 0); if (c < 0) return refuse(p);
		if (c == ']') { p->i++; break; }
		if (c == '-' || c == 0) return unknown(p);
		if (c == '^') { if (w || !any[0]) return unknown(p); w = 1; p->i++; continue; }
		if (c == '[' && at(p, 1) == ':') { set s; if (!named_at(p, &s)) return unknown(p); part[w] = set_or(part[w], s); any[w] = true; if (at(p, 0) == '-') return unknown(p); continue; }
		p->i++; any[w] = true;
		if (at(p, 0) == '-') { int z = at(p, 1); if (z < 0) return refuse(p); if (z == ']' || z == '-' || z == '^' || z == '[' || z == 0) return unknown(p); p->i += 2; if (z < c) return refuse(p); for (; c <= z; c++) inc(&part[w], (unsigned)c); }
		else inc(&part[w], (unsigned)c);
	}
	if (!any[0] || (w && !any[1])) return unknown(p);
	for (int k = 0; k < 2; k++) { if (p->icase) part[k] = set_fold(part[k]); if (inv[k]) part[k] = set_not(part[k]); }
	set s = w ? set_minus(part[0], part[1]) : part[0]; int x = mk(p, N_SET, 0, 0); p->v[x].s = s; return x;
}
static bool noesc(const struct pp *p, size_t i) { return p->t[i] == '\\' && i + 1 < p->n && !isalnum(p->t[i + 1]); }
static int p_group(struct pp *p) { /* after [ */
	set s = set_none(); bool inv = false, first = true; unsigned items = 0;
	if (at(p, 0) == '^') { inv = true; p->i++; }
	for (;; first = false) {
		size_t lopos = p->i; int c = at(p, 0), lo = -1; if (c < 0) return refuse(p);
		if (c == ']' && !first) { p->i++; break; }
		if (c == 0) return unknown(p);
		if (c == '[' && (at(p, 1) == ':' || at(p, 1) == '.' || at(p, 1) == '=')) { set t; if (!named_at(p, &t)) return unknown(p); s = set_or(s, t); items++; if (at(p, 0) == '-' && at(p, 1) != ']') return unknown(p); continue; }
		if (c == '\\') {
			p->i++; set t; if (p->di == RE_PCRE && (at(p, 0) == 'Q' || at(p, 0) == 'E')) return unknown(p);
			if (type(p, &t)) { s = set_or(s, t); items++; if (at(p, 0) == '-' && at(p, 1) != ']') return unknown(p); continue; }
			lo = escape(p, true); if (lo == -2) return refuse(p); if (lo < 0) return unknown(p);
		} else {
			p->i++; lo = c;
			if (c == '-' && !first && at(p, 0) != ']') return unknown(p); /* a range from nothing, or from '-' */
			if (c == '-' && first && at(p, 0) == '-') return unknown(p);
		}
		items++;
		if (at(p, 0) == '-' && at(p, 1) != ']' && at(p, 1) >= 0) {
			p->i++; size_t hipos = p->i; int hi = at(p, 0); if (hi == 0 || (hi == '[' && at(p, 1) == ':')) return unknown(p);
			if (hi == '\\') { p->i++; set t; if (type(p, &t) || at(p, 0) == 'Q' || at(p, 0) == 'E') return unknown(p); hi = escape(p, true); if (hi == -2) return refuse(p); if (hi < 0) return unknown(p); }
			else { if (hi == '-') return unknown(p); p->i++; }
			if (hi < lo) return refuse(p);
			if (p->di == RE_PCRE && (noesc(p, lopos) || noesc(p, hipos))) p->unsure = true; /* a needless \ isn't taken at either end of a range */
			for (; lo <= hi; lo++) inc(&s, (unsigned)lo);
		} else inc(&s, (unsigned)lo);
	}
	if (!items) return unknown(p);
	if (p->icase) s = set_fold(s);
	int x = mk(p, N_SET, 0, 0); p->v[x].s = inv ? set_not(s) : s; return x;
}
static void blanks(struct pp *p) { /* what PCRE skips anywhere between items */
	for (;;) {
		int c = at(p, 0);
		if (p->di != RE_PCRE) return;
		if (p->ext && (c == ' ' || (c >= 9 && c <= 13))) { p->i++; continue; }
		if (p->ext && c == '#') { while (at(p, 0) >= 0 && at(p, 0) != '\n') { if (at(p, 0) == '\r' || at(p, 0) == 0 || at(p, 0) == '\\' || at(p, 0) == '(' || at(p, 0) == '[' || at(p, 0) == '{') { unknown(p); return; } p->i++; } if (at(p, 0) >= 0) p->i++; continue; }
		if (c == '(' && at(p, 1) == '?' && at(p, 2) == '#') { size_t k = 3; while (at(p, k) >= 0 && at(p, k) != ')') { if (at(p, k) == '(' || at(p, k) == 0) { unknown(p); return; } k++; } if (at(p, k) < 0) { unknown(p); return; } p->i += k + 1; continue; }
		if (c == '\\' && at(p, 1) == 'E') { p->i += 2; continue; }
		return;
	}
}
static int p_flags(struct pp *p) { /* after "(?" */
	bool neg = false, got[2] = { false, false }; bool icase = p->icase, single = p->single, ext = p->ext, i = icase, s = single, x = ext;
	for (;;) {
		int c = at(p, 0); if (c < 0) return refuse(p);
		p->i++;
		if (c == '-' && !neg) { neg = true; continue; }
		if (c == ')' || c == ':') {
			p->icase = i; p->single = s; p->ext = x;
			if (c == ')') return mk(p, N_EMPTY, 0, 0); /* for the rest of the group */
			int e = p_alts(p); if (at(p, 0) != ')') return refuse(p); p->i++;
			p->icase = icase; p->single = single; p->ext = ext; return e;
		}
		if (got[neg]) return unknown(p); got[neg] = true; /* more than one letter isn't taken by everything */
		if (c == 'i') i = !neg; else if (c == 's') s = !neg; else if (c == 'x') { if (at(p, 0) == 'x') return unknown(p); x = !neg; } else return unknown(p);
	}
}
static int p_atom(struct pp *p) {
	int c = at(p, 0); set s;
	switch (p->di) {
	case RE_LITERAL: p->i++; return mkbyte(p, (unsigned)c);
	case RE_GLOB: p->i++; if (c == '?' || c == '*') { int x = mkset(p, dot(p)); if (c == '?') return x; int r = mk(p, N_REP, x, 0); p->v[r].min = 0; p->v[r].max = INF; return r; } return mkbyte(p, (unsigned)c);
	case RE_LIKE: p->i++; if (c == '_' || c == '%') { int x = mkset(p, dot(p)); if (c == '_') return x; int r = mk(p, N_REP, x, 0); p->v[r].min = 0; p->v[r].max = INF; return r; } return mkbyte(p, (unsigned)c);
	case RE_SQL:
		if (c == '_' || c == '%') { p->i++; int x = mkset(p, dot(p)); if (c == '_') return x; int r = mk(p, N_REP, x, 0); p->v[r].min = 0; p->v[r].max = INF; return r; }
		if (c == '[') { p->i++; return p_group_sql(p); }
		if (c == ']' || c == '}' || c == '{' || c == 0) return unknown(p);
		break;
	case RE_NATIVE: case RE_PCRE:
		if (c == 0) return unknown(p);
		if (c == '^') { p->i++; p->anchors = true; return mk(p, N_START, 0, 0); }
		if (c == '$') { p->i++; p->anchors = true; return mk(p, p->di == RE_PCRE ? N_ENDNL : N_END, 0, 0); }
		if (c == '.') { p->i++; return mkset(p, dot(p)); }
		if (c == '[') { p->i++; return p_group(p); }
		if (c == '{') return unknown(p);
		if (c == '\\') {
			p->i++; if (p->i == p->n) return p->di == RE_PCRE ? refuse(p) : unknown(p);
			if (type(p, &s)) return mkset(p, s);
			c = at(p, 0);
			if (p->di == RE_PCRE) switch (c) {
			case 'N': if (at(p, 1) == '{') return unknown(p); p->i++; s = set_none(); inc(&s, '\n'); return mkset(p, set_not(s));
			case 'A': p->i++; p->anchors = true; return mk(p, N_START, 0, 0);
			case 'Z': p->i++; p->anchors = true; return mk(p, N_ENDNL, 0, 0);
			case 'z': p->i++; p->anchors = true; return mk(p, N_END, 0, 0);
			case 'R': { p->i++; s = set_none(); for (unsigned q = 10; q <= 13; q++) inc(&s, q); inc(&s, 0x85); int a = mkset(p, s), b = mk(p, N_CAT, mkbyte(p, '\r'), mkbyte(p, '\n')); return mk(p, N_ALT, a, b); }
			case 'b': case 'B': case 'K': case 'G': case 'C': case 'X': case 'g': case 'k': return refuse(p);
			case 'Q': { p->i++; int x = -1; if (p->ext) return unknown(p);
				if (at(p, 0) < 0) return unknown(p);
				if (at(p, 0) == '\\' && at(p, 1) == 'E') return unknown(p);
				/* only a single byte here: the rest is read as though it were quoted again */
				c = at(p, 0); if (c == 0 || c == '\\') return unknown(p);
				for (;;) { c = at(p, 0); if (c < 0 || c == 0 || c == '\n') return unknown(p); if (c == '\\') { if (at(p, 1) != 'E') return unknown(p); p->i += 2; break; }
					p->i++; int y = mkbyte(p, (unsigned)c); x = x < 0 ? y : mk(p, N_CAT, x, y); if (at(p, 0) == '\\' && at(p, 1) == 'E') { p->i += 2; break; } }
				if (p->v[x].k == N_CAT) { int q = at(p, 0); if (q == '*' || q == '+' || q == '?' || q == '{') return unknown(p); }
				return x; }
			}
			int b = escape(p, false); if (b == -2) return refuse(p); if (b < 0) return unknown(p); return mkbyte(p, (unsigned)b);
		}
		break;
	}
	if (c == '(') {
		p->i++; if (++p->depth > 12) return unknown(p);
		bool icase = p->icase, single = p->single, ext = p->ext; int e;
		if (at(p, 0) == '?' && p->di == RE_PCRE) {
			p->i++; c = at(p, 0);
			if (c == '=' || c == '!') return refuse(p);
			if (c == '<') { if (at(p, 1) == '=' || at(p, 1) == '!') return refuse(p); return unknown(p); /* named groups aren't taken */ }
			else { p->depth--; return p_flags(p); }
		} else if (at(p, 0) == '*' && p->di == RE_PCRE) return unknown(p);
		e = p_alts(p); if (p->judge != J_OK) return e;
		if (at(p, 0) != ')') return refuse(p); p->i++; p->depth--; p->icase = icase; p->single = single; p->ext = ext; return e;
	}
	if (c == '*' || c == '+' || c == '?') return unknown(p);
	p->i++; return mkbyte(p, (unsigned)c);
}
static bool plain(int di) { return di == RE_LITERAL || di == RE_GLOB || di == RE_LIKE; }
static int p_alts(struct pp *p) {
	int alts = -1;
	for (;;) {
		int cat = -1; bool some = false;
		for (;;) {
			blanks(p); if (p->judge != J_OK) return 0;
			int c = at(p, 0); if (c < 0 || (!plain(p->di) && (c == '|' || c == ')'))) break;
			size_t from = p->i; int e = p_atom(p); if (p->judge != J_OK) return 0; some = true;
			bool flagset = p->di == RE_PCRE && p->t[from] == '(' && from + 1 < p->n && p->t[from + 1] == '?' && p->v[e].k == N_EMPTY; /* (?i) */
			if (!plain(p->di)) {
				blanks(p); if (p->judge != J_OK) return 0;
				c = at(p, 0); unsigned lo = 1, hi = 1; bool q = true;
				if (c == '*') { lo = 0; hi = INF; p->i++; } else if (c == '+') { lo = 1; hi = INF; p->i++; } else if (c == '?') { lo = 0; hi = 1; p->i++; }
				else if (c == '{') {
					size_t k = 1; unsigned d = 0; lo = hi = 0; for (; at(p, k) >= '0' && at(p, k) <= '9'; k++, d++) lo = lo * 10 + (unsigned)(at(p, k) - '0'); if (!d || d > 2) { unknown(p); return 0; }
					hi = lo; if (at(p, k) == ',') { k++; d = 0; hi = 0; for (; at(p, k) >= '0' && at(p, k) <= '9'; k++, d++) hi = hi * 10 + (unsigned)(at(p, k) - '0'); if (d > 2) { unknown(p); return 0; } if (!d) { if (p->di != RE_PCRE) { unknown(p); return 0; } hi = INF; } }
					if (at(p, k) != '}') { unknown(p); return 0; } p->i += k + 1; if (hi < lo) { refuse(p); return 0; }
					if (lo > 12 || (hi > 12 && hi != INF)) { unknown(p); return 0; }
				} else q = false;
				if (q) {
					if (flagset) { unknown(p); return 0; }
					if (p->v[e].k == N_START || p->v[e].k == N_END || p->v[e].k == N_ENDNL) p->unsure = true; /* nothing to repeat */
					int x = mk(p, N_REP, e, 0); p->v[x].min = lo; p->v[x].max = hi; e = x; blanks(p); if (p->judge != J_OK) return 0;
					c = at(p, 0); if (p->di == RE_PCRE && (c == '?' || c == '+')) { refuse(p); return 0; } /* lazy, possessive */
					if (c == '*' || c == '+' || c == '?' || c == '{') { unknown(p); return 0; }
				}
			}
			cat = cat < 0 ? e : mk(p, N_CAT, cat, e); if (p->judge != J_OK) return 0;
		}
		if (!some) { cat = mk(p, N_EMPTY, 0, 0); if (p->di == RE_SQL || p->di == RE_NATIVE) p->unsure = true; } /* not every dialect takes nothing for something */
		alts = alts < 0 ? cat : mk(p, N_ALT, alts, cat);
		if (at(p, 0) == '|' && !plain(p->di)) { p->i++; continue; }
		return alts;
	}
}
/* tree -> automaton with assertions */
struct ae { int k; set s; unsigned to; };
struct as { struct ae *e; unsigned n, c; };
struct anfa { struct as *s; unsigned n, c; };
#define AMAX 2500u
static unsigned anew(struct anfa *a) { if (a->n == a->c) { a->c = a->c ? 2 * a->c : 32; a->s = hrealloc(a->s, a->c * sizeof *a->s); } memset(&a->s[a->n], 0, sizeof *a->s); return a->n++; }
static void aedge(struct anfa *a, unsigned f, int k, const set *s, unsigned to) { struct as *x = &a->s[f]; if (x->n == x->c) { x->c = x->c ? 2 * x->c : 2; x->e = hrealloc(x->e, x->c * sizeof *x->e); } x->e[x->n].k = k; x->e[x->n].s = s ? *s : set_none(); x->e[x->n++].to = to; }
static void build(const struct pp *p, struct anfa *a, int v, unsigned x, unsigned y) {
	const struct node *n = &p->v[v]; if (a->n > AMAX) return;
	switch (n->k) {
	case N_SET: aedge(a, x, N_SET, &n->s, y); break;
	case N_EMPTY: case N_START: case N_END: case N_ENDNL: aedge(a, x, n->k, NULL, y); break;
	case N_CAT: { unsigned m = anew(a); build(p, a, n->a, x, m); build(p, a, n->b, m, y); break; }
	case N_ALT: build(p, a, n->a, x, y); build(p, a, n->b, x, y); break;
	case N_REP: {
		unsigned at_ = anew(a); aedge(a, x, N_EMPTY, NULL, at_);
		for (unsigned i = 0; i < n->min; i++) { unsigned m = anew(a), q = anew(a); aedge(a, at_, N_EMPTY, NULL, m); build(p, a, n->a, m, q); at_ = q; }
		if (n->max == INF) { unsigned m = anew(a), b = anew(a), c = anew(a); aedge(a, at_, N_EMPTY, NULL, m); aedge(a, m, N_EMPTY, NULL, b); build(p, a, n->a, b, c); aedge(a, c, N_EMPTY, NULL, m); aedge(a, m, N_EMPTY, NULL, y); }
		else { for (unsigned i = n->min; i < n->max; i++) { unsigned m = anew(a), q = anew(a); aedge(a, at_, N_EMPTY, NULL, y); aedge(a, at_, N_EMPTY, NULL, m); build(p, a, n->a, m, q); at_ = q; } aedge(a, at_, N_EMPTY, NULL, y); }
		break; }
	}
}
/* the reference automaton: with where the string begins and ends made part of the state; NULL: too large */
static struct nfa *meaning(const struct pp *p, int root, bool before, int after) { /* may anything come before, and after? (-1: one newline) */
	struct anfa a = { 0 }; unsigned x = anew(&a), y = anew(&a); set all = set_not(set_none());
	build(p, &a, root, x, y); unsigned st = x, en = y;
	if (before) { st = anew(&a); aedge(&a, st, N_SET, &all, st); aedge(&a, st, N_EMPTY, NULL, x); }
	if (after) { en = anew(&a); set nl_ = set_none(); inc(&nl_, '\n'); aedge(&a, y, N_EMPTY, NULL, en); if (after < 0) aedge(&a, y, N_SET, &nl_, en); else aedge(&a, en, N_SET, &all, en); }
	struct nfa *m = NULL;
	if (a.n <= AMAX) {
		m = nfa_new(); unsigned *id = hmalloc(a.n * 6 * sizeof *id), *todo = hmalloc(a.n * 6 * sizeof *todo), nt = 0; for (unsigned i = 0; i < a.n * 6; i++) id[i] = ~0u;
		/* key: state*6 + consumed*3 + phase; phase 0: anything may follow, 1: a newline which is the last byte, or nothing, 2: nothing */
		#define ID(key) ({ unsigned k_ = (key); if (id[k_] == ~0u) { id[k_] = nfa_addstate(m); todo[nt++] = k_; } id[k_]; })
		m->start = (long)ID(st * 6);
		while (nt) {
			unsigned key = todo[--nt], q = key / 6, con = key / 3 % 2, ph = key % 3, me = id[key]; if (q == en) m->s[me].end = true;
			for (unsigned i = 0; i < a.s[q].n; i++) {
				const struct ae *e = &a.s[q].e[i];
				switch (e->k) {
				case N_EMPTY: nfa_addeps(m, me, ID(e->to * 6 + con * 3 + ph)); break;
				case N_START: if (!con) nfa_addeps(m, me, ID(e->to * 6 + con * 3 + ph)); break;
				case N_END: nfa_addeps(m, me, ID(e->to * 6 + con * 3 + 2)); break;
				case N_ENDNL: nfa_addeps(m, me, ID(e->to * 6 + con * 3 + (ph ? ph : 1))); break;
				case N_SET:
					if (ph == 0) { unsigned t = ID(e->to * 6 + 3); for (unsigned c = 0; c < 256; c++) if (has(&e->s, c)) nfa_addsym(m, me, t, (unsigned char)c); }
					else if (ph == 1 && has(&e->s, '\n')) nfa_addsym(m, me, ID(e->to * 6 + 3 + 2), '\n');
					break;
				}
			}
		}
		hfree(id); hfree(todo);
	}
	for (unsigned i = 0; i < a.n; i++) hfree(a.s[i].e);
	hfree(a.s); return m;
}
struct psrc { const unsigned char *d; size_t n, i; };
static int psrc_getc(void *q) { struct psrc *s = q; ST(getc_calls); return s->i < s->n ? s->d[s->i++] : EOF; }
static const int pdia[] = { RE_LIKE, RE_LITERAL, RE_GLOB, RE_NATIVE, RE_SQL, RE_PCRE };
/* what is reported as anchored cannot match elsewhere, and what plainly is anchored is reported */
static void op_anchored(struct op *o, const struct pp *p, int root, const struct nfa *want_, bool anchored, const char *txt, int di, unsigned fl) {
	(void)o; struct psrc in = { p->t, p->n, 0 }; struct re_err err; memset(&err, 0, sizeof err); size_t live = sim_live_total();
	enter(); enum re_is_anchored_res x = re_is_anchored((enum re_dialect)di, psrc_getc, &in, (enum re_flags)fl, &err); leave(); bool fired = sim_fault_fired();
	if (sim_live_total() != live) sim_fail("leak", "step %d: re_is_anchored holds %ld blocks", CI, (long)sim_live_total() - (long)live);
	if (x == RE_IS_ANCHORED_ERROR) { if (!fired && !p->unsure && err.e != RE_EUNSUPPORTED) sim_fail("wrong-refusal", "step %d: re_is_anchored refuses %s: %s", CI, txt, re_strerror(err.e)); return; }
	if ((unsigned)x > 3) sim_fail("bad-result", "step %d: re_is_anchored returned %#x for %s", CI, (unsigned)x, txt);
	ST(patterns_judged); if (anchored) return;
	for (int k = 0; k < 2; k++) {
		if (!(x & (k ? RE_IS_ANCHORED_END : RE_IS_ANCHORED_START))) continue;
		ST(patterns_anchored); struct nfa *m = meaning(p, root, k != 0, k ? -1 : 1); if (!m) continue;
		int e = nfa_equiv(m, want_, CMP_LANG, BUDGET, M, sizeof M); nfa_free(m);
		if (!e) { char w[1400]; memcpy(w, M, sizeof w); sim_fail("wrong-anchoring", "step %d: %s (dialect %d, flags %#x) is reported as anchored at the %s: %s", CI, txt, di, fl, k ? "end" : "start", w); }
	}
	if (di != RE_PCRE && di != RE_NATIVE) return;
	struct nfa *none = nfa_new(); none->start = (long)nfa_addstate(none); int empty = nfa_equiv(none, want_, CMP_LANG, BUDGET, M, sizeof M); nfa_free(none); if (empty) return;
	int f = root, l = root; while (p->v[f].k == N_CAT) f = p->v[f].a; while (p->v[l].k == N_CAT) l = p->v[l].b;
	if (p->v[f].k == N_START && !(x & RE_IS_ANCHORED_START)) sim_fail("missed-anchoring", "step %d: %s begins with an anchor and is not reported as anchored at the start", CI, txt);
	if ((p->v[l].k == N_END || p->v[l].k == N_ENDNL) && !(x & RE_IS_ANCHORED_END)) sim_fail("missed-anchoring", "step %d: %s ends with an anchor and is not reported as anchored at the end", CI, txt);
}
/* meaning d alloc dialect flags history - - - s */
int op_meaning(struct op *o) {
	int al = (int)((unsigned long)o->a[1] % NTAGS), di = pdia[(unsigned long)o->a[2] % 6]; unsigned fl = (unsigned)o->a[3] & (RE_ICASE | RE_SINGLE | RE_ANCHORED | RE_REVERSE | RE_EXTENDED | RE_SAVE_LINKAGE_INFO); struct rng r = { mix64((u64)o->a[4], 77) };
	struct slot *d = sl_any(o->a[0]); if (o->n > 200) return OP_SKIP;
	if (fl & RE_ANCHORED) fl &= ~(unsigned)RE_SAVE_LINKAGE_INFO;
	if (fl & RE_REVERSE) fl &= ~(unsigned)RE_SAVE_LINKAGE_INFO;
	drop(d); static const unsigned char none_[1]; const unsigned char *s = o->s ? o->s : none_; char txt[420]; fmt_bytes(txt, sizeof txt, s, o->n);
	struct pp *p = hcalloc(1, sizeof *p); p->t = s; p->n = o->n; p->di = di; p->icase = fl & RE_ICASE; p->single = (fl & RE_SINGLE) || plain(di) || di == RE_SQL; p->ext = (fl & RE_EXTENDED) && di == RE_PCRE;
	int root = p_alts(p); if (p->judge == J_OK && p->i < p->n) { refuse(p); if (s[p->i < o->n ? p->i : 0] != ')') p->judge = J_REFUSE; }
	int judge = p->judge; bool anchored = (fl & RE_ANCHORED) || plain(di) || di == RE_SQL;
	if (judge == J_OK && (fl & RE_ANCHORED) && p->anchors) judge = J_UNKNOWN;
	struct nfa *want_ = judge == J_OK ? meaning(p, root, !anchored, !anchored) : NULL; if (judge == J_OK && !want_) judge = J_UNKNOWN;
	if (O & O_ANCH) { if (want_) op_anchored(o, p, root, want_, anchored, txt, di, fl); else ST(patterns_unjudged); if (want_) nfa_free(want_); hfree(p); return OP_OK; }
	if (want_ && (fl & RE_REVERSE)) { struct nfa *b = nfa_reverse(want_); nfa_free(want_); want_ = b; }
	bool anchors = p->anchors, unsure = p->unsure, plusalt = false; { bool ps = false, as_ = false; for (int i = 0; i < p->nv; i++) { if (p->v[i].k == N_REP && p->v[i].min == 1 && p->v[i].max == INF) ps = true; if (p->v[i].k == N_ALT) as_ = true; } plusalt = ps && as_; } hfree(p);
	if (judge == J_UNKNOWN) { ST(patterns_unjudged); if (want_) nfa_free(want_); return OP_SKIP; }
	struct psrc in = { s, o->n, 0 }; struct re_err err; memset(&err, 0, sizeof err); size_t live = sim_live_total(); int ret = OP_OK;
	enter(); struct fsm *f = re_comp((enum re_dialect)di, psrc_getc, &in, sim_allocs[al], (enum re_flags)fl, &err); leave(); bool fired = sim_fault_fired();
	if (judge == J_REFUSE) { ST(patterns_refused); if (f) sim_fail("wrong-acceptance", "step %d: the pattern %s should be refused and is compiled", CI, txt); return OP_OK; }
	if (!f) {
		if (sim_live_total() != live) sim_fail("leak", "step %d: a failed compile holds %ld blocks", CI, (long)sim_live_total() - (long)live);
		bool may = ((anchors || plusalt) && err.e == RE_EUNSUPPORTED) || unsure; /* not every place for an anchor is supported, nor a choice of nothing when repeated */
		if (!fired && !may) sim_fail("wrong-refusal", "step %d: the pattern %s is refused: %s", CI, txt, re_strerror(err.e));
		if (!fired) ST(patterns_unsupported);
		nfa_free(want_); return fired ? OP_FAIL : OP_SKIP;
	}
	ST(patterns_judged); char after[120] = "compiling";
	for (unsigned t = 0;; t++) {
		struct nfa *m = nfa_extract(f); int x = nfa_equiv(m, want_, CMP_LANG, BUDGET, M, sizeof M); nfa_free(m);
		if (x == 0) { char w[1400]; memcpy(w, M, sizeof w); sim_fail("wrong-meaning", "step %d: after %s, the automaton for %s (dialect %d, flags %#x): %s", CI, after, txt, di, fl, w); }
		if (x < 0) ST(lang_undecided); else ST(lang_checks);
		if (t == 2 || x < 0) break;
		{ fsm_state_t st_; if (!fsm_getstart(f, &st_)) break; }
		if (fsm_countstates(f) > DFAMAX || nfa_dfasize(want_, DFAMAX) > DFAMAX) break;
		unsigned k = rn(&r, 6); struct fault none = { 0 }; int y = 1; sim_enter(CI, none, 0);
		switch (k) {
		case 0: case 1: y = fsm_determinise(f); snprintf(after, sizeof after, "fsm_determinise"); break;
		case 2: y = fsm_determinise(f) && fsm_minimise(f); snprintf(after, sizeof after, "fsm_minimise"); break;
		case 3: y = fsm_remove_epsilons(f); snprintf(after, sizeof after, "fsm_remove_epsilons"); break;
		case 4: y = fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; snprintf(after, sizeof after, "fsm_trim"); break;
		case 5: { struct fsm *c = fsm_clone(f); y = c != NULL; if (c) { fsm_free(f); f = c; } snprintf(after, sizeof after, "fsm_clone"); break; }
		}
		sim_leave(); if (!y) sim_fail("spurious-failure", "step %d: %s failed although nothing was injected (errno %d)", CI, after, errno);
	}
	/* literals */
	if (!fired && !(fl & RE_REVERSE)) {
		in.i = 0; enum re_literal_category cat = 0; char *ls = NULL; size_t ln = 0; struct fault none = { 0 }; sim_enter(CI, none, 0); int x = re_is_literal((enum re_dialect)di, psrc_getc, &in, (enum re_flags)fl, &err, &cat, &ls, &ln); sim_leave();
		if (x < 0) sim_fail("wrong-refusal", "step %d: the pattern %s compiles, but re_is_literal refuses it", CI, txt);
		if (x == 1) {
			ST(patterns_literal); bool es = cat != RE_LITERAL_UNSATISFIABLE && (cat & RE_LITERAL_ANCHOR_START), ee = cat != RE_LITERAL_UNSATISFIABLE && (cat & RE_LITERAL_ANCHOR_END);
			struct nfa *m = nfa_new(); unsigned q = nfa_addstate(m); m->start = (long)q;
			if (cat != RE_LITERAL_UNSATISFIABLE) {
				bool nl = ee && di == RE_PCRE; size_t n = ln; if (nl) { if (!n || ls[n - 1] != '\n') nl = false; else n--; }
				if (!es && !anchored) nfa_addany(m, q, q);
				for (size_t i = 0; i < n; i++) { unsigned t = nfa_addstate(m); nfa_addsym(m, q, t, (unsigned char)ls[i]); q = t; }
				m->s[q].end = true; if (!ee && !anchored) { unsigned t = nfa_addstate(m); nfa_addeps(m, q, t); nfa_addany(m, t, t); m->s[t].end = true; }
				if (nl) { unsigned t = nfa_addstate(m); nfa_addsym(m, q, t, '\n'); m->s[t].end = true; }
			}
			if (!nfa_equiv(m, want_, CMP_LANG, BUDGET, M, sizeof M)) { char w[1400], l[100]; memcpy(w, M, sizeof w); fmt_bytes(l, sizeof l, (unsigned char *)(ls ? ls : ""), ln > 20 ? 20 : ln); sim_fail("wrong-literal", "step %d: re_is_literal calls %s the literal %s, category %d: %s", CI, txt, l, (int)cat, w); }
			nfa_free(m);
		}
		if (x == 1 && ls) { sim_enter(CI, none, 0); free(ls); sim_leave(); }
	}
	nfa_free(want_);
	if (fsm_countstates(f) > 900) { fsm_free(f); } else put(d, f, al);
	return ret;
}

/* generator */
struct g { struct rng *r; unsigned char *b; size_t n, max; int di; unsigned depth; bool ext; int anch; };
static void w1(struct g *g, int c) { if (g->n < g->max) g->b[g->n++] = (unsigned char)c; }
static void ws(struct g *g, const char *s) { while (*s) w1(g, *s++); }
static void wf(struct g *g, const char *f, unsigned v) { char b[32]; snprintf(b, sizeof b, f, v); ws(g, b); }
static unsigned letter(struct g *g) { unsigned k = rn(g->r, 40); return k < 30 ? "aabbcA"[rn(g->r, 6)] : k < 33 ? '\n' : k < 35 ? (unsigned)'0' + rn(g->r, 3) : k < 37 ? (unsigned)"BCz_ "[rn(g->r, 5)] : k < 39 ? 33 + rn(g->r, 94) : 1 + rn(g->r, 255); }
static void wlit(struct g *g, unsigned c, bool grp) { /* so that it stands for itself */
	if (g->di == RE_PCRE && chance(g->r, 1, 12)) { switch (rn(g->r, grp ? 4 : 6)) { case 0: wf(g, "\\x%02x", c); return; case 1: wf(g, "\\x{%x}", c); return; case 2: wf(g, "\\o{%o}", c); return; case 3: if (c < 64) { wf(g, "\\0%02o", c); return; } break; case 4: if (c < 32) { wf(g, "\\c%c", c + 64); return; } break; case 5: if (c != '\\' && c != '\n') { ws(g, "\\Q"); w1(g, (int)c); ws(g, "\\E"); return; } break; } }
	if (g->di == RE_NATIVE && chance(g->r, 1, 12)) { if (chance(g->r, 1, 2)) wf(g, "\\x%02X", c); else wf(g, "\\%03o", c); return; }
	if (g->di == RE_PCRE || g->di == RE_NATIVE) {
		const char *m = grp ? "\\^-[]" : "\\^$?*+.|(){["; if (c && strchr(m, (int)c)) { w1(g, '\\'); w1(g, (int)c); return; }
		if (g->di == RE_PCRE && !grp && (c == ' ' || c == '#' || (c >= 9 && c <= 13)) && g->ext) { wf(g, "\\x%02x", c); return; }
		if (c == '\n' && chance(g->r, 1, 2)) { ws(g, "\\n"); return; }
	}
	if (g->di == RE_SQL && strchr(grp ? "^-[]" : "_%()?*+|[]{}", (int)c)) { w1(g, 'b'); return; }
	w1(g, (int)c);
}
static void wnamed(struct g *g) {
	static const char *pc[] = { "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit" }, *na[] = { "alnum", "alpha", "ascii", "cntrl", "digit", "graph", "hspace", "lower", "print", "punct", "space", "upper", "vspace", "word", "xdigit" }, *sq[] = { "ALNUM", "ALPHA", "DIGIT", "LOWER", "SPACE", "UPPER", "WHITESPACE" };
	ws(g, "[:"); ws(g, g->di == RE_PCRE ? pc[rn(g->r, 14)] : g->di == RE_NATIVE ? na[rn(g->r, 15)] : sq[rn(g->r, 7)]); ws(g, ":]");
}
static void wset(struct g *g) {
	w1(g, '['); if (chance(g->r, 1, 3)) w1(g, '^');
	if (g->di != RE_SQL && chance(g->r, 1, 12)) w1(g, ']'); else if (g->di != RE_SQL && chance(g->r, 1, 14)) w1(g, '-');
	unsigned k = 1 + rn(g->r, 3); bool sub = g->di == RE_SQL && chance(g->r, 1, 4);
	for (int h = 0; h <= sub; h++) { if (h) w1(g, '^'); for (unsigned i = 0; i < k; i++) switch (rn(g->r, 6)) {
		case 0: wnamed(g); break;
		case 1: if (g->di == RE_PCRE) { w1(g, '\\'); w1(g, "dDsSwWhHvV"[rn(g->r, 10)]); break; } /* fall through */
		case 2: { unsigned a = letter(g), b = letter(g); if (g->di == RE_SQL) { a = 'a' + rn(g->r, 3); b = 'a' + rn(g->r, 5); } if (chance(g->r, 1, 2)) { a = 'A' + rn(g->r, 58); b = a + rn(g->r, 4); } if (a > b && !chance(g->r, 1, 30)) { unsigned t = a; a = b; b = t; } wlit(g, a, true); w1(g, '-'); wlit(g, b, true); break; }
		default: wlit(g, letter(g), true); break; } }
	if (g->di != RE_SQL && chance(g->r, 1, 14)) w1(g, '-');
	w1(g, ']');
}
static void walts(struct g *g);
static void watom(struct g *g) {
	bool pc = g->di == RE_PCRE, an = pc || g->di == RE_NATIVE;
	if (plain(g->di)) { unsigned k = rn(g->r, 5); if (k == 0) w1(g, g->di == RE_GLOB ? '*' : '%'); else if (k == 1) w1(g, g->di == RE_GLOB ? '?' : '_'); else w1(g, (int)letter(g)); return; }
	if (g->anch == 2 && an && chance(g->r, 1, 3)) { w1(g, "^$aab\n"[rn(g->r, 6)]); return; }
	switch (g->anch && chance(g->r, 1, 4) ? 10 : g->anch == 2 && chance(g->r, 1, 3) ? 4 : rn(g->r, 24)) {
	case 0: case 1: if (an) w1(g, '.'); else w1(g, "_%"[rn(g->r, 2)]); break;
	case 2: case 3: wset(g); break;
	case 4: case 5: case 6: case 7:
		if (g->depth >= 3) { wlit(g, letter(g), false); break; }
		g->depth++; bool ext = g->ext;
		if (pc) switch (rn(g->r, 8)) { case 0: case 1: ws(g, "(?:"); break; case 2: ws(g, "(?i:"); break; case 3: ws(g, "(?-i:"); break; case 4: ws(g, "(?s:"); break; default: w1(g, '('); } else w1(g, '(');
		walts(g); w1(g, ')'); g->ext = ext; g->depth--; break;
	case 8: if (pc) { static const char *t[] = { "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\h", "\\H", "\\v", "\\V", "\\N", "\\R" }; ws(g, t[rn(g->r, 12)]); break; } /* fall through */
	case 9: if (pc && chance(g->r, 1, 3)) { static const char *t[] = { "(?i)", "(?-i)", "(?s)", "(?-s)", "(?x)", "(?-x)", "(?#c)", "\\E", "(?i-s)" }; unsigned k = rn(g->r, 9); ws(g, t[k]); if (k == 4) g->ext = true; if (k == 5) g->ext = false; break; } /* fall through */
	case 10: if (an && chance(g->r, 1, 2)) { if (pc && chance(g->r, 1, 4)) { static const char *t[] = { "\\A", "\\Z", "\\z" }; ws(g, t[rn(g->r, 3)]); } else w1(g, "^$"[rn(g->r, 2)]); break; } /* fall through */
	case 11: if (pc && g->ext && chance(g->r, 1, 2)) { ws(g, chance(g->r, 1, 3) ? "# c\n" : " "); } /* fall through */
	default: wlit(g, letter(g), false);
	}
}
static void wcat(struct g *g) {
	unsigned k = rn(g->r, 5); if (g->di == RE_SQL && !k) k = 1; if (plain(g->di)) k = rn(g->r, 8); else if (chance(g->r, 1, 10)) k = 6 + rn(g->r, 12);
	for (unsigned i = 0; i < k; i++) {
		size_t from = g->n;
		if (g->di == RE_PCRE && chance(g->r, 1, 16)) { /* repeats of repeats */
			unsigned d = 1 + rn(g->r, 2); for (unsigned q = 0; q < d; q++) ws(g, "(?:"); if (chance(g->r, 1, 2)) wlit(g, letter(g), false); else watom(g);
			for (unsigned q = 0; q <= d; q++) { if (q) w1(g, ')'); switch (rn(g->r, 5)) { case 0: w1(g, "*+?"[rn(g->r, 3)]); break; case 1: wf(g, "{%u}", 1 + rn(g->r, 3)); break; case 2: wf(g, "{%u,}", rn(g->r, 4)); break; default: { unsigned a = rn(g->r, 4); wf(g, "{%u", a); wf(g, ",%u}", a + rn(g->r, 3)); } } }
			continue;
		}
		watom(g); if (plain(g->di)) continue;
		if (g->n > from + 1 && g->b[from] == '(' && g->b[from + 1] == '?' && g->b[g->n - 1] == ')' && g->n - from <= 7) continue; /* flags */
		if (g->anch == 2 && g->n > from && (g->b[g->n - 1] == '^' || g->b[g->n - 1] == '$')) continue;
		switch (rn(g->r, g->anch == 2 ? 6 : 12)) {
		case 0: w1(g, '*'); break; case 1: w1(g, '+'); break; case 2: w1(g, '?'); break;
		case 3: { unsigned a = rn(g->r, 3), b = a + rn(g->r, 3); switch (rn(g->r, 3)) { case 0: wf(g, "{%u}", a); break; case 1: wf(g, "{%u,}", a); break; default: wf(g, "{%u", a); wf(g, ",%u}", b); } break; }
		}
		if (g->di == RE_PCRE && chance(g->r, 1, 300)) { static const char *t[] = { "\\b", "(?=a)", "(?!a)", "(?<=a)", "\\1", "\\K", "a*?", "a++", "\\G", "\\X", "[b-a]" }; ws(g, t[rn(g->r, 11)]); }
	}
}
static void walts(struct g *g) { unsigned k = chance(g->r, 1, 3) ? 1 + rn(g->r, 3) : 1; for (unsigned i = 0; i < k; i++) { if (i) w1(g, '|'); wcat(g); } }
size_t gen_meaning(struct rng *r, int dn, unsigned char *b, size_t max, long *flags, int anch) {
	struct g g = { r, b, 0, max, pdia[dn], 0, (*flags & RE_EXTENDED) != 0, anch }; if (plain(g.di)) wcat(&g); else walts(&g); return g.n;
}
