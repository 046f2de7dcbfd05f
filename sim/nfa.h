/* Reference model: explicit NFA and lock-step comparison. */
#ifndef NFA_H
#define NFA_H
#include "sim.h"
struct fsm;
struct nedge { u64 sym[4]; unsigned to; };
struct nst {
	bool end;
	unsigned nids, *ids;       /* sorted, unique */
	unsigned neo, *eo;         /* eager outputs, sorted unique */
	unsigned ne, ce; struct nedge *e;
	unsigned neps, ceps, *eps;
};
struct nfa { unsigned n, cap; long start; struct nst *s; };

struct nfa *nfa_new(void);
void nfa_free(struct nfa *);
struct nfa *nfa_clone(const struct nfa *);
unsigned nfa_addstate(struct nfa *);
void nfa_addsym(struct nfa *, unsigned from, unsigned to, unsigned char c);
void nfa_addany(struct nfa *, unsigned from, unsigned to);
void nfa_addeps(struct nfa *, unsigned from, unsigned to);
void nfa_addid(struct nfa *, unsigned s, unsigned id);
void nfa_addeo(struct nfa *, unsigned s, unsigned id);
unsigned nfa_append(struct nfa *dst, const struct nfa *src); /* returns base */
void nfa_dump(const struct nfa *, int slot);
struct nfa *nfa_extract(const struct fsm *);   /* through the public API only */
struct nfa *nfa_reverse(const struct nfa *);
bool nfa_same(const struct nfa *a, const struct nfa *b, char *why, size_t whyn); /* structural */
u64 nfa_hash(const struct nfa *);
bool nfa_isdfa(const struct nfa *);            /* every state at most one successor per symbol, no epsilons */
bool nfa_haseps(const struct nfa *);
bool nfa_haseo(const struct nfa *);
bool nfa_hasids(const struct nfa *);
bool nfa_hasend(const struct nfa *);
unsigned nfa_edges(const struct nfa *);
/* number of subset-construction states reachable (stops at limit+1) */
unsigned nfa_dfasize(const struct nfa *, unsigned limit);
/* size of the minimal trimmed DFA distinguishing id sets; 0 if empty; limit+1 if too large */
unsigned nfa_minsize(const struct nfa *, unsigned limit);
/* useful-state marks */
void nfa_marks(const struct nfa *, unsigned char *reach, unsigned char *coreach, unsigned *dist_to_end);

enum { CMP_LANG = 1, CMP_IDS = 2, CMP_EAGER = 4, CMP_FIRST = 8 }; /* CMP_FIRST: not past the first acceptance */
#define MAXPARTS 8
/* How the parts combine. acc(accepting bits) -> expected acceptance. */
struct spec {
	unsigned n; const struct nfa *p[MAXPARTS];
	bool (*acc)(const bool *a, void *opq);
	/* which parts contribute ids when the result accepts (bitmask, a part contributes if itself accepting) */
	unsigned idmask;
	void *opq;
};
/* Compare. 1 equal, 0 different (msg filled), -1 undecided (too large). */
int nfa_check(const struct nfa *got, const struct spec *sp, unsigned what, size_t budget, char *msg, size_t msgn);
int nfa_equiv(const struct nfa *got, const struct nfa *exp, unsigned what, size_t budget, char *msg, size_t msgn);
/* single-pass group: ids reported by got (notified on the way or at the end) against which parts accept */
int nfa_check_group(const struct nfa *got, unsigned n, const struct nfa *const *parts, unsigned id_base, size_t budget, char *msg, size_t msgn);
int sp_check(const struct nfa *got, const struct spec *sp, unsigned what, size_t budget, char *msg, size_t msgn);  /* the same for large ones */
int sp_equiv(const struct nfa *got, const struct nfa *exp, unsigned what, size_t budget, char *msg, size_t msgn);
bool nfa_accepts(const struct nfa *, const unsigned char *s, size_t n, unsigned *ids, unsigned *nids, unsigned maxids);
void nfa_emits(const struct nfa *, const unsigned char *s, size_t n, unsigned *ids, unsigned *nids, unsigned maxids);
/* a string: random walk biased to accepted ones; returns length */
size_t nfa_sample(const struct nfa *, struct rng *, unsigned char *buf, size_t max);
bool nfa_empty_without(const struct nfa *, int c); /* is the language empty once symbol c is forbidden (c<0: as is) */
void fmt_bytes(char *out, size_t outn, const unsigned char *s, size_t n);
#endif
