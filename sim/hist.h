/* History engine: plans, world, operations. */
#ifndef HIST_H
#define HIST_H
#include "sim.h"
#include "nfa.h"
#include "gen.h"
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/alloc.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include <fsm/vm.h>
#include <re/re.h>
#include <re/strings.h>

#define NS 6          /* automaton slots */
#define NSETS 2       /* string set slots */
#define OPA 12

struct op {
	int kind; long a[OPA];
	unsigned char *s; size_t n;
	struct fault f;
	int retry;          /* after a reported failure: run again without the fault */
	int idx;            /* seeds the operation's own choices: kept when a plan is cut down */
	int t;              /* thread that executes it */
	long branch;        /* >0: enumerate up to this many allocation faults in forked branches */
};
struct plan { char profile[16]; u64 seed, run; unsigned fill; struct op *ops; int n; int nthr; int smode; u64 sseed; long sgap; struct sw *sw; int nsw; };

enum { OP_SKIP, OP_OK, OP_FAIL };
/* oracles */
enum {
	O_LANG = 1, O_IDS = 2, O_EAGER = 4, O_POST = 8, O_UNCH = 16, O_RETRY = 32, O_LEAK = 64, O_ALLOC = 128, O_STRID = 1 << 14, O_GROUPED = 1 << 15, O_ANCH = 1 << 16,
	O_ALL = 255
};
/* op flags */
enum {
	OF_INPLACE = 1,    /* modifies a[0] only, keeps its language */
	OF_READ = 2,       /* changes no object */
	OF_FREE = 4        /* no fault branches (cannot allocate) */
};
struct opdef { const char *name; int (*fn)(struct op *); unsigned flags; };
extern const struct opdef opdefs[]; extern const int nopdefs;
int op_byname(const char *);

struct slot { struct fsm *f; int alloc; bool ids_ok; bool lang_ok; struct nfa *snap; bool touched; bool shared; };
struct prog { struct fsm_dfavm *vm; struct nfa *m; unsigned v; bool shared; };
struct strset { struct re_strings *g; unsigned n, cap; struct { unsigned char *s; size_t n; bool hasid; unsigned id; } *e; bool dirty; };
#define NPROG 3
struct eout { unsigned n; unsigned id[64]; };
struct world { struct slot s[NS]; struct strset r[NSETS]; struct prog p[NPROG]; struct eout *eo; };
extern struct world W;
extern unsigned O;              /* active oracles */
extern struct plan *P; extern int CI; extern struct op *CO;
extern char M[1400];            /* scratch message */
extern bool in_branch;

/* helpers for operations */
#define BUDGET 3000000u
#define DFAMAX 220u
void enter(void);
long leave(void);
bool outcome(bool ok, const char *what);   /* after leave(): decides spurious failure */
struct slot *sl(long i);                   /* slot, or NULL if empty */
struct slot *sl_any(long i);
void drop(struct slot *); void quiet_flush(void); void sim_alone(void); void prog_drop(struct prog *); void eo_install(void);                  /* free and empty */
void put(struct slot *, struct fsm *, int alloc);
void resnap(struct slot *);                /* re-extract, mark touched */
void forget(struct slot *);                /* automaton consumed */
void settle(struct slot *);                /* after a failed destructive call: freed or still valid */
bool ensure_dfa(struct slot *);            /* unfaulted */
bool small_enough(struct slot *, unsigned lim);
bool has_start(struct slot *);
void want(const char *cls, int r);         /* r==0 -> fail with M */
unsigned cmpmask(struct slot *);           /* LANG/IDS/EAGER to compare when preserved */
bool acc_or(const bool *, void *); bool acc_and(const bool *, void *); bool acc_sub(const bool *, void *); bool acc_not(const bool *, void *);
u64 opseed(int salt);

/* plans */
void plan_free(struct plan *);
struct plan *plan_read(FILE *);
void plan_write(const struct plan *, FILE *, int limit, int override, struct fault f);
struct plan *plan_gen(const char *profile, u64 seed, u64 run);
void run_plan(struct plan *);
unsigned profile_oracles(const char *);

/* streams */
struct stream {
	unsigned char *d; size_t n, cap, pos;
	struct rng r; int chunk;      /* 0: as asked; >0: at most that; -1: random */
	long errat;                    /* byte offset at which the stream fails; -1 never */
	bool failed, closed; int closefail; u64 ticks; long eofat; int eintr; char buf[512];
};
FILE *stream_reader(struct stream *, int bufmode);
FILE *stream_writer(struct stream *, int bufmode);
void stream_init(struct stream *, const void *d, size_t n, u64 seed, int chunk, long errat);
void stream_fini(struct stream *);
#endif
