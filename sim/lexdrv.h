/* Between the simulator and a compiled generated lexer. */
#ifndef LEXDRV_H
#define LEXDRV_H
#include <stddef.h>
#include <stdio.h>
struct lxpos3 { unsigned byte, line, col; };
struct lxhost { void *(*realloc)(void *, size_t); void (*free)(void *); long (*read)(int, void *, size_t); };
enum { LXT_EOF = -1, LXT_ERROR = -2, LXT_UNKNOWN = -3, LXT_BAD = -4 };
struct lxreq {
	const struct lxhost *host; char *in; size_t n; FILE *f; char *rbuf; size_t rbufsz;   /* input */
	char *fixed; size_t fixedsz; int nopush;                                             /* text */
	/* one token; answers 0 to stop */
	int (*tok)(void *, int t, const char *name, const struct lxpos3 *s, const struct lxpos3 *e, const char *text, size_t len);
	void (*example)(void *, int t, const char *s);
	void *opaque;
};
int lxdrv(struct lxreq *);
#endif
