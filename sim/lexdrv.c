/* Compiled together with each generated lexer (LX_C, LX_HEADER); V_* say how it was generated. */
#include <assert.h>
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include "lexdrv.h"
static const struct lxhost *host;
static void *x_realloc(void *p, size_t n) { return host->realloc(p, n); }
static void *x_malloc(size_t n) { return host->realloc(NULL, n); }
static void x_free(void *p) { host->free(p); }
static ssize_t x_read(int fd, void *b, size_t n) { return host->read(fd, b, n); }
#define realloc x_realloc
#define malloc x_malloc
#define free x_free
#define read x_read
#define fcntl(...) 0
#include LX_C
#define CAT2(a, b) a ## b
#define CAT(a, b) CAT2(a, b)
#define API(n) CAT(V_API, n)
#define TOK(n) CAT(V_TOK, n)
static const struct { int t, no; } toks[] = {
#define T(name, no) { TOK(name), no },
#include "toks.h"
	{ 0, 0 }
};
int lxdrv(struct lxreq *q) {
	struct V_LX lx; host = q->host;
	API(init)(&lx);
#if V_IO == 0
	lx.lgetc = API(V_GETC);
#if V_GETCNO == 0
	lx.getc_opaque = q->f;
#elif V_GETCNO == 1
	const char *s = q->in; lx.getc_opaque = &s;
#elif V_GETCNO == 2
	struct lx_arr arr = { 0 }; arr.p = q->in; arr.len = q->n; lx.getc_opaque = &arr;
#else
	struct lx_fd fd = { 0 }; fd.p = fd.buf = q->rbuf; fd.bufsz = q->rbufsz; fd.fd = 7; lx.getc_opaque = &fd;
#endif
#elif V_IO == 1
	API(input_str)(&lx, q->in);
#else
	lx.p = q->in; lx.e = q->in + q->n;
#endif
#if V_BUF == 1
	struct lx_dynbuf b = { 0 };
#elif V_BUF == 2
	struct lx_fixedbuf b = { 0 }; b.p = b.a = q->fixed; b.len = q->fixedsz;
#endif
#if V_PUSH
	if (!q->nopush) {
		lx.buf_opaque = &b;
#if V_BUF == 1
		lx.push = API(dynpush); lx.clear = API(dynclear); lx.free = API(dynfree);
#else
		lx.push = API(fixedpush); lx.clear = API(fixedclear);
#endif
	}
#endif
#if V_EX
	for (size_t i = 0; i < sizeof toks / sizeof *toks - 1; i++) q->example(q->opaque, toks[i].no, API(example)(lx.z, toks[i].t));
#endif
	for (;;) {
		int t = API(next)(&lx), no = LXT_BAD;
		for (size_t i = 0; i < sizeof toks / sizeof *toks - 1; i++) if (toks[i].t == t) no = toks[i].no;
		if (t == V_EOF) no = LXT_EOF; else if (t == V_ERROR) no = LXT_ERROR; else if (t == V_UNKNOWN) no = LXT_UNKNOWN;
		const char *name = NULL, *text = NULL; size_t len = 0;
#if V_NAME
		name = API(name)(t);
#endif
#if V_PUSH
		if (!q->nopush && no != LXT_ERROR) { text = b.a; len = (size_t)(b.p - b.a); }
#endif
#if V_POS
		struct lxpos3 st = { lx.start.byte, lx.start.line, lx.start.col }, en = { lx.end.byte, lx.end.line, lx.end.col };
		if (!q->tok(q->opaque, no, name, &st, &en, text, len)) break;
#else
		if (!q->tok(q->opaque, no, name, NULL, NULL, text, len)) break;
#endif
	}
#if V_PUSH && V_BUF == 1
	if (!q->nopush) lx.free(lx.buf_opaque);
#endif
	return 0;
}
