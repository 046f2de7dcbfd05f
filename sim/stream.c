/* Simulated streams: chunked, failing, truncated, full. */
#define _GNU_SOURCE
#include "hist.h"
#include <errno.h>

void stream_init(struct stream *s, const void *d, size_t n, u64 seed, int chunk, long errat) {
	memset(s, 0, sizeof *s); s->r.s = seed; s->chunk = chunk; s->errat = errat; s->eofat = -1;
	if (d) { s->d = hmalloc(n + 1); memcpy(s->d, d, n); s->n = s->cap = n; }
}
void stream_fini(struct stream *s) { hfree(s->d); s->d = NULL; }
static size_t piece(struct stream *s, size_t want) {
	size_t m = want;
	if (s->chunk > 0 && m > (size_t)s->chunk) m = (size_t)s->chunk;
	if (s->chunk < 0) m = 1 + rn(&s->r, (unsigned)(m > 64 ? 64 : m));
	if (m > want) m = want;
	return m;
}
static ssize_t rd(void *c, char *buf, size_t n) {
	struct stream *s = c; ST(io_reads);
	if (chance(&s->r, 1, 4)) { ST(io_delays); s->ticks += 1 + rn(&s->r, 1000); STN(sim_ticks, 1); }
	size_t end = s->n; if (s->errat >= 0 && (size_t)s->errat < end) end = (size_t)s->errat;
	if (s->pos >= end) {
		if (s->errat >= 0) { s->failed = true; ST(io_read_errors); errno = EIO; return -1; }
		return 0;
	}
	size_t m = piece(s, n); if (m < n) ST(io_short_reads);
	if (m > end - s->pos) m = end - s->pos;
	memcpy(buf, s->d + s->pos, m); s->pos += m; STN(io_bytes, m);
	return (ssize_t)m;
}
static ssize_t wr(void *c, const char *buf, size_t n) {
	struct stream *s = c; ST(io_writes);
	size_t m = n;
	if (s->errat >= 0 && s->n + m > (size_t)s->errat) { m = (size_t)s->errat > s->n ? (size_t)s->errat - s->n : 0; s->failed = true; ST(io_write_errors); if (m) ST(io_short_writes); errno = chance(&s->r, 1, 2) ? ENOSPC : EIO; }
	if (s->n + m > s->cap) { s->cap = (s->n + m) * 2 + 256; s->d = hrealloc(s->d, s->cap); }
	memcpy(s->d + s->n, buf, m); s->n += m; STN(io_bytes, m);
	return (ssize_t)m; /* less than asked means failure to stdio */
}
static int cl(void *c) { struct stream *s = c; s->closed = true; if (s->closefail) { ST(io_close_errors); errno = EIO; return -1; } return 0; }
static FILE *mk(struct stream *s, const char *mode, int bufmode) {
	cookie_io_functions_t io = { .read = *mode == 'r' ? rd : NULL, .write = *mode == 'w' ? wr : NULL, .close = cl };
	FILE *f = fopencookie(s, mode, io);
	if (!f) sim_harness_error("fopencookie");
	char *b = s->buf;
	switch (((unsigned)bufmode) % 5) {
	case 0: break;
	case 1: setvbuf(f, NULL, _IONBF, 0); break;
	case 2: setvbuf(f, b, _IOFBF, 16); break;
	case 3: setvbuf(f, b, _IOLBF, 64); break;
	case 4: setvbuf(f, b, _IOFBF, 512); break;
	}
	return f;
}
FILE *stream_reader(struct stream *s, int bufmode) { return mk(s, "r", bufmode); }
FILE *stream_writer(struct stream *s, int bufmode) { return mk(s, "w", bufmode); }
