#ifndef GEN_H
#define GEN_H
#include "sim.h"
enum { GEN_ANCHORS = 1, GEN_BROKEN = 2 };
size_t gen_pattern(struct rng *r, int dialect, char *buf, size_t max, unsigned opts);
#endif
