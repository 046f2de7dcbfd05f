/* Operations defined in ops2.c */
#ifndef OPS_H
#define OPS_H
#include "hist.h"
int op_engines(struct op *); int op_generate(struct op *); int op_required(struct op *); int op_example(struct op *); int op_shortest(struct op *);
int op_print(struct op *); int op_roundtrip(struct op *); int op_parse(struct op *); int op_group(struct op *); int op_rex(struct op *);
int op_vmc(struct op *); int op_vmrun(struct op *); int op_native(struct op *); int op_vmsave(struct op *); int op_big(struct op *); int op_capture(struct op *); int op_meaning(struct op *); int op_describe(struct op *);
size_t gen_meaning(struct rng *, int, unsigned char *, size_t, long *, int);
#define OPS2 { "engines", op_engines, 0 }, { "generate", op_generate, 0 }, { "required", op_required, 0 }, { "example", op_example, 0 }, { "shortest", op_shortest, 0 }, \
	{ "print", op_print, 0 }, { "roundtrip", op_roundtrip, 0 }, { "parse", op_parse, 0 }, { "group", op_group, 0 }, { "rex", op_rex, 0 }, \
	{ "vmc", op_vmc, 0 }, { "vmrun", op_vmrun, OF_READ | OF_FREE }, { "native", op_native, OF_READ | OF_FREE }, { "vmsave", op_vmsave, OF_READ }, { "big", op_big, OF_READ }, { "capture", op_capture, OF_READ }, { "meaning", op_meaning, 0 }, { "describe", op_describe, OF_READ | OF_FREE }
#endif
