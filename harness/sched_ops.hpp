// Operations offered to the scheduler. Buffers belong to the calling thread.
#ifndef SCHED_OPS_HPP
#define SCHED_OPS_HPP
struct SchedOp { const char *name; void (*run)(const void *in, const void *in2, void *out); unsigned n; bool dbl; };
extern const SchedOp SCHED_OPS[];
extern const unsigned SCHED_NOPS;
#endif
