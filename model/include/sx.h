// Harness interface: the same harness source is encoded for the solver and compiled natively for replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sx_range(const char *name, uint64_t lo, uint64_t hi);   // unconstrained input in [lo,hi]
uint64_t sx_choice(const char *name, uint64_t lo, uint64_t hi);  // same, represented as a case split over constants
void sx_assume(bool c);
void sx_check(bool c, const char *label);
void sx_reach(const char *label);
uint64_t sx_param(const char *name, uint64_t def);
void sx_observe(uint64_t v);
uint64_t sx_conc(uint64_t v);          // case split: the value becomes concrete on each path
bool sx_fork(bool c);
int sx_merge(int mode);                // bit 1: join states after branches; bit 2: also when pointers into one object differ; bit 4: pointers to different objects
uint64_t sx_heap_live();
void sx_alloc_limit(uint64_t bytes);   // larger allocations raise bad_alloc
bool sx_is_symbolic(uint64_t v);
void sx_fail(const char *label);
void sx_stop();
bool sx_is_native();
void sx_dump(const char *what, uint64_t v);
void sx_check_init(const void *p, size_t n, const char *label);
// virtual files (both in the encoding and natively)
void sx_vfs_put(const char *name, const char *data, unsigned long len);
const char *sx_vfs_find(const char *name, unsigned long *len);
void sx_vfs_short_reads(int mode);     // 0: off; 1: every read() may return fewer bytes
void sx_vfs_truncate(unsigned long by); // the next file opened loses `by` bytes between fstat() and read()
void sx_vfs_fail(int what, int on);     // what: 0 open, 1 fstat, 2 read
}
