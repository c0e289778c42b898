// Stand-in for the Boehm header: a collector that can run at every allocation, frees exactly
// what a conservative collector may free, poisons it and never hands the memory out again.
#ifndef MC_STRESS_GC_H
#define MC_STRESS_GC_H
#include <stddef.h>
typedef void (*GC_finalization_proc)(void *, void *);
void *GC_malloc(size_t n);
void *GC_malloc_atomic(size_t n);
void *GC_malloc_uncollectable(size_t n);
void *GC_realloc(void *p, size_t n);
void GC_free(void *p);
void GC_register_finalizer(void *o, void *f, void *a, void *b, void *c);
void GC_add_roots(void *a, void *b);
void GC_init(void);
void GC_deinit(void);
void GC_disable(void);
void GC_enable(void);
void GC_gcollect(void);
// what exists now is never freed; from here on collect at every allocation whose number is phase modulo period
void stress_begin(long period, long phase, void *bottom);
void stress_end(long *allocs, long *collections, long *freed);
#endif
