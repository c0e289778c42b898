// Stand-in for the Boehm header: every object is a separate zeroed malloc block
// that is never freed, so AddressSanitizer sees each out-of-bounds access.
#ifndef MC_MALLOC_GC_H
#define MC_MALLOC_GC_H
#include <stdlib.h>
typedef void (*GC_finalization_proc)(void *, void *);
static inline void *GC_malloc(size_t n) { return calloc(1, n); }
static inline void *GC_malloc_atomic(size_t n) { return calloc(1, n); }
static inline void *GC_malloc_uncollectable(size_t n) { return calloc(1, n); }
static inline void *GC_realloc(void *p, size_t n) { return realloc(p, n); }
static inline void GC_free(void *p) { free(p); }
static inline void GC_add_roots(void *a, void *b) { (void) a; (void) b; }
static inline void GC_register_finalizer(void *o, void *p, void *a, void *b, void *c) { }
static inline void GC_init(void) { }
static inline void GC_deinit(void) { }
static inline void GC_disable(void) { }
static inline void GC_enable(void) { }
static inline void GC_gcollect(void) { }
#endif
