#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "gc.h"

typedef struct { char *p; size_t n; unsigned char atomic, mark, dead, keep; GC_finalization_proc fin; void *data; } so;

#define ARENA ((size_t) 16 << 30)
static char *arena, *brk_, *young;          // objects from young on may be freed
static uint32_t *idx;                       // 16-byte slot -> object number
static so *objs;
static uint32_t nobj = 1, first_young, maxobj = 1u << 28;
static unsigned char *dirty;                // pages of the old part that were written
static uint32_t *dirty_list; static long ndirty;
static long period, phase, count, ncollect, nfreed;
static int paused;
static char *bottom;
static uint32_t *mstack; static long nm;

static void *reserve(size_t n) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("stressgc"); abort(); }
    return p;
}

static void *alloc(size_t n, int atomic) {
    if (!arena) {
        arena = brk_ = reserve(ARENA);
        idx = reserve(ARENA / 16 * 4);
        objs = reserve((size_t) maxobj * sizeof(so));
        mstack = reserve((size_t) maxobj * 4);
    }
    if (period && !paused && count++ % period == phase) GC_gcollect();
    size_t cap = (n + 16) / 16 * 16;        // a pointer just past the end still holds the object
    if (brk_ + cap > arena + ARENA || nobj == maxobj) return NULL;
    char *p = brk_;
    brk_ += cap;
    objs[nobj] = (so) { p, cap, atomic, 0, 0, 0, NULL, NULL };
    for (size_t i = 0; i < cap / 16; i++) idx[(p - arena) / 16 + i] = nobj;
    nobj++;
    if (atomic) memset(p, 0xcc, n);         // atomic memory is not cleared
    return p;
}

void *GC_malloc(size_t n) { return alloc(n, 0); }
void *GC_malloc_atomic(size_t n) { return alloc(n, 1); }
void *GC_malloc_uncollectable(size_t n) { void *p = alloc(n, 0); if (p) objs[nobj - 1].keep = 1; return p; }
void *GC_realloc(void *q, size_t n) {
    if (!q) return GC_malloc(n);
    so *o = &objs[idx[((char *) q - arena) / 16]];     // (objs never moves)
    char *p = alloc(n, o->atomic);
    memcpy(p, q, o->n < n ? o->n : n);
    GC_free(q);
    return p;
}
void GC_free(void *p) {
    so *o = p ? &objs[idx[((char *) p - arena) / 16]] : NULL;
    if (!o || o->dead) return;
    o->dead = 1;
    o->fin = NULL;
    memset(o->p, 0xdd, o->n);
}
void GC_add_roots(void *a, void *b) { }
void GC_init(void) { }
void GC_deinit(void) { }
void GC_disable(void) { paused++; }
void GC_enable(void) { paused--; }
void GC_register_finalizer(void *p, void *f, void *a, void *b, void *c) {
    so *o = &objs[idx[((char *) p - arena) / 16]];
    o->fin = (GC_finalization_proc) f;
    o->data = a;
}

static void mark(uintptr_t w) {
    char *p = (char *) w;
    if (p < young || p >= brk_) return;
    so *o = &objs[idx[(p - arena) / 16]];
    if (o->mark || o->dead) return;
    o->mark = 1;
    if (!o->atomic) mstack[nm++] = o - objs;
}
__attribute__((no_sanitize("address"))) static void scan(char *a, char *b) {
    for (a = (char *) (((uintptr_t) a + 7) & ~7ul); a + 8 <= b; a += 8) mark(*(uintptr_t *) a);
}
extern char __data_start, _end;

__attribute__((noinline)) static void collect(void) {
    char here;
    for (uint32_t i = first_young; i < nobj; i++) objs[i].mark = 0;
    scan((char *) ((uintptr_t) &here & ~15ul), bottom);
    scan(&__data_start, &_end);
    for (uint32_t i = first_young; i < nobj; i++) if (objs[i].keep) mark((uintptr_t) objs[i].p);
    for (long i = 0; i < ndirty; i++) scan(arena + 4096l * dirty_list[i], arena + 4096l * (dirty_list[i] + 1));
    while (nm) { so *o = &objs[mstack[--nm]]; scan(o->p, o->p + o->n); }
    ncollect++;
    uint32_t last = nobj;
    for (uint32_t i = first_young; i < last; i++)
        if (!objs[i].mark && !objs[i].dead && objs[i].fin) {
            GC_finalization_proc f = objs[i].fin;
            objs[i].fin = NULL;
            f(objs[i].p, objs[i].data);
        }
    for (uint32_t i = first_young; i < last; i++)
        if (!objs[i].mark && !objs[i].dead) {
            objs[i].dead = 1;
            memset(objs[i].p, 0xdd, objs[i].n);
            nfreed++;
        }
}
__attribute__((noinline)) void GC_gcollect(void) {
    jmp_buf env;                            // callee-saved registers
    __builtin_unwind_init();
    setjmp(env);
    void (*volatile f)(void) = collect;
    paused++;
    f();
    paused--;
}

static void on_write(int sig, siginfo_t *si, void *u) {
    char *p = si->si_addr;
    if (p >= arena && p < young) {
        uint32_t pg = (p - arena) / 4096;
        if (!dirty[pg]) {
            dirty[pg] = 1;
            dirty_list[ndirty++] = pg;
            mprotect(arena + 4096l * pg, 4096, PROT_READ | PROT_WRITE);
            return;
        }
    }
    signal(SIGSEGV, SIG_DFL);
}

void stress_begin(long per, long ph, void *bot) {
    brk_ = (char *) (((uintptr_t) brk_ + 4095) & ~4095ul);
    young = brk_;
    first_young = nobj;
    size_t pages = (young - arena) / 4096;
    dirty = calloc(pages, 1);
    dirty_list = malloc(pages * 4);
    ndirty = 0;
    bottom = bot;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_write;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL);
    mprotect(arena, young - arena, PROT_READ);
    count = ncollect = nfreed = 0;
    phase = ph;
    period = per;
}
void stress_end(long *a, long *c, long *f) { *a = count; *c = ncollect; *f = nfreed; period = 0; }
