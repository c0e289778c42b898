// Explicit-state exploration of the collector (src/gc/minim-gc) itself.
//
//   gcmc MODE DEPTH        breadth-first over histories of operations, merging equal model states
//   gcmc grow N            tables of N objects: growth, collection, shrinking
//   gcmc auto              automatic collection, pause and resume
//   gcmc replay MODE OP..  one history
//
// Every operation runs on its own zeroed stack, which is all the collector scans; pointers
// outside the collector's memory are kept masked.  malloc and friends are replaced by an
// allocator that knows every block, so what the collector frees is observed exactly.
// MODE bits: 1 all blocks fall into one bucket of the table, 2 realloc moves, 4 addresses are reused,
// 8 histories are merged only when their last operation is the same too.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <ucontext.h>
#include <sys/mman.h>
#include "gc.h"

typedef uintptr_t W;
#define MASK ((W) 0x5a5a5a5a5a5a5a5aull)

// ---- allocator -----------------------------------------------------------
static char *arena;
static size_t arena_size = (size_t) 3 << 30, brk_;
typedef struct { char *p; size_t size, cap; int live; } blk;
static blk *blks;
static long nblk, maxblk = 1 << 22;
static int mode, in_gc;
static char fail_msg[4000];
static int failed;

static void fail(const char *f, ...) {
    if (failed) return;
    failed = 1;
    va_list ap; va_start(ap, f); vsnprintf(fail_msg, sizeof fail_msg, f, ap); va_end(ap);
}

static blk *blk_of(void *p) {
    // blocks are handed out at increasing addresses
    long lo = 0, hi = nblk - 1;
    while (lo <= hi) {
        long m = (lo + hi) / 2;
        if (blks[m].p == (char *) p) return &blks[m];
        if (blks[m].p < (char *) p) lo = m + 1; else hi = m - 1;
    }
    return NULL;
}

static void *mc_alloc(size_t n) {
    size_t unit = (mode & 1) ? 131344 : 16, cap = (n + unit - 1) / unit * unit;
    if (!n) cap = unit;
    if (mode & 4)
        for (long i = nblk - 1; i >= 0 && i > nblk - 200; i--)
            if (!blks[i].live && blks[i].cap == cap) { blks[i].live = 1; blks[i].size = n; return blks[i].p; }
    if (brk_ + cap > arena_size || nblk == maxblk) return NULL;
    blks[nblk] = (blk) { arena + brk_, n, cap, 1 };
    brk_ += cap;
    return blks[nblk++].p;
}

static void mc_release(void *p) {
    if (!p) return;
    blk *b = blk_of(p);
    if (!b) { fail("free of something that was not allocated"); return; }
    if (!b->live) { fail("block freed twice"); return; }
    b->live = 0;
    memset(b->p, 0xdd, b->size);
}

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) {
    if (!in_gc) return __real_malloc(n);
    void *p = mc_alloc(n);
    if (p) memset(p, 0xcd, n);
    return p;
}
void *__wrap_calloc(size_t m, size_t n) {
    if (!in_gc) return __real_calloc(m, n);
    void *p = mc_alloc(m * n);
    if (p) memset(p, 0, m * n);
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (!in_gc) return __real_realloc(q, n);
    blk *b = q ? blk_of(q) : NULL;
    if (q && (!b || !b->live)) { fail("realloc of a block that is not allocated"); return NULL; }
    if (b && !(mode & 2) && n <= b->cap) { b->size = n; return q; }
    void *p = mc_alloc(n);
    if (!p) return NULL;
    memset(p, 0xcd, n);
    if (q) { memcpy(p, q, b->size < n ? b->size : n); mc_release(q); }
    return p;
}
void __wrap_free(void *p) { if (!in_gc) __real_free(p); else mc_release(p); }

// ---- running on the scanned stack ------------------------------------------
static size_t S_size = (size_t) 512 << 20;
static char *S;
static ucontext_t main_ctx, op_ctx;
static void (*op_fn)(void);
static size_t S_used = 65536;
static void trampoline(void) { op_fn(); }
static void *bottom(void) { return S + S_size - 64; }

static void on_stack(void (*f)(void)) {
    memset(S + S_size - S_used, 0, S_used);
    op_fn = f;
    getcontext(&op_ctx);
    op_ctx.uc_stack.ss_sp = S;
    op_ctx.uc_stack.ss_size = S_size - 4096;
    op_ctx.uc_link = &main_ctx;
    makecontext(&op_ctx, trampoline, 0);
    in_gc = 1;
    swapcontext(&main_ctx, &op_ctx);
    in_gc = 0;
}

// ---- the model -------------------------------------------------------------
#define K 2
#define MAXO 12
enum { CONS, ATOMIC, MARKED };              // how the collector may look into an object
typedef struct { int id, kind, size, root, dtor, f[2], alive; } obj;   // f: object number + 1, 0 none, -1 not a live pointer
typedef struct { int n, slot[K], order[MAXO], nord; obj o[MAXO]; } model;
static model M;
static W ptr[MAXO];                         // masked address of each object
static int dtors[MAXO], want_dtors[MAXO];
static W roots;                             // masked address of the root block

static void *get(int o) { return (void *) (ptr[o] ^ MASK); }
static void **rootp(void) { return (void **) (roots ^ MASK); }

static void dtor_fn(void *p, void *x) {
    W w = (W) p ^ MASK;
    int at = -1;                            // addresses are reused: the live owner, or the last one
    for (int i = 0; i < M.n; i++)
        if (ptr[i] == w && (at < 0 || M.o[at].alive != 1)) at = i;
    if (at >= 0) { dtors[at]++; return; }
    fail("destructor called on something else");
}
static void dtor1(void *p) { dtor_fn(p, NULL); }
static void mrk_fn(void (*mrk)(void *, void *), void *gc, void *p) { mrk(gc, ((void **) p)[1]); }

static void mark(int o, char *seen) {
    if (seen[o]) return;
    seen[o] = 1;
    for (int k = 0; k < 2; k++)
        if (M.o[o].f[k] > 0 && (M.o[o].kind == CONS || (M.o[o].kind == MARKED && k == 0))) mark(M.o[o].f[k] - 1, seen);
}
static void reach(char *seen) {
    memset(seen, 0, MAXO);
    for (int i = 0; i < K; i++) if (M.slot[i] > 0) mark(M.slot[i] - 1, seen);
    for (int i = 0; i < M.n; i++) if (M.o[i].alive == 1 && M.o[i].root) mark(i, seen);
}
static void m_drop(int o) {
    // o is gone: pointers to it are no longer pointers
    M.o[o].alive = 0;
    for (int i = 0; i < M.n; i++) for (int k = 0; k < 2; k++) if (M.o[i].f[k] == o + 1) M.o[i].f[k] = -1;
    int j = 0;
    for (int i = 0; i < M.nord; i++) if (M.order[i] != o) M.order[j++] = M.order[i];
    M.nord = j;
}
static void m_free(int o) { want_dtors[o] += M.o[o].dtor; m_drop(o); }
static void m_collect(void) {
    char seen[MAXO];
    reach(seen);
    for (int i = 0; i < M.n; i++) if (M.o[i].alive == 1 && !seen[i]) m_free(i);
}
static int refs(int o) {
    // from anywhere that is still allocated
    int n = 0;
    for (int i = 0; i < K; i++) n += M.slot[i] == o + 1;
    for (int i = 0; i < M.n; i++) if (M.o[i].alive == 1) for (int k = 0; k < 2; k++) n += M.o[i].f[k] == o + 1;
    return n;
}

// ---- operations --------------------------------------------------------------
enum { ALLOC, CALLOC, ALLOCA, ALLOCM, LINK, DROP, COLLECT, FREE, REALLOC, REALLOCA, REALLOC0, ROOT, DTOR, MRK, HOLD, HOLDR, DOWN, NKIND };
static const char *names[] = { "alloc", "calloc", "alloc-atomic", "alloc-marker-dtor", "link", "drop", "collect", "free", "realloc", "realloc-atomic", "realloc-0", "root", "dtor", "mrk", "hold", "hold-register", "down" };
typedef struct { unsigned char k, a, b, c; } op;
static op ops[200];
static int nops;
static void add(int k, int a, int b, int c) { ops[nops++] = (op) { k, a, b, c }; }
static void make_ops(void) {
    for (int i = 0; i < K; i++) for (int k = ALLOC; k <= ALLOCM; k++) add(k, i, 0, 0);
    for (int i = 0; i < K; i++) for (int f = 0; f < 2; f++) for (int j = 0; j < K; j++) add(LINK, i, f, j);
    add(COLLECT, 0, 0, 0);
    for (int i = 0; i < K; i++) {
        int ks[] = { DROP, FREE, REALLOC, REALLOCA, REALLOC0, ROOT, DTOR, MRK, HOLD, HOLDR };
        for (unsigned k = 0; k < sizeof ks / sizeof *ks; k++) add(ks[k], i, 0, 0);
        for (int f = 0; f < 2; f++) add(DOWN, i, f, 0);
    }
}
static op cur;
static int maxobj = 4;

// Does the operation apply in the model's state?
static int enabled(op x) {
    int o = M.slot[x.a] - 1;
    switch (x.k) {
    case ALLOC: case CALLOC: case ALLOCA: case ALLOCM: return M.nord < maxobj && M.n < MAXO;
    case LINK: return o >= 0 && M.slot[x.c] > 0;
    case COLLECT: return 1;
    case FREE: case REALLOC: case REALLOCA: case REALLOC0: return o >= 0 && refs(o) == 1 && M.n < MAXO;
    case DOWN: return o >= 0 && M.o[o].f[x.b] > 0;
    default: return o >= 0;
    }
}

static void fill(void **p, int id) { p[0] = (void *) (W) (0x1000 + id); p[1] = p[2] = NULL; }

// The real operation; runs on the scanned stack.
static __attribute__((noinline)) void do_op(void) {
    int i = cur.a;
    void **r = rootp(), **p;
    switch (cur.k) {
    case ALLOC: p = GC_alloc(24); fill(p, M.n); r[i] = p; ptr[M.n] = (W) p ^ MASK; break;
    case CALLOC: p = GC_calloc(3, 8); if (p[0] || p[1] || p[2]) fail("GC_calloc memory is not zero"); fill(p, M.n); r[i] = p; ptr[M.n] = (W) p ^ MASK; break;
    case ALLOCA: p = GC_alloc_atomic(24); fill(p, M.n); r[i] = p; ptr[M.n] = (W) p ^ MASK; break;
    case ALLOCM: p = GC_alloc_opt(24, dtor1, mrk_fn); fill(p, M.n); r[i] = p; ptr[M.n] = (W) p ^ MASK; break;
    case LINK: p = r[i]; p[1 + cur.b] = r[cur.c]; break;
    case DROP: r[i] = NULL; break;
    case COLLECT: GC_collect(); break;
    case FREE: p = r[i]; r[i] = NULL; GC_free(p); break;
    case REALLOC: case REALLOCA:
        p = r[i];
        r[i] = NULL;
        p = cur.k == REALLOC ? GC_realloc(p, 40) : GC_realloc_atomic(p, 24);
        if (!p) { fail("GC_realloc returned nothing"); return; }
        r[i] = p;
        ptr[M.slot[i] - 1] = (W) p ^ MASK;
        break;
    case REALLOC0: p = r[i]; r[i] = NULL; if (GC_realloc(p, 0)) fail("GC_realloc to nothing returned a pointer"); break;
    case ROOT: GC_register_root(r[i]); break;
    case DTOR: GC_register_dtor(r[i], dtor_fn); break;
    case MRK: GC_register_mrk(r[i], mrk_fn); break;
    case HOLD: { void *volatile q = r[i]; r[i] = NULL; GC_collect(); r[i] = q; break; }
    case HOLDR: {
#ifdef __x86_64__
        register void *q asm("rbx") = r[i];
        asm volatile("" : "+r"(q));
        rootp()[cur.a] = NULL;
        GC_collect();
        asm volatile("" : "+r"(q));
        rootp()[cur.a] = q;
#else
        GC_collect();
#endif
        break; }
    case DOWN: p = r[i]; r[i] = p[1 + cur.b]; break;
    }
}

static void model_op(op x) {
    int o = M.slot[x.a] - 1;
    switch (x.k) {
    case ALLOC: case CALLOC: case ALLOCA: case ALLOCM:
        M.o[M.n] = (obj) { M.n, x.k == ALLOCA ? ATOMIC : x.k == ALLOCM ? MARKED : CONS, 24, 0, x.k == ALLOCM, { 0, 0 }, 1 };
        M.order[M.nord++] = M.n;
        M.slot[x.a] = ++M.n;
        break;
    case LINK: M.o[o].f[x.b] = M.slot[x.c]; break;
    case DROP: M.slot[x.a] = 0; break;
    case COLLECT: case HOLD: case HOLDR: m_collect(); break;
    case FREE: case REALLOC0: M.slot[x.a] = 0; m_free(o); break;
    case REALLOC: case REALLOCA: {
        M.o[o].kind = x.k == REALLOC ? CONS : ATOMIC;
        M.o[o].size = x.k == REALLOC ? 40 : 24;
        M.o[o].dtor = 0;
        int j = 0;
        for (int i = 0; i < M.nord; i++) if (M.order[i] != o) M.order[j++] = M.order[i];
        M.order[j] = o;
        break; }
    case ROOT: M.o[o].root = 1; break;
    case DTOR: M.o[o].dtor = 1; break;
    case MRK: M.o[o].kind = MARKED; break;
    case DOWN: M.slot[x.a] = M.o[o].f[x.b]; break;
    }
}

// ---- comparison ----------------------------------------------------------------
static size_t q_alloc, q_reach, q_coll;
static void query(void) { q_alloc = GC_get_allocated(); q_reach = GC_get_reachable(); q_coll = GC_get_collectable(); }

static int is_live(int o) {
    // the block that holds the object: the collector keeps a header in front of it
    char *p = get(o);
    long lo = 0, hi = nblk - 1, at = -1;
    while (lo <= hi) { long m = (lo + hi) / 2; if (blks[m].p <= p) { at = m; lo = m + 1; } else hi = m - 1; }
    return at >= 0 && blks[at].live && p < blks[at].p + blks[at].cap;
}

static void compare(void) {
    size_t total = K * 8, rs = K * 8;
    char seen[MAXO];
    reach(seen);
    for (int i = 0; i < M.n && !failed; i++) {
        obj *o = &M.o[i];
        if (dtors[i] != want_dtors[i]) fail("object %d: destructor ran %d times, not %d", i, dtors[i], want_dtors[i]);
        if (o->alive != 1) {
            // its address may have been given out again
            int again = 0;
            for (int j = 0; j < M.n; j++) again |= M.o[j].alive == 1 && ptr[j] == ptr[i];
            if (!again && is_live(i)) fail("object %d is unreachable but was not freed", i);
            continue;
        }
        total += o->size;
        if (seen[i]) rs += o->size;
        if (!is_live(i)) { fail("object %d was freed while it could be reached", i); continue; }
        void **p = get(i);
        if (p[0] != (void *) (W) (0x1000 + i)) fail("object %d lost its contents", i);
        for (int k = 0; k < 2; k++) {
            if (o->f[k] == 0 && p[1 + k]) fail("object %d field %d is not empty", i, k);
            if (o->f[k] > 0 && p[1 + k] != get(o->f[k] - 1)) fail("object %d field %d points elsewhere", i, k);
        }
    }
    for (int i = 0; i < K && !failed; i++)
        if ((M.slot[i] ? get(M.slot[i] - 1) : NULL) != rootp()[i]) fail("slot %d points elsewhere", i);
    if (failed) return;
    on_stack(query);
    if (q_alloc != total) fail("GC_get_allocated is %zu, not %zu", q_alloc, total);
    if (q_reach != rs) fail("GC_get_reachable is %zu, not %zu", q_reach, rs);
    if (q_coll != total - rs) fail("GC_get_collectable is %zu, not %zu", q_coll, total - rs);
}

static void begin_(void) {
    GC_init(bottom());
    void **r = GC_calloc(K, 8);
    GC_register_root(r);
    roots = (W) r ^ MASK;
}
static void end_(void) { GC_finalize(); }

static void fresh(void) {
    brk_ = 0; nblk = 0; failed = 0;
    memset(&M, 0, sizeof M);
    memset(dtors, 0, sizeof dtors); memset(want_dtors, 0, sizeof want_dtors);
    on_stack(begin_);
}

static void finish(void) {
    // shutting down frees everything and runs the remaining destructors
    for (int i = 0; i < M.n; i++) if (M.o[i].alive == 1) want_dtors[i] += M.o[i].dtor;
    on_stack(end_);
    for (int i = 0; i < M.n; i++) if (dtors[i] != want_dtors[i]) fail("after shutdown: object %d: destructor ran %d times, not %d", i, dtors[i], want_dtors[i]);
    for (long i = 0; i < nblk; i++) if (blks[i].live) { fail("after shutdown: a block of %zu bytes was not freed", blks[i].size); break; }
}

static void step(op x) { cur = x; on_stack(do_op); model_op(x); }

// ---- exploration ----------------------------------------------------------------
typedef struct { op path[12]; } node;
static node *queue;
static long qn, qmax = 1 << 24;
static uint64_t *seen_;
static long nseen, seen_cap = 1 << 26;

static uint64_t hash_state(op last) {
    // objects in table order; names do not matter
    int no[MAXO];
    unsigned char b[200]; int n = 0;
    for (int i = 0; i < MAXO; i++) no[i] = -1;
    for (int i = 0; i < M.nord; i++) no[M.order[i]] = i;
    for (int i = 0; i < K; i++) b[n++] = M.slot[i] ? 1 + no[M.slot[i] - 1] : 0;
    for (int i = 0; i < M.nord; i++) {
        obj *o = &M.o[M.order[i]];
        b[n++] = o->kind | o->root << 2 | o->dtor << 3 | (o->size == 40) << 4;
        for (int k = 0; k < 2; k++) b[n++] = o->f[k] < 0 ? 99 : o->f[k] ? 1 + no[o->f[k] - 1] : 0;
    }
    if (mode & 8) { b[n++] = last.k; b[n++] = last.a; }
    uint64_t h = 1469598103934665603ull, g = 88172645463325252ull;
    for (int i = 0; i < n; i++) { h = (h ^ b[i]) * 1099511628211ull; g = (g ^ b[i]) * 6364136223846793005ull + 1442695040888963407ull; }
    h ^= g >> 17 ^ g << 23;
    return h ? h : 1;
}
static int insert(uint64_t h) {
    long i = h & (seen_cap - 1);
    while (seen_[i]) { if (seen_[i] == h) return 0; i = (i + 1) & (seen_cap - 1); }
    seen_[i] = h; nseen++;
    return 1;
}
static void show(op *p, int n) {
    for (int i = 0; i < n; i++) printf("%s%s(%d,%d,%d)", i ? " " : "", names[p[i].k], p[i].a, p[i].b, p[i].c);
}

static int explore(int depth, int part, int parts) {
    queue = __real_malloc(qmax * sizeof(node));
    seen_ = __real_calloc(seen_cap, 8);
    long transitions = 0, first = 0, bad = 0, leaf = 0;
    fresh(); compare();
    insert(hash_state((op) { 0 }));
    if (failed) { printf("FAIL\t\t%s\n", fail_msg); bad++; }
    qn = 1; memset(&queue[0], 0, sizeof(node));
    for (int d = 0; d < depth && !bad; d++) {
        long last = qn;
        for (long q = first; q < last; q++) {
            for (int i = 0; i < nops; i++) {
                // replay the history, then the operation
                if (d == 1 && parts > 1 && (leaf++ % parts) != part) continue;
                fresh();
                for (int k = 0; k < d; k++) step(queue[q].path[k]);
                if (!enabled(ops[i])) { continue; }
                step(ops[i]);
                compare();
                uint64_t h = hash_state(ops[i]);
                finish();
                transitions++;
                if (failed) {
                    op p[12]; memcpy(p, queue[q].path, sizeof p); p[d] = ops[i];
                    printf("FAIL\t"); show(p, d + 1); printf("\t%s\n", fail_msg);
                    if (++bad >= 20) goto out;
                    continue;
                }
                if (insert(h) && d + 1 < depth && qn < qmax) {
                    queue[qn] = queue[q];
                    queue[qn++].path[d] = ops[i];
                }
            }
        }
        first = last;
    }
out:
    printf("DONE\t%ld\t%ld\n", nseen, transitions);
    return 0;
}

// ---- tables that grow and shrink ---------------------------------------------------
static long G_n, G_keep;
static W *G_ptr;
static int G_list;
static void g_build(void) {
    void **r = GC_calloc(G_n + 2, 8);
    GC_register_root(r);
    roots = (W) r ^ MASK;
    for (long i = 0; i < G_n; i++) {
        void **p = i % 3 == 2 ? GC_alloc_atomic(24) : GC_alloc(24);
        p[0] = (void *) (i * 16 + 1);
        p[1] = p[2] = NULL;
        if (G_list && i % 3 != 2) { p[1] = r[0]; r[0] = p; }    // reached through the list only
        else r[1 + i] = p;
        G_ptr[i] = (W) p ^ MASK;
    }
}
static void g_collect(void) { GC_collect(); }
static void g_drop(void) {
    // keep every G_keep-th object
    void **r = rootp();
    r[0] = NULL;
    for (long i = 0; i < G_n; i++) r[1 + i] = NULL;
    for (long i = 0; i < G_n; i++) {
        void **p = (void **) (G_ptr[i] ^ MASK);
        p[1] = NULL;
        if (G_keep && i % G_keep == 0) r[1 + i] = p;
    }
}
static void g_check(const char *when, int dropped) {
    size_t total = (G_n + 2) * 8 + K * 8;
    for (long i = 0; i < G_n && !failed; i++) {
        int live = !dropped || (G_keep && i % G_keep == 0);
        blk *b = NULL;
        // the header is constant; find the block by the object in it
        char *p = (char *) (G_ptr[i] ^ MASK);
        long lo = 0, hi = nblk - 1, at = -1;
        while (lo <= hi) { long m = (lo + hi) / 2; if (blks[m].p <= p) { at = m; lo = m + 1; } else hi = m - 1; }
        b = &blks[at];
        if (live) {
            total += 24;
            if (!b->live) fail("%s: object %ld of %ld was freed while it could be reached", when, i, G_n);
            else if (((void **) p)[0] != (void *) (i * 16 + 1)) fail("%s: object %ld of %ld lost its contents", when, i, G_n);
        } else if (b->live) fail("%s: object %ld of %ld is unreachable but was not freed", when, i, G_n);
    }
    on_stack(query);
    if (!failed && q_alloc != total) fail("%s: %zu bytes allocated, not %zu", when, q_alloc, total);
}
static void grow(long n) {
    long cases = 0;
    G_ptr = __real_malloc((n + 1) * sizeof *G_ptr);
    S_used = (size_t) 64 << 20;
    for (G_list = 0; G_list < 2; G_list++)
        for (int keep = 0; keep < 4; keep++) {
            static const int ks[] = { 0, 1, 2, 1000 };
            G_n = n; G_keep = ks[keep];
            fresh();
            on_stack(g_build); g_check("built", 0);
            on_stack(g_collect); g_check("after a collection", 0);
            on_stack(g_drop);
            on_stack(g_collect); if (!failed) g_check("after dropping", 1);
            on_stack(g_collect); if (!failed) g_check("after another collection", 1);
            if (!failed) finish();
            cases++;
            if (failed) printf("FAIL\tgrow(%ld,%d,%d)\t%s\n", n, G_list, (int) G_keep, fail_msg);
        }
    printf("DONE\t%ld\t%ld\n", cases, cases * 5);
}

// ---- automatic collection -------------------------------------------------------------
static size_t A_size; static long A_count; static size_t A_peak; static int A_paused, A_kept;
static void a_run(void) {
    if (A_paused) GC_pause();
    A_peak = 0;
    for (long i = 0; i < A_count; i++) {
        void **p = i % 2 ? GC_alloc_atomic(A_size) : GC_calloc(1, A_size);
        if (i < A_kept) rootp()[i] = p;
        p = NULL;
        size_t a = GC_get_allocated();
        if (a > A_peak) A_peak = a;
    }
    if (A_paused) GC_resume();
}
static void autos(void) {
    long cases = 0;
    size_t sizes[] = { 4096, 65536, 1 << 20, 3 << 20, 9 << 20, 20 << 20 };
    mode = 0;
    for (int s = 0; s < 6; s++)
        for (A_paused = 0; A_paused < 2; A_paused++)
            for (A_kept = 0; A_kept < 3; A_kept++) {
                A_size = sizes[s];
                A_count = (160 << 20) / A_size;
                fresh();
                on_stack(a_run);
                // at most one threshold of garbage, one block in hand and what is kept; paused: nothing is freed
                size_t limit = (8 << 20) + A_size * 3 + A_size * A_kept + 4096;
                if (!A_paused && A_peak > limit) fail("allocating %zu-byte garbage reaches %zu bytes", A_size, A_peak);
                if (A_paused && A_peak < A_size * A_count) fail("a collection while paused: only %zu bytes allocated", A_peak);
                for (int i = 0; i < A_kept && !failed; i++) {
                    char *p = rootp()[i];
                    long at = -1;
                    for (long k = 0; k < nblk; k++) if (blks[k].p <= p && p < blks[k].p + blks[k].cap) at = k;
                    if (at < 0 || !blks[at].live) fail("a kept block was freed by an automatic collection");
                }
                if (!failed) finish();
                cases++;
                if (failed) printf("FAIL\tauto(%zu,%d,%d)\t%s\n", A_size, A_paused, A_kept, fail_msg);
            }
    printf("DONE\t%ld\t%ld\n", cases, cases);
}

int main(int argc, char **argv) {
    arena = mmap(NULL, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S = mmap(NULL, S_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blks = __real_calloc(maxblk, sizeof *blks);
    // the scanned stack lies above the arena
    if (S < arena) { char *t = mmap(NULL, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena = t; }
    if ((char *) main > arena) { fprintf(stderr, "layout\n"); return 2; }
    make_ops();
    setvbuf(stdout, __real_malloc(1 << 16), _IOFBF, 1 << 16);
    int rc = 0;
    if (argc == 3 && !strcmp(argv[1], "grow")) grow(atol(argv[2]));
    else if (argc == 2 && !strcmp(argv[1], "auto")) autos();
    else if (argc > 3 && !strcmp(argv[1], "replay")) {
        mode = atoi(argv[2]);
        fresh();
        for (int i = 3; i < argc; i++)
            for (int k = 0; k < nops; k++) {
                char b[80];
                snprintf(b, sizeof b, "%s(%d,%d,%d)", names[ops[k].k], ops[k].a, ops[k].b, ops[k].c);
                if (!strcmp(b, argv[i])) { step(ops[k]); compare(); printf("%s: %s\n", b, failed ? fail_msg : "ok"); }
            }
        finish();
        printf("%s\n", failed ? fail_msg : "agrees");
        rc = failed;
    } else if (argc == 6) {
        mode = atoi(argv[1]);
        maxobj = atoi(argv[3]);
        rc = explore(atoi(argv[2]), atoi(argv[4]), atoi(argv[5]));
    } else return 2;
    fflush(stdout);
    return rc;
}
