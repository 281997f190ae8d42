// LD_PRELOAD: counts the blocks handed out by the allocator and not yet given back.
#include <stddef.h>
#include <errno.h>
#include <stdatomic.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static atomic_long live, total;
long vp_live_blocks(void) { return atomic_load(&live); }
long vp_total_blocks(void) { return atomic_load(&total); }
static void *got(void *p) {
    if (p) { atomic_fetch_add_explicit(&live, 1, memory_order_relaxed); atomic_fetch_add_explicit(&total, 1, memory_order_relaxed); }
    return p;
}
void *malloc(size_t n) { return got(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return got(__libc_calloc(n, m)); }
void *realloc(void *p, size_t n) {
    void *q = __libc_realloc(p, n);
    if (!p) return got(q);
    if (!n && !q) atomic_fetch_sub_explicit(&live, 1, memory_order_relaxed);
    return q;
}
void free(void *p) {
    if (p) atomic_fetch_sub_explicit(&live, 1, memory_order_relaxed);
    __libc_free(p);
}
void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **out, size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *out = got(p);
    return 0;
}
