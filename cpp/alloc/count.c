/* preloaded by the Python part of C28: counts the blocks that are alive */
#include <stddef.h>
#include <errno.h>
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static long live;
#define ADD(n) __atomic_fetch_add(&live, n, __ATOMIC_RELAXED)
long hv_live_blocks(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
void *malloc(size_t n)
{
    void *p = __libc_malloc(n);
    if (p)
        ADD(1);
    return p;
}
void free(void *p)
{
    if (p)
        ADD(-1);
    __libc_free(p);
}
void *calloc(size_t a, size_t b)
{
    void *p = __libc_calloc(a, b);
    if (p)
        ADD(1);
    return p;
}
void *realloc(void *q, size_t n)
{
    void *p = __libc_realloc(q, n);
    if (!q && p)
        ADD(1);
    else if (q && !p && n == 0)
        ADD(-1);
    return p;
}
void *memalign(size_t a, size_t n)
{
    void *p = __libc_memalign(a, n);
    if (p)
        ADD(1);
    return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n)
{
    void *p = memalign(a, n);
    if (!p)
        return ENOMEM;
    *r = p;
    return 0;
}
