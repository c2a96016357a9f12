/* Force-included when pingos is built with AddressSanitizer: small pool allocations made by pingos
 * code become separate malloc blocks (registered as "large" blocks of the pool, so they live exactly
 * as long as the pool), which makes an overrun of one pool allocation visible. */
#ifndef PV_ASAN_POOL_H
#define PV_ASAN_POOL_H
#ifndef __cplusplus
#include <ngx_config.h>
#include <ngx_core.h>

static inline void *pv_pool_alloc(ngx_pool_t *pool, size_t size, int zero)
{
    ngx_pool_large_t *l;
    void *p;

    if (size == 0 || size > pool->max) {
        return zero ? (ngx_pcalloc)(pool, size) : (ngx_palloc)(pool, size);
    }
    l = (ngx_palloc)(pool, sizeof(ngx_pool_large_t));
    if (l == NULL) {
        return NULL;
    }
    p = zero ? calloc(1, size) : malloc(size);
    if (p == NULL) {
        return NULL;
    }
    l->alloc = p;
    l->next = pool->large;
    pool->large = l;
    return p;
}

#define ngx_palloc(pool, size)  pv_pool_alloc(pool, size, 0)
#define ngx_pnalloc(pool, size) pv_pool_alloc(pool, size, 0)
#define ngx_pcalloc(pool, size) pv_pool_alloc(pool, size, 1)
#endif
#endif
