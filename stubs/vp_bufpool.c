/* Stand-in for the buffer pool (decided under its own property): blocks with
 * a header, so that a pool buffer is not the start of an allocation. */
#include "vp.h"
#include "mcp_buffer_pool.h"
#ifndef VP_BUF
#define VP_BUF 16
#endif
struct block { unsigned magic; bool held; char data[VP_BUF]; };
struct mcp_buffer_pool { size_t n, held; struct block *b[4]; };
mcp_buffer_pool_t *mcp_buffer_pool_create(size_t size, size_t n) {
    VP_ASSERT(size == VP_BUF, "MODEL: the pool's buffer size");
    mcp_buffer_pool_t *p = malloc(sizeof *p);
    p->n = 0; p->held = 0;
    (void)n;
    return p;
}
void *mcp_buffer_pool_acquire(mcp_buffer_pool_t *p) {
    for (size_t i = 0; i < p->n; i++) if (!p->b[i]->held) { p->b[i]->held = true; p->held++; return p->b[i]->data; }
    VP_ASSUME(p->n < 4);
    struct block *b = malloc(sizeof *b);
    b->held = true; b->magic = 1;
    p->b[p->n++] = b; p->held++;
    return b->data;
}
void mcp_buffer_pool_release(mcp_buffer_pool_t *p, void *d) {
    for (size_t i = 0; i < p->n; i++) if (d == p->b[i]->data) {
        VP_ASSERT(p->b[i]->held, "a pool buffer is given back once");
        p->b[i]->held = false; p->held--;
        return;
    }
    VP_ASSERT(false, "only pool buffers are given back to the pool");
}
void mcp_buffer_pool_get_stats(const mcp_buffer_pool_t *p, size_t *t, size_t *a, size_t *f) { *t = p->n; *a = p->held; *f = p->n - p->held; }
void mcp_buffer_pool_destroy(mcp_buffer_pool_t *p) { for (size_t i = 0; i < p->n; i++) free(p->b[i]); free(p); }
