/* The global memory-pool system is not initialised: components fall back to
 * the heap (the pools are the subject of their own property). */
#include "vp.h"
#include "mcp_memory_pool.h"
bool mcp_memory_pool_system_is_initialized(void) { return false; }
void *mcp_pool_alloc(size_t n) { return malloc(n); }
void mcp_pool_free(void *p) { free(p); }
size_t mcp_pool_get_block_size(void *p) { (void)p; return 0; }
mcp_memory_pool_t *mcp_memory_pool_create(size_t b, size_t i, size_t m) { (void)b; (void)i; (void)m; return NULL; }
void *mcp_memory_pool_alloc(mcp_memory_pool_t *p) { (void)p; return NULL; }
bool mcp_memory_pool_free(mcp_memory_pool_t *p, void *b) { (void)p; (void)b; return false; }
void mcp_memory_pool_destroy(mcp_memory_pool_t *p) { (void)p; }
