/* Client with a stand-in transport; memory caches fall back to the heap. */
#include "vp.h"
#include "internal/client_internal.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"

bool mcp_memory_pool_system_init(size_t a, size_t b, size_t c) { (void)a; (void)b; (void)c; return true; }
void mcp_memory_pool_system_cleanup(void) {}
bool mcp_thread_cache_init_with_config(const mcp_thread_cache_config_t *c) { (void)c; return true; }
void mcp_thread_cache_cleanup(void) {}
void *mcp_thread_cache_alloc(size_t n) { return malloc(n); }
void mcp_thread_cache_free(void *p, size_t n) { (void)n; free(p); }
int mcp_arena_init_current_thread(size_t n) { (void)n; return 0; }
void mcp_arena_destroy_current_thread(void) {}

static int transport_obj;
#define TRANSPORT ((mcp_transport_t *)&transport_obj)
static int started, stopped, destroyed;
static mcp_transport_message_callback_t on_message;
static mcp_transport_error_callback_t on_error;
static void *on_data;
int mcp_transport_start(mcp_transport_t *t, mcp_transport_message_callback_t m, void *u, mcp_transport_error_callback_t e) {
    (void)t; started++; on_message = m; on_error = e; on_data = u; return 0;
}
int mcp_transport_stop(mcp_transport_t *t) { (void)t; stopped++; return 0; }
void mcp_transport_destroy(mcp_transport_t *t) { (void)t; destroyed++; }
