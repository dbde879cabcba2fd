/* Stand-in for the thread's arena: every block is an object of its own that
 * ends with the reset, so that use after a reset is a memory error.  The real
 * arena is the subject of its own property. */
#include "vp.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#ifndef VP_ARENA_MAX
#define VP_ARENA_MAX 200
#endif
static mcp_arena_t vp_arena;
static void *vp_arena_block[VP_ARENA_MAX];
static unsigned vp_arena_n;
static bool vp_arena_off;
unsigned vp_arena_resets;
int mcp_arena_init_current_thread(size_t n) { (void)n; vp_arena_off = false; return 0; }
mcp_arena_t *mcp_arena_get_current(void) { return vp_arena_off ? NULL : &vp_arena; }
bool mcp_arena_exists_current_thread(void) { return !vp_arena_off; }
#ifdef VP_ARENA_NODE
#include "internal/json_internal.h"
#ifdef VP_CBMC
extern uint64_t vp_oom_mask;
#undef malloc
static void *vp_arena_node(void) {
    if (vp_oom_mask) { unsigned k = vp_alloc_no++; if (k < 64 && (vp_oom_mask >> k & 1)) return NULL; }
    vp_live++;
    return malloc(sizeof(VP_ARENA_NODE));
}
#define malloc vp_malloc
#else
static void *vp_arena_node(void) { return malloc(sizeof(VP_ARENA_NODE)); }
#endif
#endif
void *mcp_arena_alloc(mcp_arena_t *a, size_t n) {
    if (!a || n == 0) return NULL;
#ifdef VP_ARENA_NODE        /* blocks of this type's size are objects of that type */
    void *p = n == sizeof(VP_ARENA_NODE) ? vp_arena_node() : malloc(n);
#else
    void *p = malloc(n);
#endif
    if (!p) return NULL;
    VP_ASSUME(vp_arena_n < VP_ARENA_MAX);
    vp_arena_block[vp_arena_n++] = p;
    return p;
}
void *mcp_arena_alloc_if_exists(size_t n) { return mcp_arena_alloc(mcp_arena_get_current(), n); }
void mcp_arena_reset(mcp_arena_t *a) {
    (void)a;
    vp_arena_resets++;
    while (vp_arena_n > 0) free(vp_arena_block[--vp_arena_n]);
}
void mcp_arena_reset_current_thread(void) { mcp_arena_reset(&vp_arena); }
void mcp_arena_destroy(mcp_arena_t *a) { mcp_arena_reset(a); }
void mcp_arena_cleanup(mcp_arena_t *a) { mcp_arena_reset(a); }
void mcp_arena_destroy_current_thread(void) { mcp_arena_reset(&vp_arena); vp_arena_off = true; }
