/* Arenas: sequences of allocations of arbitrary sizes, resets, exhaustion.
 * The thread cache underneath is a stand-in that checks how it is used. */
#include "vp.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_thread_cache.h"

/* --- thread cache: every block its own object; freed with its own size --- */
#ifndef NB
#define NB 44
#endif
static void *tc_p[NB];
static size_t tc_n[NB];
static int tc_used;
void *mcp_thread_cache_alloc(size_t n)
{
    void *p = malloc(n);
    if (!p) return NULL;
    VP_ASSUME(tc_used < NB);
    tc_p[tc_used] = p;
    tc_n[tc_used++] = n;
    return p;
}
void mcp_thread_cache_free(void *p, size_t n)
{
    for (int i = 0; i < tc_used; i++)
        if (tc_p[i] == p) VP_ASSERT(tc_n[i] == n, "a block goes back to the cache with the size it came with");
    free(p);
}
/* the current thread's arena */
static mcp_arena_t *cur;
mcp_arena_t *mcp_arena_get_current(void) { return cur; }
static mcp_arena_t made;
int mcp_arena_init_current_thread(size_t n) { mcp_arena_init(&made, n); cur = &made; return 0; }

static mcp_arena_t A;
static unsigned char *got[16];
static size_t got_n[16];
static int n_got;

/* the block just returned for size n */
static void hold(void *p, size_t n)
{
    if (!p) return;
    unsigned char *b = p;
    if (n == 0) n = 1;
    VP_ASSERT(((uintptr_t)b & 7) == 0, "blocks are aligned");
    b[0] = (unsigned char)(0x10 + n_got);
    b[n - 1] = (unsigned char)(0x10 + n_got);      /* all of it is there */
    for (int i = 0; i < n_got; i++)
        VP_ASSERT((uintptr_t)b + n <= (uintptr_t)got[i] || (uintptr_t)got[i] + got_n[i] <= (uintptr_t)b, "live blocks are disjoint");
    got[n_got] = b;
    got_n[n_got++] = n;
}
static void intact(void)
{
    for (int i = 0; i < n_got; i++)
        VP_ASSERT(got[i][0] == 0x10 + i && got[i][got_n[i] - 1] == 0x10 + i, "earlier blocks keep their content");
}

#ifdef SEQ
/* SEQ allocations from an arena of block size INIT, one of them (BIG) of any
 * size at all, the others up to MAXSZ */
void vp_harness(void)
{
    mcp_arena_init(&A, INIT);
    for (int i = 0; i < SEQ; i++) {
        size_t n = i == BIG ? vp_u64() : vp_range(0, MAXSZ);
        void *p = mcp_arena_alloc(&A, n);
        if (i != BIG) VP_ASSERT(p != NULL, "a request that fits in memory is met");
        if (n > VP_MALLOC_LIMIT) VP_ASSERT(p == NULL, "a request beyond the memory there is fails");
        hold(p, n);
    }
    intact();
#if BIG >= 0
    VP_REACH(n_got < SEQ, "refused");
#endif
    VP_REACH(n_got == SEQ, "all met");
    mcp_arena_destroy(&A);
    VP_ASSERT(vp_live == 0, "destroying an arena releases everything");
    void *p = mcp_arena_alloc(&A, 8);
    VP_ASSERT(p != NULL, "a destroyed arena can be used again");
    hold(p, 8);
    mcp_arena_cleanup(&A);
    VP_ASSERT(vp_live == 0, "and destroyed again");
}
#endif

#ifdef SIZES
/* any block size and any size, one allocation after a small one */
void vp_harness(void)
{
    size_t bs = vp_u64(), n = vp_u64();
    mcp_arena_init(&A, bs);
    void *p = mcp_arena_alloc(&A, n);
    if (n > VP_MALLOC_LIMIT) VP_ASSERT(p == NULL, "a request beyond the memory there is fails");
    hold(p, n);
    if (bs <= VP_MALLOC_LIMIT && n <= VP_MALLOC_LIMIT / 2 && bs > 0 && bs <= 64) VP_ASSERT(p != NULL, "a request that fits in memory is met");
    VP_REACH(p != NULL, "met");
    VP_REACH(p == NULL, "refused");
    mcp_arena_destroy(&A);
    VP_ASSERT(vp_live == 0, "destroying an arena releases everything");
}
#endif

#ifdef RESET
static void after(size_t a, size_t b);
/* RESET blocks in the arena, reset, then two more allocations; AGAIN rounds */
void vp_harness(void)
{
    mcp_arena_init(&A, INIT);
    size_t total, blocks, bytes;
    for (int r = 0; r < AGAIN; r++) {
        n_got = 0;
        for (int i = 0; i < RESET; i++) {
            void *p = mcp_arena_alloc(&A, INIT);
            VP_NONNULL(p, "a request that fits in memory is met");
            hold(p, INIT);
        }
        intact();
        mcp_arena_reset(&A);
        mcp_arena_get_stats(&A, &total, &bytes, &blocks);
        VP_ASSERT(total == 0, "nothing is in use after a reset");
        VP_ASSERT(vp_live == 2 * (long)blocks, "the block count is the number of blocks held");
        VP_ASSERT(bytes == blocks * BLK, "the byte count is the size of the blocks held");
    }
    size_t a = vp_range(0, INIT), b = vp_range(0, INIT);
    static const unsigned char pair[4][2] = { { 0, 1 }, { 8, 9 }, { 7, 16 }, { 15, 0 } };
    for (int i = 0; i < 4; i++)
        if (a == pair[i][0] && b == pair[i][1]) {
            after(pair[i][0], pair[i][1]);
            return;
        }
}
static void after(size_t a, size_t b)
{
    long held = vp_live;
    size_t total;
    n_got = 0;
    void *p = mcp_arena_alloc(&A, a);
    VP_NONNULL(p, "a request that fits in memory is met");
    hold(p, a);
    p = mcp_arena_alloc(&A, b);
    VP_NONNULL(p, "a request that fits in memory is met");
    hold(p, b);
    intact();
    VP_ASSERT(vp_live == held, "space freed by a reset is used again");
    mcp_arena_get_stats(&A, &total, NULL, NULL);
    VP_ASSERT(total >= a + b, "the statistics count what was handed out");
    VP_REACH(a == 0 || b == 0, "an empty request");
    mcp_arena_destroy(&A);
    VP_ASSERT(vp_live == 0, "destroying an arena releases everything");
    mcp_arena_reset(&A);
    mcp_arena_destroy(&A);
}
#endif

#ifdef FAULT
/* allocation number FAULT fails */
void vp_harness(void)
{
    mcp_arena_init(&A, 24);
    void *p = mcp_arena_alloc(&A, 16);
    VP_NONNULL(p, "met");
    hold(p, 16);
    vp_oom_arm(FAULT);
    size_t n = SZ;
    p = mcp_arena_alloc(&A, n);
    long live = vp_live;
    vp_oom_off();
    hold(p, n);
    intact();
    if (!p) VP_ASSERT(live == 2, "a failed request keeps no memory");
#if FAULT != 1
    VP_REACH(p == NULL, "failed");
#endif
    p = mcp_arena_alloc(&A, 16);
    VP_NONNULL(p, "an arena works again once there is memory");
    hold(p, 16);
    intact();
    mcp_arena_destroy(&A);
    VP_ASSERT(vp_live == 0, "destroying an arena releases everything");
}
#endif

#ifdef CURRENT
/* the current thread's arena, made on demand or not */
void vp_harness(void)
{
    VP_ASSERT(!mcp_arena_exists_current_thread(), "no arena before it is made");
    VP_ASSERT(mcp_arena_alloc_if_exists(8) == NULL, "none is made when only an existing one is wanted");
    VP_ASSERT(!mcp_arena_exists_current_thread(), "still none");
    size_t n = vp_range(0, 64);
    void *p = mcp_arena_alloc(NULL, n);
    VP_NONNULL(p, "one is made on demand");
    hold(p, n);
    VP_ASSERT(mcp_arena_exists_current_thread(), "now there is one");
    p = mcp_arena_alloc_if_exists(n);
    VP_NONNULL(p, "it is used");
    hold(p, n);
    intact();
    VP_REACH(n == 0, "an empty request");
    mcp_arena_destroy(cur);
    VP_ASSERT(vp_live == 0, "destroying an arena releases everything");
}
#endif
