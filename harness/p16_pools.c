/* Pools: what they hand out, take back, and hold. */
#include "vp.h"
#include "mcp_buffer_pool.h"
#include "mcp_memory_pool.h"
#include "mcp_object_pool.h"

#if defined(BUF)
#define POOL mcp_buffer_pool_t
#define SIZE 24
#define take(p) mcp_buffer_pool_acquire(p)
#define give(p, b) mcp_buffer_pool_release(p, b)
#define make(n, m) mcp_buffer_pool_create(SIZE, n)
#define done(p) mcp_buffer_pool_destroy(p)
#define MAX 0
#elif defined(MEM)
#define POOL mcp_memory_pool_t
#define SIZE 24
#define take(p) mcp_memory_pool_alloc(p)
#define give(p, b) mcp_memory_pool_free(p, b)
#define make(n, m) mcp_memory_pool_create(SIZE, n, m)
#define done(p) mcp_memory_pool_destroy(p)
#else
#define POOL mcp_object_pool_t
#define SIZE 64
#define take(p) mcp_object_pool_acquire(p)
#define give(p, b) mcp_object_pool_release(p, b)
#define make(n, m) mcp_object_pool_create(SIZE, n, m)
#define done(p) mcp_object_pool_destroy(p)
#endif
#ifndef MAX
#define MAX 0
#endif

#define HELD 5
static unsigned char *held[HELD];
static unsigned n_held;
static POOL *P;

static void fill(unsigned char *b, unsigned k)
{
    b[0] = (unsigned char)(0x40 + k);
    b[SIZE / 2] = (unsigned char)(0x50 + k);
    b[SIZE - 1] = (unsigned char)(0x60 + k);
}
static void intact(void)
{
    for (unsigned i = 0; i < HELD; i++)
        if (held[i]) VP_ASSERT(held[i][0] == 0x40 + i && held[i][SIZE / 2] == 0x50 + i && held[i][SIZE - 1] == 0x60 + i, "what is held is touched by nobody else");
}
static void counts(void)
{
    size_t total = 0, use = 0, free_n = 0;
#if defined(BUF)
    mcp_buffer_pool_get_stats(P, &total, &use, &free_n);
#elif defined(MEM)
    mcp_memory_pool_stats_t st;
    VP_ASSERT(mcp_memory_pool_get_stats(P, &st), "statistics are there");
    total = st.total_blocks; use = st.allocated_blocks; free_n = st.free_blocks;
#else
    size_t peak;
    VP_ASSERT(mcp_object_pool_get_stats(P, &total, &free_n, &use, &peak), "statistics are there");
    VP_ASSERT(peak >= use, "the peak is no less than the present use");
#endif
    VP_ASSERT(use == n_held, "the number in use is the number held");
    VP_ASSERT(total == use + free_n, "every block is held or free");
    if (MAX > 0) VP_ASSERT(total <= MAX, "a pool never grows beyond its maximum");
}
static void get(unsigned k)
{
    unsigned char *b = take(P);
    if (MAX > 0 && n_held >= MAX) {
        VP_ASSERT(b == NULL, "a full pool hands out nothing");
        return;
    }
    VP_ASSERT(b != NULL, "a pool with room hands out a block");
    if (!b) return;
    VP_ASSERT(((uintptr_t)b & 7) == 0, "blocks are aligned");
    for (unsigned i = 0; i < HELD; i++)
        VP_ASSERT(held[i] != b, "a block has one holder");
    held[k] = b;
    n_held++;
    fill(b, k);
}
static void put(unsigned k)
{
    unsigned char *b = held[k];
    if (!b) return;
    held[k] = NULL;
    n_held--;
    give(P, b);
}
static void finish(void)
{
    intact();
    counts();
    for (unsigned i = 0; i < HELD; i++) put(i);
    counts();
    done(P);
    VP_ASSERT(vp_live == 0, "a pool whose blocks are all back releases everything");
    VP_ASSERT_UNLOCKED();
}

#ifdef HIST
/* INIT blocks made in advance; take A of them, then one give and one take
 * chosen by the solver, then the rest */
void vp_harness(void)
{
    P = make(INIT, MAX);
    VP_NONNULL(P, "the pool is made");
    counts();
    for (unsigned i = 0; i < A; i++) get(i);
    intact();
    counts();
    unsigned g = vp_u8(), again = vp_u8();
    for (unsigned i = 0; i <= A; i++)
        for (unsigned j = 0; j <= A; j++)
            if (g == i && again == j) {
                if (i < A) put(i);
                if (j < A) put(j);
                intact();
                counts();
                if (i < A && !held[i]) get(i);
                get(A);
                VP_REACH(i < A && j < A && i != j && held[A] != NULL, "two given back, one taken twice");
                finish();
                return;
            }
}
#endif

#ifdef TWICE
/* giving back NULL, something twice, or to another pool */
void vp_harness(void)
{
    P = make(INIT, 0);
    POOL *other = make(1, 0);
    if (!P || !other) return;
    get(0); get(1);
    unsigned char *b = held[0];
    give(P, NULL);
    give(NULL, b);
    intact();
    counts();
#if defined(BUF) || defined(MEM)
    give(other, b);
    counts();
    intact();
#endif
    put(0);
#ifdef BUF
    give(P, b);
    counts();
#endif
    get(0); get(2); get(3);
    VP_ASSERT(take(NULL) == NULL, "no pool, no block");
    VP_REACH(n_held == 4, "four held");
    done(other);
    finish();
}
#endif

#ifdef FAULT
static void ended(void) { VP_REACH(true, "came to an end"); }
/* the allocations of mask FAULT fail while the pool is made and used */
void vp_harness(void)
{
    vp_oom_arm(FAULT);
    P = make(INIT, 0);
    if (!P) {
        VP_ASSERT(vp_live == 0, "a pool that is not made keeps nothing");
        ended();
        return;
    }
    vp_oom_off();
    counts();
    for (unsigned i = 0; i < 2; i++) get(i);
    vp_oom_arm(~0ull);
    unsigned before = n_held;
    unsigned char *b = take(P);
    vp_oom_off();
    if (b) {
        for (unsigned i = 0; i < HELD; i++) VP_ASSERT(held[i] != b, "a block has one holder");
        held[2] = b;
        n_held = before + 1;
        fill(b, 2);
    }
    counts();
    ended();
    finish();
}
#endif

#ifdef RACE
/* a second thread takes or gives back while the first is between two steps */
static bool racing, did;
static unsigned when, step;
static void *other_got;
static unsigned char *other_has;
void vp_yield(void)
{
    if (!racing || did) return;
    if (step++ != when) return;
    did = true;
    racing = false;
    if (RACE == 0) other_got = take(P);
    else { give(P, other_has); other_has = NULL; }
    racing = true;
}
static void go(void)
{
    racing = true;
    unsigned char *mine = NULL;
    if (MINE == 0) mine = take(P);
    else { give(P, held[0]); held[0] = NULL; n_held--; }
    racing = false;
    VP_ASSUME(did);
    if (mine) { VP_ASSERT(mine != other_got, "two threads never get the same block"); held[3] = mine; n_held++; fill(mine, 3); }
    if (other_got) { held[4] = other_got; n_held++; fill(other_got, 4); }
    if (RACE == 1) n_held--;
    VP_REACH(did, "interleaved");
    finish();
}
void vp_harness(void)
{
    P = make(INIT, MAX);
    if (!P) return;
    get(0);
    if (RACE == 1) { get(1); other_has = held[1]; held[1] = NULL; }
    unsigned w = vp_u8();
    for (unsigned i = 0; i < 8; i++)
        if (w == i) { when = i; go(); return; }
}
#endif
