/* The resource cache against a record of what was stored: the real cache, hash
 * table and list; the pool of content items is a stand-in that counts. */
#include "vp.h"
#include <limits.h>
#include "mcp_cache.h"
#include "mcp_types.h"
#include "mcp_object_pool.h"
#include "mcp_buffer_pool.h"
#include "mcp_list.h"
struct mcp_buffer_pool { size_t held; };
mcp_buffer_pool_t *mcp_buffer_pool_create(size_t size, size_t k) { (void)k; (void)size; mcp_buffer_pool_t *p = malloc(sizeof *p); if (p) p->held = 0; return p; }
void *mcp_buffer_pool_acquire(mcp_buffer_pool_t *p) { (void)p; return malloc(sizeof(mcp_list_node_t)); }
void mcp_buffer_pool_release(mcp_buffer_pool_t *p, void *d) { (void)p; free(d); }
void mcp_buffer_pool_destroy(mcp_buffer_pool_t *p) { free(p); }
struct mcp_object_pool_s { long out; };
static struct mcp_object_pool_s pool_obj;
#define P (&pool_obj)
void *mcp_object_pool_acquire(mcp_object_pool_t *p) { mcp_content_item_t *i = malloc(sizeof *i); if (i) p->out++; return i; }
bool mcp_object_pool_release(mcp_object_pool_t *p, void *o) { p->out--; free(o); return true; }

#define NU 3

static const char *uri(int u) { return u == 0 ? "a" : u == 1 ? "ab" : "b"; }
static mcp_resource_cache_t *c;
#ifndef CAP
#define CAP 2
#endif
#ifndef DEFTTL
#define DEFTTL 5
#endif
static bool has[NU]; static uint8_t val[NU]; static int items[NU]; static int64_t until[NU]; static int stamp[NU], tick;
/* content: n items; the first has two bytes, the second none and no type */
static mcp_content_item_t it[2]; static mcp_content_item_t *its[2]; static uint8_t data[2];
static void fill(uint8_t v) {
    data[0] = v; data[1] = (uint8_t)~v;
    it[0].type = MCP_CONTENT_TYPE_TEXT; it[0].mime_type = (char *)"t"; it[0].data = data; it[0].data_size = 2;
    it[1].type = MCP_CONTENT_TYPE_JSON; it[1].mime_type = NULL; it[1].data = NULL; it[1].data_size = 0;
    its[0] = &it[0]; its[1] = &it[1];
}
static bool alive(int u) { return has[u] && (until[u] == 0 || vp_now < until[u]); }
static void m_put(int u, uint8_t v, int n, int ttl) {
    if (!has[u]) {
        int held = 0, old = -1;
        for (int i = 0; i < NU; i++) if (has[i]) { held++; if (old < 0 || stamp[i] < stamp[old]) old = i; }
        if (held >= CAP) has[old] = false;
    }
    int64_t e = ttl == 0 ? DEFTTL : ttl;
    has[u] = true; val[u] = v; items[u] = n; until[u] = e <= 0 ? 0 : vp_now + e; stamp[u] = tick++;
}
static int put(int u, uint8_t v, int n, int ttl) {
    fill(v);
    int r = mcp_cache_put(c, uri(u), P, its, (size_t)n, ttl);
    data[0] = data[1] = 0;          /* the cache has its own copy */
    return r;
}
static bool right(mcp_content_item_t **k, size_t n, uint8_t v, int want) {
    if (n != (size_t)want || !k) return false;
    const uint8_t *d = k[0]->data;
    if (k[0]->type != MCP_CONTENT_TYPE_TEXT || !k[0]->mime_type || !vp_eq(k[0]->mime_type, "t") || k[0]->data_size != 2 || !d) return false;
    bool same = d[0] == v && d[1] == (uint8_t)~v;
    if (want == 2 && (k[1]->type != MCP_CONTENT_TYPE_JSON || k[1]->data_size != 0)) return false;
    return same;
}
static void drop(mcp_content_item_t **k, size_t n) {
    for (size_t i = 0; i < n; i++) { if (k[i]->data_size) ((uint8_t *)k[i]->data)[0] ^= 255; mcp_content_item_release_pooled(P, k[i]); }
    free(k);
}
static void get(int u) {
    mcp_content_item_t **k = (mcp_content_item_t **)&k; size_t n = 7;
    int r = mcp_cache_get(c, uri(u), P, &k, &n);
    if (alive(u)) {
        VP_ASSERT(r == 0, "content that was stored and has not expired is found");
        if (r != 0) return;
        VP_ASSERT(right(k, n, val[u], items[u]), "it is the content stored last");
        stamp[u] = tick++;
        drop(k, n);
    } else {
        VP_ASSERT(r != 0, "nothing is found that expired, was dropped or never stored");
        has[u] = false;
    }
    VP_ASSERT_UNLOCKED();
}
static long live0;
static void make(void) {
    live0 = vp_live;
    vp_now = 1000;
    c = mcp_cache_create(CAP, DEFTTL);
}
static void finish(void) {
    mcp_cache_destroy(c);
    VP_ASSERT(pool_obj.out == 0, "every item is returned to the pool");
    VP_ASSERT(vp_live == live0, "no memory is lost");
    VP_ASSERT_UNLOCKED();
}
#define NOP 16
/* operation k; the stored byte is v */
static void op(int k, uint8_t v) {
    static const int ttls[] = { 0, 2, -1 };
    if (k < 9) { int r = put(k / 3, v, 1 + k % 2, ttls[k % 3]); VP_ASSERT(r == 0, "content can be stored"); m_put(k / 3, v, 1 + k % 2, ttls[k % 3]); return; }
    switch (k) {
    case 9: case 10: case 11: get(k - 9); return;
    case 12: case 13: {
        int u = k - 12, r = mcp_cache_invalidate(c, uri(u));
        VP_ASSERT((r == 0) == has[u], "exactly what is held can be invalidated");
        has[u] = false;
        return;
    }
    case 14: {
        size_t n = 0;
        for (int i = 0; i < NU; i++) if (has[i] && !alive(i)) { has[i] = false; n++; }
        VP_ASSERT(mcp_cache_prune_expired(c) == n, "pruning removes exactly the expired entries");
        return;
    }
    default: vp_now += 2; return;
    }
}
#if defined(HIST)
/* a put, the operations of the query, then any two operations, then every lookup */
static void run(int a, int b) {
    static const int first[] = { HIST };
    uint8_t v = vp_u8(), w = vp_u8();
    make();
    for (unsigned i = 0; i < sizeof first / sizeof *first; i++) op(first[i], (uint8_t)(10 + i));
    op(a, v);
    op(b, w);
    for (int u = 0; u < NU; u++) get(u);
    finish();
}
void vp_harness(void) {
    int a = (int)vp_range(FROM, FROM + 3), b = (int)vp_range(0, NOP - 1);
    for (int i = FROM; i < FROM + 4; i++) if (a == i) for (int k = 0; k < NOP; k++) if (b == k) {
#ifndef FULL
        if (k < 9 ? k % 4 : k == 13) return;
#endif
        run(i, k);
        VP_REACH(true, "a history");
        return;
    }
}
#elif defined(TIME)
/* lifetimes of every kind, looked at just before, at and after their end */
static void run(int ttl, int64_t later) {
    make();
    int r = put(0, 1, 1, ttl);
    VP_ASSERT(r == 0, "stored");
    m_put(0, 1, 1, ttl);
    vp_now += later;
#if TIME == 1
    size_t n = mcp_cache_prune_expired(c);
    VP_ASSERT((n == 1) == !alive(0) && n <= 1, "pruning removes exactly the expired entries");
    if (!alive(0)) has[0] = false;
    VP_REACH(n == 1, "expired"); VP_REACH(n == 0, "not expired");
#else
    VP_REACH(alive(0), "found"); VP_REACH(!alive(0), "expired");
#endif
    get(0);
    finish();
}
void vp_harness(void) {
    static const int ttls[] = { INT_MIN, -1, 0, 1, 2, 60, INT_MAX };
    int t = (int)vp_range(0, 6), l = (int)vp_range(0, 4);
    for (int i = 0; i < 7; i++) if (t == i) for (int k = 0; k < 5; k++) if (l == k) {
        int64_t life = ttls[i] == 0 ? DEFTTL : ttls[i] < 0 ? 1 : ttls[i];
        run(ttls[i], k == 0 ? 0 : k == 1 ? life - 1 : k == 2 ? life : k == 3 ? life + 1 : 5000000000);
        return;
    }
}
#elif defined(RACE)
/* another thread at any point where a lookup or a put takes or gives up a lock */
static int at = -1, seen; static bool inside; static uint8_t neu = 77;
static void other(void) {
    switch (RACE) {
    case 0: mcp_cache_invalidate(c, uri(0)); break;
    case 1: put(0, neu, 2, -1); break;
    case 2: put(2, neu, 1, -1); break;          /* evicts */
    case 3: vp_now += 2; mcp_cache_prune_expired(c); break;
    default: { mcp_content_item_t **k = NULL; size_t n = 0; if (mcp_cache_get(c, uri(0), P, &k, &n) == 0) drop(k, n); }
    }
}
void vp_yield(void) {
    if (inside || at < 0) return;
    if (seen++ == at) { inside = true; other(); inside = false; }
}
static void run(int k) {
    make();
    put(0, 5, 1, RACE == 3 ? 1 : -1);
#if RACE == 2
    put(1, 6, 1, -1); 
#endif
    at = k; seen = 0;
    mcp_content_item_t **g = NULL; size_t n = 0;
#ifdef VIA_PUT
    int r = put(0, 9, 2, -1);
    at = -1;
    VP_ASSERT(r == 0, "stored");
    r = mcp_cache_get(c, uri(0), P, &g, &n);
    if (r == 0) VP_ASSERT(right(g, n, 9, 2) || (RACE == 1 && right(g, n, neu, 2)), "a lookup finds what was stored last");
#if RACE >= 3
    VP_ASSERT(r == 0, "content that was stored is found");
#endif
#else
    int r = mcp_cache_get(c, uri(0), P, &g, &n);
    at = -1;
    if (r == 0) VP_ASSERT(right(g, n, 5, 1) || (RACE == 1 && right(g, n, neu, 2)), "a lookup finds content that was stored whole");
#if RACE == 1 || RACE == 4
    VP_ASSERT(r == 0, "content that is held throughout is found");
#endif
#endif
    if (r == 0) drop(g, n);
    else VP_ASSERT(g == NULL && n == 0, "nothing is handed out on failure");
    VP_REACH(seen > k, "the other thread ran");
    finish();
}
void vp_harness(void) {
    int k = (int)vp_range(0, 9);
    for (int i = 0; i < 10; i++) if (k == i) { run(i); return; }
}
#elif defined(FAULT)
/* any one allocation of an operation fails */
void vp_harness(void) {
    uint32_t f = vp_range(0, 23);
    for (uint32_t i = 0; i < 24; i++) if (f == i) {
        make();
#if FAULT != 0
        put(0, 1, 2, 2); m_put(0, 1, 2, 2);
        put(1, 2, 1, -1); m_put(1, 2, 1, -1);
#endif
#if FAULT == 4 || FAULT == 5
        put(2, 3, 1, 2); m_put(2, 3, 1, 2);
        vp_now += 2;
#endif
        vp_oom_arm(1ull << i);
        int r = 0;
#if FAULT == 0
        mcp_resource_cache_t *d = mcp_cache_create(2, 5);
#elif FAULT == 1
        r = put(0, 3, 2, -1);
#elif FAULT == 2
        r = put(2, 3, 2, -1);
#elif FAULT == 3
        mcp_content_item_t **g = NULL; size_t n = 0;
        r = mcp_cache_get(c, uri(0), P, &g, &n);
#else
        size_t gone = mcp_cache_prune_expired(c);
#endif
        bool hit = vp_alloc_no > i;
        vp_oom_off();
        VP_ASSERT_UNLOCKED();
        VP_REACH(hit, "a failing allocation");
#if FAULT == 0
        if (d) { c = d; put(0, 9, 1, 0); m_put(0, 9, 1, 0); get(0); mcp_cache_destroy(d); }
        VP_ASSERT(pool_obj.out == 0, "every item is returned to the pool");
        return;
#elif FAULT == 1
        if (r == 0) m_put(0, 3, 2, -1);
        mcp_content_item_t **g = NULL; size_t n = 0;
        int q = mcp_cache_get(c, uri(0), P, &g, &n);
        if (q == 0) { VP_ASSERT(right(g, n, r == 0 ? 3 : 1, 2), "the old content or the new"); drop(g, n); }
        VP_ASSERT(r != 0 || q == 0, "what was stored is found");
        get(1);
#elif FAULT == 2
        if (r == 0) { m_put(2, 3, 2, -1); get(2); }
        get(1);
        r = put(2, 4, 1, -1);
        VP_ASSERT(r == 0, "the cache goes on");
        r = put(0, 4, 1, -1);
        VP_ASSERT(r == 0, "the cache goes on");
#elif FAULT == 3
        VP_ASSERT(hit || r == 0, "found");
        if (r == 0) { VP_ASSERT(right(g, n, 1, 2), "the content stored last"); drop(g, n); }
        get(0); get(1);
#else
        VP_ASSERT(hit ? gone == 0 || gone == 2 : gone == 2, "pruning reports what it removed");
        get(0); get(1); get(2);
#endif
        finish();
        return;
    }
}
#elif defined(ARGS)
void vp_harness(void) {
    make();
    mcp_content_item_t **g; size_t n;
    fill(1);
    VP_ASSERT(mcp_cache_put(c, "a", P, its, 0, 0) != 0, "empty content is refused");
    it[0].data = NULL;
    VP_ASSERT(mcp_cache_put(c, "a", P, its, 1, 0) != 0, "content without its data is refused");
    its[1] = NULL; it[0].data = data;
    VP_ASSERT(mcp_cache_put(c, "a", P, its, 2, 0) != 0, "missing items are refused");
    VP_ASSERT(mcp_cache_get(c, "a", P, &g, &n) != 0, "and not stored");
    VP_REACH(true, "refused");
    finish();
}
#endif
