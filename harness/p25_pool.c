/* The gateway's pools of backend clients: the real pool manager.  Transports,
 * clients, their health checks, the clock and waiting are stand-ins. */
#include "vp.h"
#include "mcp_gateway_pool.h"
#include "mcp_tcp_client_transport.h"
#ifndef MAX
#define MAX 2                       /* scaled from 5 */
#endif
#define CLIENTS 10
enum { NONE, POOLED, LENT, RETURNING, GONE };
static struct { char c; } client[CLIENTS];
static int state[CLIENTS], backend[CLIENTS], made, alive[2], making, transports, want_backend, port_of[2] = { 1, 2 };
int vp25_signals;
#define signals vp25_signals
static int waits;
static uint64_t fail_at = ~0ULL; static uint64_t creations;
static bool healthy = true, waiter, bad_address;
static int nested;
static void point(void);
static mcp_client_t *handle(int i) { return (mcp_client_t *)&client[i]; }
static int index_of(const void *p) { for (int i = 0; i < CLIENTS; i++) if (p == (const void *)&client[i]) return i; return -1; }
static int count(int b, int s) { int n = 0; for (int i = 0; i < made; i++) if (backend[i] == b && state[i] == s) n++; return n; }
long long mcp_get_time_ms(void) { return vp_now * 1000; }
mcp_transport_t *mcp_transport_tcp_client_create(const char *host, uint16_t port) {
    VP_ASSERT(!bad_address, "an address without host or port makes no connection");
    VP_ASSERT(vp_eq(host, "h") && (port == 1 || port == 2), "the connection goes to the backend's address");
    making++;
    point();
    making--;
    if (creations++ == fail_at) return NULL;
    transports++;
    want_backend = port - 1;
    return (mcp_transport_t *)&transports;
}
mcp_client_t *mcp_client_create(const mcp_client_config_t *c, mcp_transport_t *t) {
    (void)c;
    VP_ASSERT(t != NULL, "a client needs a transport");
    transports--;
    if (creations++ == fail_at) return NULL;
    int b = want_backend;
    VP_ASSERT(made < CLIENTS, "no endless creation");
    if (made >= CLIENTS) return NULL;
    VP_ASSERT(alive[b] < MAX, "a pool never has more connections than its maximum");
    alive[b]++;
    state[made] = POOLED; backend[made] = b;
    return handle(made++);
}
void mcp_client_destroy(mcp_client_t *c) {
    int i = index_of(c);
    VP_ASSERT(i >= 0 && i < made, "only clients are destroyed");
    if (i < 0) return;
    VP_ASSERT(state[i] == POOLED || state[i] == RETURNING, "a connection is destroyed once and never while somebody holds it");
    state[i] = GONE;
    alive[backend[i]]--;
    point();
}
int mcp_client_send_raw_request(mcp_client_t *c, const char *m, const char *p, uint64_t id, char **r, mcp_error_code_t *e, char **msg) {
    (void)m; (void)p; (void)id;
    int i = index_of(c);
    VP_ASSERT(i >= 0 && state[i] == RETURNING, "health is checked on the connection being returned");
    *r = NULL; *msg = NULL; *e = healthy ? MCP_ERROR_NONE : MCP_ERROR_INTERNAL_ERROR;
    point();
    return healthy ? 0 : -1;
}
static mcp_backend_info_t B[2] = { { .name = "a", .address = "h:1" }, { .name = "b", .address = "tcp://h:2" } };
static gateway_pool_manager_t *m;
static int get(int b, bool may_fail) {
    uint64_t before = creations;
    void *p = gateway_pool_get_connection(m, &B[b]);
    bool failed = fail_at >= before && fail_at < creations;
    if (!p) { VP_ASSERT(failed || may_fail, "a connection is handed out unless it cannot be made"); return -1; }
    int i = index_of(p);
    VP_ASSERT(i >= 0 && i < made, "what is handed out is a connection");
    if (i < 0) return -1;
    VP_ASSERT(state[i] == POOLED, "a connection handed out is neither destroyed nor held by anyone else");
    VP_ASSERT(backend[i] == b, "it belongs to the backend asked for");
    state[i] = LENT;
    return i;
}
static void release(int i) {
    int b = backend[i], s = signals;
    state[i] = RETURNING;
    gateway_pool_release_connection(m, &B[b], handle(i));
    if (state[i] == RETURNING) state[i] = POOLED;
    VP_ASSERT(!waiter || signals > s, "whoever waits is woken when a connection or a place becomes free");
}
static int first_lent(int b) { for (int i = 0; i < made; i++) if (state[i] == LENT && backend[i] == b) return i; return -1; }
/* somebody waits: nothing is free; then a holder gives a connection back */
int vp_wait(mcp_cond_t *c, bool timed, uint32_t ms) {
    (void)c; (void)timed; (void)ms;
    waits++;
    int b = 0;
    VP_ASSERT(count(b, LENT) + count(b, RETURNING) + making == MAX && count(b, POOLED) == 0, "nobody waits while a connection or a place is free");
    int i = first_lent(b);
    if (i < 0 || waits > 3) return -1;
    bool w = waiter;
    waiter = true;
    nested++;
    release(i);
    nested--;
    waiter = w;
    return 0;
}
static int point_no, point_at = -1, point_op;
static void point(void) {
    if (nested || vp_locks_held || point_at < 0) return;
    if (point_no++ != point_at) return;
    nested++;
    if (point_op == 0) { if (alive[0] + making < MAX || count(0, POOLED)) get(0, true); }
    else if (point_op == 1) { int i = first_lent(0); if (i >= 0) release(i); }
    else if (alive[0] < MAX && count(0, POOLED) == 0) waiter = true; /* a third thread finds the last place taken and waits */
    nested--;
}
static void step(uint32_t op) {
    int s = signals;
    if (op == 0) {
        int i = get(0, false);
        if (waiter && i < 0) VP_ASSERT(signals > s, "whoever waits for a place is woken when it stays unused");
    } else if (op == 1) { int i = first_lent(0); if (i >= 0) release(i); }
    else if (op == 2) vp_now += 61;
    else if (op == 3) { if (alive[1] < MAX || count(1, POOLED)) get(1, false); }
    else { healthy = false; int i = first_lent(0); if (i >= 0) release(i); healthy = true; }
    VP_ASSERT_UNLOCKED();
}
static void finish(long live0) {
    point_at = -1; waiter = false; fail_at = ~0ULL;
    /* the whole maximum can still be taken */
    for (int k = 0; k < MAX && count(0, LENT) < MAX; k++) VP_ASSERT(get(0, false) >= 0, "no place is lost");
    VP_ASSERT(waits <= 3, "bounded");
    for (int i = 0; i < made; i++) if (state[i] == LENT) release(i);
    VP_ASSERT_UNLOCKED();
    gateway_pool_manager_destroy(m);
    VP_ASSERT(alive[0] == 0 && alive[1] == 0 && transports == 0, "every connection is destroyed in the end");
    VP_ASSERT(vp_live == live0, "nothing is lost");
}
#if defined(HISTORY)
static void run(uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t f) {
    long live0 = vp_live;
    fail_at = f == 0 ? ~0ULL : f + 1;
    m = gateway_pool_manager_create();
    VP_NONNULL(m, "manager");
    step(0); step(a); step(b); step(c); step(d);
    if (made > 2) VP_REACH(true, "three connections");
#if FAILS == 0
    if (waits) VP_REACH(true, "waited");
#endif
    finish(live0);
}
void vp_harness(void) {
    vp_now = 1000;
    uint32_t b = vp_range(0, 4), c = vp_range(0, 4);
    for (uint32_t i = 0; i < 5; i++) if (b == i) for (uint32_t j = 0; j < 5; j++) if (c == j) { run(HISTORY, i, j, 0, FAILS); return; }
}
#elif defined(RACE)
static void run(uint32_t before, uint32_t op, uint32_t at, uint32_t other, uint32_t f) {
    long live0 = vp_live;
    m = gateway_pool_manager_create();
    VP_NONNULL(m, "manager");
    step(0);
    /* what there is: 1: one held; 2: two held; 3: one idle; 4: one stale; 5: one idle, one held; 6: one stale, one held; 7: two of the pool's connections stale */
    if (before == 2 || before >= 5) step(0);
    if (before >= 3) step(1);
    if (before == 7) step(1);
    if (before == 4 || before == 6 || before == 7) vp_now += 61;
    point_op = other; point_no = 0; point_at = at;
    if (f) fail_at = creations + f - 1;
    step(op);
    if (point_no > point_at) VP_REACH(true, "the other thread ran");
    finish(live0);
}
void vp_harness(void) {
    vp_now = 1000;
    uint32_t b = vp_range(1, 7), at = vp_range(0, 2);
    for (uint32_t i = 1; i < 8; i++) if (b == i) for (uint32_t k = 0; k < 3; k++) if (at == k) { run(i, RACE, k, OTHER, FAILS); return; }
}
#elif defined(FAULT)
void vp_harness(void) {
    vp_now = 1000;
    uint32_t n = vp_range(0, 13), a = vp_range(0, 4);
    for (uint32_t i = 0; i < 14; i++) if (n == i) for (uint32_t j = 0; j < 5; j++) if (a == j) {
        long live0 = vp_live;
        vp_oom_arm(1ULL << i);
        m = gateway_pool_manager_create();
        if (!m) { VP_REACH(true, "no manager"); VP_ASSERT(vp_live == live0, "nothing is lost"); return; }
        get(0, true);
        VP_ASSERT_UNLOCKED();
        int k = first_lent(0);
        if (k >= 0) release(k);
        VP_ASSERT_UNLOCKED();
        if (j == 0) get(0, true); else if (j == 1) get(1, true);
        VP_ASSERT_UNLOCKED();
        if (vp_alloc_no > 10) VP_REACH(true, "eleven allocations");
        vp_oom_off();
        finish(live0);
        return;
    }
}
#elif defined(ADDRESS)
void vp_harness(void) {
    static char *const good[] = { "h:1", "tcp://h:2" }, *const bad[] = { "h", ":1", "h:", "h:0", "tcp://", "tcp://:2", "", "h:x" };
    vp_now = 1000;
    uint32_t n = vp_range(0, 9);
    for (uint32_t i = 0; i < 10; i++) if (n == i) {
        long live0 = vp_live;
        m = gateway_pool_manager_create();
        VP_NONNULL(m, "manager");
        if (i < 2) { B[i].address = good[i]; VP_ASSERT(get((int)i, false) >= 0, "a good address is connected to"); release(0); }
        else { B[0].address = bad[i - 2]; bad_address = true; VP_ASSERT(get(0, true) < 0, "a bad address is not"); }
        VP_ASSERT_UNLOCKED();
        gateway_pool_manager_destroy(m);
        VP_ASSERT(vp_live == live0 && transports == 0 && alive[0] == 0 && alive[1] == 0, "nothing is lost");
        if (i < 2) VP_REACH(true, "good"); else VP_REACH(true, "bad");
        return;
    }
}
#endif
