/* Client pending-request table: every id is pending exactly from add to remove. */
#include "p22_client.h"
mcp_transport_protocol_t mcp_transport_get_protocol(mcp_transport_t *t) { (void)t; return MCP_TRANSPORT_PROTOCOL_TCP; }
int mcp_transport_websocket_client_is_connected(mcp_transport_t *t) { (void)t; return 1; }

#define NI 4
static uint64_t ids[NI];
static bool live[NI];
static char *slot[NI];
static size_t n;

static mcp_client_t *make(size_t cap) {
    mcp_client_t *c = calloc(1, sizeof *c);
    c->pending_requests_capacity = cap;
    c->pending_requests_table = malloc(cap * sizeof(pending_request_entry_t));
    for (size_t i = 0; i < cap; i++) {
        c->pending_requests_table[i].id = 0;
        c->pending_requests_table[i].request.status = PENDING_REQUEST_INVALID;
        c->pending_requests_table[i].request.cv = NULL;
    }
    return c;
}
static bool pending(mcp_client_t *c, uint64_t id, char **result) {
    pending_request_entry_t *e = mcp_client_find_pending_request_entry(c, id, false);
    if (!e || e->request.status == PENDING_REQUEST_INVALID) return false;
    VP_ASSERT(e->id == id && e->request.id == id, "a lookup never returns another request");
    VP_ASSERT(e->request.status == PENDING_REQUEST_WAITING, "a pending request keeps its state");
    VP_ASSERT(e->request.result_ptr == result, "a pending request keeps its result slot");
    return true;
}
static int add(mcp_client_t *c, uint64_t id, char **result) {
    pending_request_t r = { 0 };
    r.id = id; r.status = PENDING_REQUEST_WAITING; r.result_ptr = result;
    r.cv = mcp_cond_create();
    int rc = mcp_client_add_pending_request_entry(c, id, &r);
    if (rc != 0) mcp_cond_destroy(r.cv);
    return rc;
}
static void check(mcp_client_t *c) {
    for (int i = 0; i < NI; i++)
        VP_ASSERT(pending(c, ids[i], &slot[i]) == live[i], "a request is found exactly while it is pending");
    VP_ASSERT(c->pending_requests_count == n, "the count is the number of pending requests");
}
static void op(mcp_client_t *c, int code) {
    int i = code % 3;
    if (code < 3) {
        int r = add(c, ids[i], &slot[i]);
        VP_ASSERT((r == 0) == !live[i], "a request is accepted exactly if its id is not pending");
        if (!live[i]) { live[i] = true; n++; }
    } else {
        int r = mcp_client_remove_pending_request_entry(c, ids[i]);
        VP_ASSERT((r == 0) == live[i], "removal reports whether the request was pending");
        if (live[i]) { live[i] = false; n--; }
    }
}

#ifdef BUILD
/* a table left by a short history, then add, lookup and removal of a symbolic id */
static const uint64_t sets[][3] = { { 1, 9, 17 }, { 1, 2, 3 }, { 7, 0x123456789abcdefULL, 999 }, { 1000, 2, 0xffffffffffffffffULL } };
static const signed char build[][5] = {     /* 0..2 add, 3..5 remove */
    { 0, 1, -1, -1, -1 }, { 0, 1, 3, -1, -1 }, { 0, 1, 2, 4, -1 }, { 0, 3, 1, -1, -1 },
    { 0, 1, 2, -1, -1 }, { 0, 1, 3, 0, -1 }, { 0, 3, 0, 1, 3 }, { 0, 1, 2, 4, 3 }, { 2, 1, 5, 0, 4 }, { 0, 0, 3, 3, 1 } };
void vp_harness(void) {
    for (int i = 0; i < 3; i++) ids[i] = sets[SET][i];
    mcp_client_t *c = make(8);
    for (int s = 0; s < 5; s++) if (build[BUILD][s] >= 0) op(c, build[BUILD][s]);
    ids[3] = BITS == 64 ? vp_u64() : (uint64_t)vp_range(1, (1u << BITS) - 1);
    VP_ASSUME(ids[3] != 0 && ids[3] != ids[0] && ids[3] != ids[1] && ids[3] != ids[2]);
    check(c);
#if BITS == 64
    VP_REACH(ids[3] > 0xffffffff, "large id");
#else
    int r = add(c, ids[3], &slot[3]);
    VP_ASSERT(r == 0, "a new request is accepted");
    live[3] = true; n++;
    check(c);
    VP_REACH(n >= 2, "several pending");
    VP_ASSERT(mcp_client_remove_pending_request_entry(c, ids[3]) == 0, "removal reports whether the request was pending");
    live[3] = false; n--;
    check(c);
    VP_ASSERT(add(c, 0, &slot[3]) != 0 && mcp_client_find_pending_request_entry(c, 0, false) == NULL, "id 0 is never pending");
#endif
}
#endif

#ifdef GROW
/* growth: GROW pending ids in a client made by the real constructor */
void vp_harness(void) {
    static char *res[GROW + 1];
    mcp_client_config_t cfg = { 0 };
#ifdef CTOR
    mcp_client_t *c = mcp_client_create(&cfg, TRANSPORT);
    VP_NONNULL(c, "a client is created");
    VP_ASSERT(started == 1, "creating a client starts its transport");
#else
    mcp_client_t *c = make(8);
#endif
    uint64_t base = BASE;
    size_t cnt = 0;
    for (int i = 1; i <= GROW; i++) {
        VP_ASSERT(add(c, base + i, &res[i]) == 0, "a new request is accepted");
        cnt++;
        if (i % 5 == 0) { VP_ASSERT(mcp_client_remove_pending_request_entry(c, base + i - 2) == 0, "removal reports whether the request was pending"); cnt--; }
    }
    VP_ASSERT(c->pending_requests_count == cnt, "the count is the number of pending requests");
    for (int i = 1; i <= GROW; i++)
        VP_ASSERT(pending(c, base + i, &res[i]) == !(i % 5 == 3 && i + 2 <= GROW), "a request is found exactly while it is pending");
    uint64_t other = base + 1000;
#ifndef CTOR
    other = vp_u64();
#endif
    VP_ASSUME(other < base + 1 || other > base + GROW);
    VP_ASSERT(!pending(c, other, NULL), "an id that was never added is not pending");
#ifndef CTOR
    VP_REACH(c->pending_requests_capacity > 8, "the table has grown");
#else
    VP_REACH(true, "added");
#endif
    mcp_client_destroy(c);
#ifdef CTOR
    VP_ASSERT(stopped == 1 && destroyed == 1, "destroying the client stops and destroys its transport once");
#endif
    VP_ASSERT(vp_live == 0, "destroying the client releases everything");
}
#endif

#ifdef FAULT
/* growth fails for lack of memory: the add is refused, the rest is untouched */
void vp_harness(void) {
    mcp_client_t *c = make(8);
    for (int i = 0; i < NI; i++) ids[i] = 1 + 8 * (uint64_t)i;
    for (int i = 0; i < NI; i++) { VP_ASSERT(add(c, ids[i], &slot[i]) == 0, "a new request is accepted"); live[i] = true; n++; }
    static char *more[8];
    uint64_t used[4];
    for (int i = 0; i < 2; i++) {
        vp_oom_arm(~(uint64_t)1);            /* the condition variable is created, the table does not grow */
        uint64_t id = vp_range(100, 999);
        for (int j = 0; j < i; j++) VP_ASSUME(id != used[j]);
        used[i] = id;
        size_t before = c->pending_requests_count;
        int r = add(c, id, &more[i]);
        vp_oom_off();
        VP_ASSERT(c->pending_requests_count == before + (r == 0), "the count is the number of pending requests");
        VP_ASSERT(pending(c, id, &more[i]) == (r == 0), "a refused request is not pending");
        for (int j = 0; j < NI; j++) VP_ASSERT(pending(c, ids[j], &slot[j]), "a refused request does not disturb others");
        if (i < 1) VP_ASSERT(r == 0, "a request is accepted while there is room");
        VP_REACH(r != 0, "growth refused");
        if (r != 0) return;
    }
}
#endif
