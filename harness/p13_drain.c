/* In-flight messages and graceful shutdown: the real transport callback and the
 * real server stop.  The message handler, the limiters, the transport, the
 * worker pool, the clock and the wait are stand-ins. */
#include "vp.h"
#include "internal/server_internal.h"
#include "mcp_sys_utils.h"
char *transport_message_callback(void *, const void *, size_t, int *);
static mcp_server_t srv;
static long long clock_ms = 1000000;
static bool began, returned, drained, gave_up;
static int handled, in_handler;
static const unsigned char *sent; static size_t sent_n;
static bool limit_ok = true;
static char *reply;
static int mutex_dummy;
static void (*in_handle)(void);
static int stops, points, stop_at = -1;
static bool nested;
static void do_stop(void);
void vpx_point(void) {
    if (nested || stop_at < 0) return;
    if (points++ == stop_at) do_stop();
}
long long mcp_get_time_ms(void) { return clock_ms; }
const char *mcp_transport_get_client_ip(mcp_transport_t *t) { (void)t; vpx_point(); return NULL; }
bool mcp_rate_limiter_check(mcp_rate_limiter_t *l, const char *ip) { (void)l; VP_ASSERT(ip != NULL, "the limiter is given a client"); vpx_point(); return limit_ok; }
bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t *l, const char *ip, const char *a, const char *b, const char *c) { (void)l; (void)a; (void)b; (void)c; VP_ASSERT(ip != NULL, "the limiter is given a client"); vpx_point(); return limit_ok; }
char *handle_message(mcp_server_t *s, const void *data, size_t size, int *error_code) {
    VP_ASSERT(s == &srv, "for this server");
    VP_ASSERT(!drained, "no message starts after a shutdown that drained");
    VP_ASSERT(s->active_requests > 0, "a message being processed is counted");
    const unsigned char *d = data;
    for (size_t i = 0; i < sent_n; i++) VP_ASSERT(d[i] == sent[i], "the handler gets the message");
    VP_ASSERT(size == sent_n, "with its size");
    if (sent[sent_n - 1]) VP_ASSERT(d[sent_n] == 0, "terminated");
    handled++;
    in_handler++;
    vpx_point();
    if (in_handle) in_handle();
    in_handler--;
    *error_code = 0;
    return reply;
}
int mcp_transport_stop(mcp_transport_t *t) { (void)t; return 0; }
int mcp_thread_pool_destroy(mcp_thread_pool_t *p) { (void)p; return 0; }
int vp_wait_result, waits;
static long long t0;
#if defined(DRAIN)
static void set_stopping(void) { srv.shutting_down = true; srv.running = false; }
/* a message counted in before the shutdown began runs to its end */
static void finish_one(void) {
    unsigned char m[2] = { 'x', 0 };
    int ec = 0, before = srv.active_requests;
    sent = m; sent_n = 2;
    bool a = srv.shutting_down, b = srv.running;
    srv.active_requests--;
    srv.shutting_down = false;
    in_handle = set_stopping;
    nested = true;
    int s0 = *(int *)srv.shutdown_cond + ((int *)srv.shutdown_cond)[1];
    transport_message_callback(&srv, m, 2, &ec);
    int s1 = *(int *)srv.shutdown_cond + ((int *)srv.shutdown_cond)[1];
    nested = false;
    in_handle = NULL;
    srv.shutting_down = a; srv.running = b;
    VP_ASSERT(srv.active_requests == before - 1, "a finished message is counted out");
    if (before == 1) VP_ASSERT(s1 > s0, "the last message wakes the shutdown");
}
int vp_wait(mcp_cond_t *c, bool timed, uint32_t ms) {
    VP_ASSERT(c == srv.shutdown_cond, "the shutdown waits for messages");
    VP_ASSUME(waits < 4);
    waits++;
    VP_REACH(true, "the shutdown waits");
    uint32_t what = vp_range(0, 2);
    if (what == 2) {
        if (!timed) { VP_ASSERT(timed, "the wait is limited"); return 0; }
        clock_ms += ms;
        return -2;
    }
    uint32_t d = vp_range(0, 3);
    if (timed) VP_ASSUME(d < ms);
    clock_ms += d;
    if (what == 1 && srv.active_requests > 0) finish_one();
    return 0;
}
#else
int vp_wait(mcp_cond_t *c, bool timed, uint32_t ms) {
    (void)c; (void)timed;
    /* the message this shutdown interrupted cannot go on */
    VP_ASSERT(timed, "the wait is limited");
    clock_ms += ms;
    waits++;
    return -2;
}
#endif
static void do_stop(void) {
    nested = true;
    began = true;
    t0 = clock_ms;
    int r = mcp_server_stop(&srv);
    VP_ASSERT(r == 0, "stopping succeeds");
    VP_ASSERT(srv.shutting_down, "and has begun");
    returned = true;
    gave_up = clock_ms - t0 >= srv.config.graceful_shutdown_timeout_ms;
    drained = !gave_up;
    if (drained) VP_ASSERT(in_handler == 0 && srv.active_requests == 0, "a shutdown that does not time out leaves no message in flight");
    nested = false;
}
static void init(void) {
    srv.running = true;
    srv.shutdown_mutex = mcp_mutex_create();
    srv.shutdown_cond = mcp_cond_create();
    srv.config.enable_graceful_shutdown = true;
    srv.config.graceful_shutdown_timeout_ms = 5;
    srv.transport = (mcp_transport_t *)&mutex_dummy;
}
#if defined(ACCOUNT)
void vp_harness(void) {
    init();
    unsigned char m[4];
    uint32_t n = vp_range(1, 3);
    vp_bytes(m, 3);
    sent = m; sent_n = n;
    srv.config.max_message_size = vp_range(0, 3);
    srv.config.rate_limit_window_seconds = vp_range(0, 1);
    srv.config.rate_limit_max_requests = vp_range(0, 1);
    srv.config.use_advanced_rate_limiter = vp_bool();
    srv.rate_limiter = vp_bool() ? (mcp_rate_limiter_t *)&mutex_dummy : NULL;
    srv.advanced_rate_limiter = vp_bool() ? (mcp_advanced_rate_limiter_t *)&mutex_dummy : NULL;
    limit_ok = vp_bool();
    bool stopping = vp_bool();
    srv.shutting_down = stopping; srv.running = !stopping;
    int others = (int)vp_range(0, 2);
    srv.active_requests = others;
    static char r;
    reply = vp_bool() ? &r : NULL;
    bool nomem = vp_bool();
    if (nomem) vp_oom_arm(1);
    int ec = 77;
    char *got = transport_message_callback(&srv, m, n, &ec);
    vp_oom_off();
    VP_ASSERT(srv.active_requests == others, "the count of messages in flight is as before");
    size_t max = srv.config.max_message_size;
    bool limiter = srv.config.rate_limit_window_seconds && srv.config.rate_limit_max_requests && ((srv.config.use_advanced_rate_limiter && srv.advanced_rate_limiter) || srv.rate_limiter);
    bool refused = stopping || (limiter && !limit_ok) || (max && n > max) || nomem;
    VP_ASSERT((handled == 1) == !refused, "exactly the messages that are not refused are handled");
    if (refused) VP_ASSERT(!got && ec != 0 && ec != 77, "a refusal is reported");
    else VP_ASSERT(got == reply && ec == 0, "the handler's answer is returned");
    if (stopping) VP_ASSERT(ec == MCP_ERROR_SERVER_SHUTTING_DOWN, "the server is stopping");
    VP_ASSERT_UNLOCKED();
    VP_REACH(stopping, "stopping"); VP_REACH(!refused, "handled"); VP_REACH(!stopping && max && n > max, "too large"); VP_REACH(!stopping && limiter && !limit_ok, "limited");
}
#elif defined(RACE)
/* a shutdown at any point of a message */
void vp_harness(void) {
    init();
    unsigned char m[2] = { 'x', 'y' };
    sent = m; sent_n = 2;
    int k = (int)vp_range(0, 12);
    srv.config.max_message_size = RACE == 1 ? 1 : 0;
    if (RACE == 2) { srv.config.rate_limit_window_seconds = srv.config.rate_limit_max_requests = 1; srv.rate_limiter = (mcp_rate_limiter_t *)&mutex_dummy; limit_ok = vp_bool(); }
    for (int i = 0; i <= 12; i++) if (k == i) stop_at = i;
    int ec = 0;
    transport_message_callback(&srv, m, 2, &ec);
    stop_at = -1;
    VP_ASSERT(srv.active_requests == 0, "the message is counted out");
    VP_REACH(returned && waits == 0, "a shutdown before or after the message");
    VP_REACH(returned && waits > 0, "a shutdown during the message");
    VP_ASSERT_UNLOCKED();
    int h = handled;
    if (returned) {
        transport_message_callback(&srv, m, 2, &ec);
        VP_ASSERT(handled == h && ec == MCP_ERROR_SERVER_SHUTTING_DOWN, "a message that comes after the shutdown is refused");
        VP_ASSERT(srv.active_requests == 0, "and counted out");
    }
}
#else
/* messages in flight when the shutdown begins, finishing while it waits or not */
void vp_harness(void) {
    init();
    int n = (int)vp_range(0, 2);
    for (int i = 0; i < 3; i++) if (n == i) srv.active_requests = i;
    srv.config.enable_graceful_shutdown = true;
    do_stop();
    VP_ASSERT(clock_ms - t0 <= 5, "the shutdown does not wait longer than it may");
    VP_ASSERT_UNLOCKED();
    VP_REACH(drained && n == 2, "two messages drained"); VP_REACH(gave_up, "a time-out");
    VP_REACH(!waits, "nothing in flight");
}
#endif
