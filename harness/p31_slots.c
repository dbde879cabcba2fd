/* WebSocket server: client slots and message reassembly. */
#include "vp.h"
#include "internal/websocket_server_internal.h"
#include "mcp_buffer_pool.h"
#ifndef MAX
#define MAX 2
#endif
#define WORDS ((MAX + 31) / 32)

/* libwebsockets: connections are numbered objects with a user pointer */
#ifndef CONNS
#define CONNS 4
#endif
static char conn[CONNS];
static void *opaque[CONNS];
static ws_server_data_t srv;
static struct lws *wsi_of(int i) { return (struct lws *)&conn[i]; }
static int of_wsi(const struct lws *w) { for (int i = 0; i < CONNS; i++) if ((const char *)w == &conn[i]) return i; VP_ASSERT(false, "a known connection"); return 0; }
struct lws_context *lws_get_context(const struct lws *w) { (void)w; return (struct lws_context *)&srv; }
void *lws_context_user(struct lws_context *c) { (void)c; return &srv; }
void *lws_get_opaque_user_data(const struct lws *w) { return opaque[of_wsi(w)]; }
void lws_set_opaque_user_data(struct lws *w, void *d) { opaque[of_wsi(w)] = d; }
int lws_callback_on_writable(struct lws *w) { (void)w; return 0; }
static bool final_;
int lws_is_final_fragment(struct lws *w) { (void)w; return final_; }
int lws_add_http_common_headers(struct lws *w, unsigned int c, const char *t, lws_filepos_t l, unsigned char **p, unsigned char *e) { (void)w; (void)c; (void)t; (void)l; (void)p; (void)e; return 0; }
int lws_finalize_write_http_header(struct lws *w, unsigned char *s, unsigned char **p, unsigned char *e) { (void)w; (void)s; (void)p; (void)e; return 0; }
const char *websocket_get_callback_reason_string(enum lws_callback_reasons r) { (void)r; return ""; }
static unsigned writes, wrote;
static unsigned char first_out;
int lws_write(struct lws *w, unsigned char *b, size_t n, enum lws_write_protocol p) { (void)w; (void)p; writes++; wrote = (unsigned)n; first_out = n ? b[0] : 0; return (int)n; }

static ws_client_t slots[MAX];
static uint32_t bits[WORDS];
static uint32_t pop(uint32_t w) { uint32_t n = 0; for (int i = 0; i < 32; i++) n += (w >> i) & 1; return n; }
static void start(void) {
    srv.clients = slots;
    srv.client_bitmap = bits;
    srv.max_clients = MAX;
    srv.bitmap_size = WORDS;
    srv.global_mutex = mcp_mutex_create();
}
static bool bit(int i) { return (bits[i / 32] >> (i % 32)) & 1; }

#ifdef ONE
/* one connection comes or goes at any occupancy */
void vp_harness(void) {
    start();
    uint32_t old[WORDS], n = 0;
    for (int i = 0; i < WORDS; i++) {
        bits[i] = vp_u32();
        if (i == WORDS - 1 && MAX % 32) VP_ASSUME(bits[i] < (1u << (MAX % 32)));
        old[i] = bits[i];
        n += pop(bits[i]);
    }
    srv.active_clients = n;
    srv.peak_clients = vp_range(0, MAX);
    VP_ASSUME(srv.peak_clients >= n);
    uint32_t rej = srv.rejected_connections = vp_range(0, 9), tot = srv.total_connections = vp_range(0, 1000);
    uint32_t peak = srv.peak_clients;
    int r = ws_server_callback(wsi_of(0), LWS_CALLBACK_ESTABLISHED, NULL, NULL, 0);
    VP_ASSERT_UNLOCKED();
    if (n >= MAX) {
        VP_ASSERT(r != 0 && opaque[0] == NULL, "a connection beyond the maximum is refused");
        VP_ASSERT(srv.active_clients == n && srv.rejected_connections == rej + 1, "a refusal is counted and changes nothing else");
        for (int i = 0; i < WORDS; i++) VP_ASSERT(bits[i] == old[i], "a refusal takes no slot");
        VP_REACH(true, "refused");
        return;
    }
    VP_ASSERT(r == 0 && opaque[0] != NULL, "a connection is accepted while a slot is free");
    int k = -1;
    for (int i = 0; i < MAX; i++) if (opaque[0] == (void *)&slots[i]) k = i;
    VP_ASSERT(k >= 0, "the client's slot is in the table");
    VP_ASSERT(!((old[k / 32] >> (k % 32)) & 1), "the slot given was free");
    for (int i = 0; i < WORDS; i++) VP_ASSERT(bits[i] == (old[i] | (k / 32 == i ? 1u << (k % 32) : 0)), "exactly that slot is taken");
    VP_ASSERT(slots[k].client_id == k && slots[k].wsi == wsi_of(0) && slots[k].state == WS_CLIENT_STATE_ACTIVE, "the slot belongs to the client");
    VP_ASSERT(srv.active_clients == n + 1 && srv.total_connections == tot + 1 && srv.rejected_connections == rej, "counted once");
    VP_ASSERT(srv.peak_clients == (n + 1 > peak ? n + 1 : peak), "the peak is the largest count seen");
    VP_REACH(n == MAX - 1, "the last slot");
    r = ws_server_callback(wsi_of(0), LWS_CALLBACK_CLOSED, NULL, NULL, 0);
    VP_ASSERT_UNLOCKED();
    for (int i = 0; i < WORDS; i++) VP_ASSERT(bits[i] == old[i], "a closed connection gives its slot back and no other");
    VP_ASSERT(srv.active_clients == n, "a closed connection is no longer counted");
    VP_ASSERT(slots[k].state == WS_CLIENT_STATE_INACTIVE && slots[k].wsi == NULL, "its slot is inactive");
}
#endif

#ifdef HIST
void vp_harness(void) {
    start();
    bool on[CONNS] = { 0 };
    uint32_t n = 0;
    for (int s = 0; s < HIST; s++) {
        unsigned c = s == 0 ? 0 : vp_range(0, CONNS - 1);
        for (unsigned i = 0; i < CONNS; i++) if (c == i) {
            if (!on[i]) {
                opaque[i] = NULL;
                int r = ws_server_callback(wsi_of((int)i), LWS_CALLBACK_ESTABLISHED, NULL, NULL, 0);
                VP_ASSERT((r == 0) == (n < MAX), "accepted exactly while a slot is free");
                if (r == 0) { on[i] = true; n++; }
            } else {
                ws_server_callback(wsi_of((int)i), LWS_CALLBACK_CLOSED, NULL, NULL, 0);
                on[i] = false; n--;
            }
        }
        VP_ASSERT(srv.active_clients == n, "the count of active clients is right");
        uint32_t p = 0;
        for (int i = 0; i < MAX; i++) p += bit(i);
        VP_ASSERT(p == n, "as many slots are taken as clients are connected");
        for (int i = 0; i < CONNS; i++) for (int j = 0; j < i; j++) if (on[i] && on[j]) VP_ASSERT(opaque[i] != opaque[j], "no slot is shared");
        for (int i = 0; i < CONNS; i++) if (on[i]) {
            ws_client_t *c2 = ws_server_find_client_by_wsi(&srv, wsi_of(i));
            VP_ASSERT(c2 != NULL && c2->wsi == wsi_of(i), "a connected client is found");
        }
    }
    VP_REACH(n == 0, "all gone");
    VP_ASSERT_UNLOCKED();
}
#endif

#ifdef BITS
void vp_harness(void) {
    uint32_t *m = malloc(2 * sizeof *m);
    for (int op = 0; op < 3; op++) {
        m[0] = vp_u32(); m[1] = vp_u32();
        uint32_t o0 = m[0], o1 = m[1];
        int k = (int)vp_u32(), size = (int)vp_range(0, 2);
        bool in = k >= 0 && k / 32 < size;
        uint32_t w = in ? (k / 32 ? o1 : o0) : 0, b = in ? 1u << (k % 32) : 0;
        uint32_t want = w;
        if (op == 0) { ws_server_set_client_bit(m, k, size); want = w | b; }
        if (op == 1) { ws_server_clear_client_bit(m, k, size); want = w & ~b; }
        if (op == 2) VP_ASSERT(ws_server_test_client_bit(m, k, size) == ((w & b) != 0), "testing reads the slot's own bit");
        VP_ASSERT(m[0] == (in && k / 32 == 0 ? want : o0) && m[1] == (in && k / 32 == 1 ? want : o1), "no other slot is touched, for any index");
        VP_REACH(in && k > 31, "second word");
    }
    free(m);
    start();
    mcp_mutex_t *seg[3];
    for (int i = 0; i < 3; i++) seg[i] = mcp_mutex_create();
    srv.segment_mutexes = seg;
    srv.num_segments = 3;
    int k = (int)vp_u32();
    mcp_mutex_t *x = ws_server_get_client_mutex(&srv, k), *y = ws_server_get_client_mutex(&srv, k);
    VP_ASSERT(x == y && x != NULL, "a client is always guarded by the same lock");
    ws_server_lock_client(&srv, k);
    ws_server_unlock_client(&srv, k);
    VP_ASSERT_UNLOCKED();
}
#endif

#ifdef RECV
/* RECV fragments of the lengths LENS, the last one final; then another message */
static const unsigned lens[] = { LENS };
static char *frag[RECV];
static unsigned msgs, got;
static char all[128];
static char *cb(void *u, const void *d, size_t n, int *e) {
    (void)u;
    msgs++; got = (unsigned)n; *e = 0;
    const char *s = d;
    VP_ASSERT(s[n] == 0, "the message is terminated");
    unsigned want = 0;
    for (int i = 0; i < RECV; i++) want += lens[i];
    VP_ASSERT(n == want, "the message is as long as its fragments");
    for (unsigned i = 0; i < want; i++) VP_ASSERT(s[i] == all[i], "the message is its fragments in order");
    char *r = malloc(3);
    if (r) { r[0] = 'r'; r[1] = 's'; r[2] = 0; }
    return r;
}
void vp_harness(void) {
    start();
    mcp_transport_t tr = { 0 };
    tr.message_callback = cb;
    srv.transport = &tr;
    srv.config.buffer_size = BSIZE;
#if POOL > 0
    srv.buffer_pool = mcp_buffer_pool_create(VP_BUF, POOL);
    VP_NONNULL(srv.buffer_pool, "a pool");
#endif
    long base = vp_live;
    VP_ASSERT(ws_server_callback(wsi_of(0), LWS_CALLBACK_ESTABLISHED, NULL, NULL, 0) == 0, "connected");
    /* state established above, pinned so that it stays concrete */
    VP_ASSERT(opaque[0] == &slots[0] && !slots[0].receive_buffer && slots[0].receive_buffer_len == 0 && slots[0].receive_buffer_used == 0 && slots[0].state == WS_CLIENT_STATE_ACTIVE && slots[0].wsi == wsi_of(0) && slots[0].client_id == 0, "the first client gets the first place, with nothing received");
    opaque[0] = &slots[0];
    ws_client_t fresh = { .wsi = wsi_of(0), .state = WS_CLIENT_STATE_ACTIVE, .last_activity = slots[0].last_activity };
    slots[0] = fresh;
#if defined(POOL) && POOL > 0
    void *other = mcp_buffer_pool_acquire(srv.buffer_pool);     /* someone else's */
#endif
    for (int m = 0; m < 2; m++) {
        unsigned at = 0;
        for (int i = 0; i < RECV; i++) {
            char *f = malloc(lens[i]);
            /* arbitrary bytes after a start that does not look length-prefixed */
            for (unsigned j = 0; j < lens[i]; j++) f[j] = j < 4 && lens[i] > 3 ? "{\"me"[j] : (char)vp_u8();
            for (unsigned j = 0; j < lens[i]; j++) all[at++] = f[j];
            frag[i] = f;
        }
        for (int i = 0; i < RECV; i++) {
            final_ = i == RECV - 1;
            int r = ws_server_callback(wsi_of(0), LWS_CALLBACK_RECEIVE, NULL, frag[i], lens[i]);
            VP_ASSERT(r == 0, "fragments are taken");
            free(frag[i]);
        }
        VP_ASSERT(msgs == (unsigned)m + 1, "a message is handed over once, when it is complete");
        VP_ASSERT(writes == (unsigned)m + 1 && wrote == 2 && first_out == 'r', "the answer is sent");
    }
    ws_server_callback(wsi_of(0), LWS_CALLBACK_CLOSED, NULL, NULL, 0);
#if POOL > 0
    size_t tot, use, fr;
    mcp_buffer_pool_get_stats(srv.buffer_pool, &tot, &use, &fr);
    VP_ASSERT(use == 1, "a closed connection holds no pool buffer");
    mcp_buffer_pool_release(srv.buffer_pool, other);
    mcp_buffer_pool_destroy(srv.buffer_pool);
    VP_ASSERT(vp_live <= base, "no buffer is leaked");
#else
    VP_ASSERT(vp_live == base, "no buffer is leaked");
#endif
    VP_REACH(msgs == 2, "two messages");
}
#endif
