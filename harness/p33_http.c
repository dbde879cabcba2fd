/* Streamable HTTP server: origin check and request bodies, driven through the
 * libwebsockets callback. */
#include "vp.h"
#include "internal/sthttp_transport_internal.h"
#include "mcp_http_session_manager.h"
extern struct lws_protocols sthttp_protocols[];
#define OMAX 40

static sthttp_transport_data_t data;
static sthttp_session_data_t sess;
static char wsi_;
#define W ((struct lws *)&wsi_)
static char origin[OMAX + 1];
static int origin_len = -1;      /* -1: no Origin header */
static int method;               /* 0 GET, 1 POST, 2 DELETE */
static const char *sid;
static int status, streams;
static unsigned bodies;

static int copy(char *d, int n, const char *s, int l) {
    if (l >= n) return -1;
    for (int i = 0; i < l; i++) d[i] = s[i];
    d[l] = 0;
    return l;
}
struct lws_context *lws_get_context(const struct lws *w) { (void)w; return (struct lws_context *)&data; }
void *lws_context_user(struct lws_context *c) { (void)c; return &data; }
int lws_hdr_total_length(struct lws *w, enum lws_token_indexes h) {
    (void)w;
    if (h == WSI_TOKEN_ORIGIN) return origin_len > 0 ? origin_len : 0;
    if (h == WSI_TOKEN_POST_URI) return method == 1 ? 4 : 0;
    if (h == WSI_TOKEN_GET_URI) return method == 0 ? 4 : 0;
    return 0;
}
int lws_hdr_copy(struct lws *w, char *d, int n, enum lws_token_indexes h) {
    (void)w;
    if (h == WSI_TOKEN_ORIGIN) return origin_len >= 0 ? copy(d, n, origin, origin_len) : 0;
    if (h == WSI_TOKEN_HTTP_ACCEPT) return copy(d, n, "text/event-stream", 17);
    return 0;
}
int lws_http_get_uri_and_method(struct lws *w, char **u, int *l) { (void)w; (void)u; (void)l; return method == 0 ? LWSHUMETH_GET : method == 1 ? LWSHUMETH_POST : LWSHUMETH_DELETE; }
int lws_hdr_custom_length(struct lws *w, const char *n, int l) { (void)w; (void)l; return n[0] == 'm' && sid ? (int)vp_len(sid) : -1; }
int lws_hdr_custom_copy(struct lws *w, char *d, int len, const char *n, int l) { (void)w; (void)l; return n[0] == 'm' && sid ? copy(d, len, sid, (int)vp_len(sid)) : -1; }
int lws_add_http_header_status(struct lws *w, unsigned int c, unsigned char **p, unsigned char *e) { (void)w; (void)p; (void)e; status = (int)c; return 0; }
int lws_add_http_header_by_token(struct lws *w, enum lws_token_indexes t, const unsigned char *v, int l, unsigned char **p, unsigned char *e) { (void)w; (void)t; (void)v; (void)l; (void)p; (void)e; return 0; }
int lws_add_http_header_by_name(struct lws *w, const unsigned char *t, const unsigned char *v, int l, unsigned char **p, unsigned char *e) { (void)w; (void)t; (void)v; (void)l; (void)p; (void)e; return 0; }
int lws_finalize_http_header(struct lws *w, unsigned char **p, unsigned char *e) { (void)w; (void)p; (void)e; return 0; }
int lws_write(struct lws *w, unsigned char *b, size_t n, enum lws_write_protocol p) { (void)w; (void)b; if (p == LWS_WRITE_HTTP) bodies++; return (int)n; }
int lws_http_transaction_completed(struct lws *w) { (void)w; return 0; }
int lws_callback_http_dummy(struct lws *w, enum lws_callback_reasons r, void *u, void *in, size_t l) { (void)w; (void)r; (void)u; (void)in; (void)l; return 0; }
int lws_get_socket_fd(struct lws *w) { (void)w; return 3; }
/* the event store and the list of streams are decided under their own property */
#ifdef GATE
int send_sse_event(struct lws *w, const char *i, const char *t, const char *d) { (void)w; (void)i; (void)t; (void)d; return 0; }
static sse_stream_context_t ctx_;
sse_stream_context_t *sse_stream_context_create(size_t n) { (void)n; return &ctx_; }
void sse_stream_context_destroy(sse_stream_context_t *c) { (void)c; }
#endif
int dynamic_sse_clients_add(dynamic_sse_clients_t *c, struct lws *w) { (void)c; (void)w; streams++; return 0; }
int dynamic_sse_clients_remove(dynamic_sse_clients_t *c, struct lws *w) { (void)c; (void)w; return 0; }
size_t dynamic_sse_clients_count(dynamic_sse_clients_t *c) { (void)c; return 0; }
event_hash_map_t *event_hash_map_create(size_t n) { (void)n; static event_hash_map_t m; return &m; }
void event_hash_map_destroy(event_hash_map_t *m) { (void)m; }
/* sessions: one, terminated on request */
static int terminated;
bool mcp_session_manager_terminate_session(mcp_http_session_manager_t *m, const char *id) { (void)m; (void)id; terminated++; return true; }
mcp_http_session_t *mcp_session_manager_get_session(mcp_http_session_manager_t *m, const char *id) { (void)m; (void)id; return NULL; }
void mcp_session_touch(mcp_http_session_t *s) { (void)s; }
bool mcp_session_id_is_valid(const char *s) { return s[0] != 0; }

#ifndef LEN
#define LEN 4
#endif
static unsigned msgs;
static char all[128];
static unsigned want;
static char *cb(void *u, const void *d, size_t n, int *e) {
    (void)u;
    msgs++; *e = 0;
    const char *s = d;
    VP_ASSERT(n == want, "the body is as long as what was sent");
    for (unsigned i = 0; i < want; i++) VP_ASSERT(s[i] == all[i], "the body is what was sent, in order");
    VP_ASSERT(s[want] == 0, "the body is terminated");
    char *r = malloc(3);
    if (r) { r[0] = '{'; r[1] = '}'; r[2] = 0; }
    return r;
}
static int call(enum lws_callback_reasons r, void *in, size_t n) { return sthttp_protocols[0].callback(W, r, &sess, in, n); }

#ifdef GATE
static const char *list = LIST;
/* what the configuration text means, read independently of the code */
static bool allowed(void) {
    unsigned n = (unsigned)vp_len(list);
    for (unsigned a = 0; a <= n;) {
        unsigned b = a;
        while (b < n && list[b] != ',') b++;
        unsigned x = a, y = b;
        while (x < y && (list[x] == ' ' || list[x] == '\t')) x++;
        while (y > x && (list[y - 1] == ' ' || list[y - 1] == '\t')) y--;
        if (y > x) {
            unsigned l = y - x;
            bool wild = list[y - 1] == '*';
            if ((int)l == origin_len && vp_eqn(list + x, origin, l)) return true;
            if (wild && (int)(l - 1) <= origin_len && vp_eqn(list + x, origin, l - 1)) return true;
        }
        a = b + 1;
    }
    return false;
}
void vp_harness(void) {
    char ep[] = "/m", uri[] = "/m", body[] = "{}";
    data.mcp_endpoint = ep;
    data.message_callback = cb;
    data.session_manager = (mcp_http_session_manager_t *)&wsi_;
    data.validate_origin = true;
    VP_ASSERT(parse_allowed_origins(list, &data.allowed_origins, &data.allowed_origins_count), "the list is accepted");
    method = METHOD;
    sid = "s1";
    all[0] = '{'; all[1] = '}'; want = 2;
#ifdef OVERLONG
    /* longer than the server's buffer for it */
    origin_len = OVERLONG;
    for (int i = 0; i < OVERLONG; i++) origin[i] = i < 3 ? (char)vp_u8() : 'x';
    VP_ASSUME(origin[0] && origin[1] && origin[2]);
#else
    origin_len = (int)vp_range(0, LEN + 1) - 1;
    for (int i = 0; i < LEN; i++) { origin[i] = (char)vp_u8(); if (i < origin_len) VP_ASSUME(origin[i] != 0); else origin[i] = 0; }
#endif
    VP_ASSERT(call(LWS_CALLBACK_HTTP_BIND_PROTOCOL, NULL, 0) == 0, "bound");
    VP_ASSERT(call(LWS_CALLBACK_HTTP, uri, 2) == 0, "request taken");
#if METHOD == 1
    VP_ASSERT(msgs == 0 && status == 0, "no answer before the body");
    VP_ASSERT(call(LWS_CALLBACK_HTTP_BODY, body, 2) == 0, "body taken");
    VP_ASSERT(call(LWS_CALLBACK_HTTP_BODY_COMPLETION, NULL, 0) == 0, "answered");
#endif
    int effects = (int)msgs + streams + terminated;
    bool ok = origin_len <= 0 || allowed();
#ifndef OVERLONG
    VP_ASSERT(!ok || effects == 1, "a request from an allowed origin, or without one, is served");
    VP_ASSERT(!ok || status < 400, "no error for an allowed one");
#endif
    VP_ASSERT(ok || effects == 0, "a request from any other origin is not served");
    VP_ASSERT(ok || (status >= 400 && status < 500), "and gets an error");
#ifndef OVERLONG
    VP_REACH(ok && origin_len > 0, "allowed");
    VP_REACH(origin_len < 0 && ok, "no origin");
#endif
#ifndef ALL
    VP_REACH(!ok, "refused");
#endif
    call(LWS_CALLBACK_CLOSED_HTTP, NULL, 0);
    free_allowed_origins(data.allowed_origins, data.allowed_origins_count);
    VP_ASSERT(vp_live == 0, "nothing is leaked");
    VP_ASSERT_UNLOCKED();
}
#endif

#ifdef BODY
static const unsigned lens[] = { LENS };
void vp_harness(void) {
    char ep[] = "/m", uri[] = "/m";
    data.mcp_endpoint = ep;
    data.message_callback = cb;
    method = 1;
    VP_ASSERT(call(LWS_CALLBACK_HTTP_BIND_PROTOCOL, NULL, 0) == 0, "bound");
    VP_ASSERT(call(LWS_CALLBACK_HTTP, uri, 2) == 0, "request taken");
    bool ok = true;
#ifdef FAULT
    vp_oom_arm(1u << FAULT);
#endif
    for (int i = 0; i < BODY; i++) {
        static char part[64];
        for (unsigned j = 0; j < lens[i]; j++) {
            part[j] = (char)vp_u8();
            VP_ASSUME(part[j] != 0);
            all[want++] = part[j];
        }
        if (call(LWS_CALLBACK_HTTP_BODY, part, lens[i]) != 0) { ok = false; break; }
        for (unsigned j = 0; j < lens[i]; j++) part[j] = '#';
    }
    int r = -1;
    if (ok) r = call(LWS_CALLBACK_HTTP_BODY_COMPLETION, NULL, 0);
    unsigned used = vp_alloc_no;
    vp_oom_off();
#ifdef FAULT
    VP_ASSERT(ok || msgs == 0, "no partial body is delivered");
    VP_REACH(used > FAULT, "a failure happened");
#else
    (void)used;
    VP_ASSERT(ok && r == 0, "the request is taken");
    VP_ASSERT(msgs == 1 && status == 200 && bodies == 1, "it is handed over once and answered");
#endif
    call(LWS_CALLBACK_CLOSED_HTTP, NULL, 0);
    VP_ASSERT(vp_live == 0, "nothing is leaked");
    VP_REACH(true, "end");
}
#endif
