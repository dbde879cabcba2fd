/* Message handling from parsed messages to responses: who may call what, and
 * one response per request.  The text layer is replaced by its results
 * (decided under the JSON properties): the parsed messages, the parsed
 * parameters and the response tokens. */
#include "vp.h"
#include "internal/server_internal.h"
#include "mcp_json_message.h"
#include "mcp_json_rpc.h"

#ifndef N
#define N 2
#endif
#ifndef KLEN
#define KLEN 2
#endif

mcp_json_t *vp_json_string_n(const char *v, size_t n);
enum { PING, CALL, READ, LTOOLS, LRES, LTMPL, METRICS, RESET, UNKNOWN, NOTIF, RESP, KINDS };
static const char *const method_of[] = { "ping", "call_tool", "read_resource", "list_tools", "list_resources",
                                         "list_resource_templates", "get_performance_metrics", "reset_performance_metrics", "nosuch", "call_tool", "x" };
/* parameters of message i: the object, or none, or not an object */
enum { P_OBJ, P_NONE, P_ARRAY, PKINDS };
/* apiKey member */
enum { K_ABSENT, K_STRING, K_NUMBER, K_BOOL, KKINDS };

static int kind[N], pkind[N], kkind[N];
static char cred[N][KLEN + 2];
static uint64_t id[N];
static bool parse_ok = true;

/* responses, in the order they are formatted */
static struct { uint64_t id; bool error; int code; } resp[2 * N + 2];
static unsigned nresp;
static char *token(uint64_t rid, bool error, int code) {
    VP_ASSUME(nresp < 2 * N + 2);
    resp[nresp].id = rid; resp[nresp].error = error; resp[nresp].code = code;
    char *s = malloc(2);
    if (s) { s[0] = (char)('A' + nresp); s[1] = 0; nresp++; }
    return s;
}
char *mcp_json_stringify_message(const mcp_message_t *m) {
    VP_ASSERT(m->type == MCP_MESSAGE_TYPE_RESPONSE, "only responses are formatted");
    bool e = m->response.error_code != MCP_ERROR_NONE;
    return token(m->response.id, e, m->response.error_code);
}
char *mcp_json_format_response(uint64_t rid, const char *result) { (void)result; return token(rid, false, 0); }
char *mcp_json_create_response(uint64_t rid, const char *result) { (void)result; return token(rid, false, 0); }
char *mcp_json_format_error_response(uint64_t rid, int code, const char *msg) { (void)msg; return token(rid, true, code); }
char *mcp_json_create_error_response(uint64_t rid, int code, const char *msg) { (void)msg; return token(rid, true, code); }
char *mcp_json_stringify(const mcp_json_t *j) { (void)j; char *s = malloc(3); if (s) { s[0] = '{'; s[1] = '}'; s[2] = 0; } return s; }

static char *copy(const char *s) {
    size_t n = vp_len(s);
    char *d = malloc(n + 1);
    for (size_t i = 0; i <= n; i++) d[i] = s[i];
    return d;
}
static char text[] = "message";
int mcp_json_parse_message_or_batch(const char *t, mcp_message_t **out, size_t *count) {
    VP_ASSERT(vp_eq(t, text), "the message handed over is the one parsed");
    if (!parse_ok) { *out = NULL; *count = 0; return MCP_ERROR_PARSE_ERROR; }
    mcp_message_t *m = malloc(N * sizeof *m);
    for (int i = 0; i < N; i++) {
        char p[3] = { 'P', (char)('0' + i), 0 };
        for (int k = 0; k < KINDS; k++) if (kind[i] == k) {
            if (k == NOTIF) {
                m[i].type = MCP_MESSAGE_TYPE_NOTIFICATION;
                m[i].notification.method = copy(method_of[k]);
                m[i].notification.params = copy(p);
            } else if (k == RESP) {
                m[i].type = MCP_MESSAGE_TYPE_RESPONSE;
                m[i].response.id = id[i];
                m[i].response.error_code = MCP_ERROR_NONE;
                m[i].response.error_message = NULL;
                m[i].response.result = copy("1");
            } else {
                m[i].type = MCP_MESSAGE_TYPE_REQUEST;
                m[i].request.id = id[i];
                m[i].request.method = copy(method_of[k]);
                m[i].request.params = NULL;
                if (pkind[i] != P_NONE) m[i].request.params = copy(p);
            }
        }
    }
    *out = m; *count = N;
    return 0;
}
int mcp_json_parse_message(const char *t, mcp_message_t *m) { (void)t; (void)m; VP_ASSERT(false, "not used here"); return -1; }
mcp_json_t *mcp_json_parse(const char *s) {
    if (!s) return NULL;
    if (s[0] == 'M') return mcp_json_object_create();
    VP_ASSERT(s[0] == 'P' && s[1] >= '0' && s[1] < '0' + N, "only request parameters are parsed");
    for (int i = 0; i < N; i++) if (s[1] == '0' + i) {
        if (pkind[i] == P_ARRAY) return mcp_json_array_create();
        mcp_json_t *o = mcp_json_object_create();
        if (kkind[i] == K_STRING) mcp_json_object_set_property(o, "apiKey", vp_json_string_n(cred[i], KLEN + 1));
        else if (kkind[i] == K_NUMBER) mcp_json_object_set_property(o, "apiKey", mcp_json_number_create(7));
        else if (kkind[i] == K_BOOL) mcp_json_object_set_property(o, "apiKey", mcp_json_boolean_create(true));
        mcp_json_object_set_property(o, "uri", mcp_json_string_create("res://a"));
        mcp_json_object_set_property(o, "name", mcp_json_string_create("tool"));
        return o;
    }
    return NULL;
}
/* the application */
static unsigned app_tool, app_res, app_reset;
static bool handler_ok;
static mcp_error_code_t tool_cb(mcp_server_t *s, const char *n, const mcp_json_t *p, void *u, mcp_content_item_t ***c, size_t *cn, bool *e, char **msg) {
    (void)s; (void)p; (void)u; (void)msg;
    app_tool++;
    VP_ASSERT(vp_eq(n, "tool"), "the tool called is the one named");
    *c = NULL; *cn = 0; *e = false;
    return handler_ok ? MCP_ERROR_NONE : MCP_ERROR_TOOL_NOT_FOUND;
}
static mcp_error_code_t res_cb(mcp_server_t *s, const char *uri, void *u, mcp_content_item_t ***c, size_t *cn, char **msg) {
    (void)s; (void)u; (void)msg; (void)c; (void)cn;
    app_res++;
    VP_ASSERT(vp_eq(uri, "res://a"), "the resource read is the one named");
    return MCP_ERROR_RESOURCE_NOT_FOUND;
}
int CRYPTO_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    unsigned char d = 0;
    for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
    return d;
}
int mcp_performance_get_metrics_json(char *b, size_t n) { (void)n; b[0] = 'M'; b[1] = 0; return 1; }
void mcp_performance_metrics_reset(void) { app_reset++; }
mcp_performance_timer_t mcp_performance_timer_create(void) { mcp_performance_timer_t t = { 0 }; return t; }
void mcp_performance_collect_request_start(mcp_performance_timer_t *t) { (void)t; }
void mcp_performance_collect_request_end(mcp_performance_timer_t *t, bool s, size_t a, size_t b) { (void)t; (void)s; (void)a; (void)b; }

static char key[KLEN + 1];
static bool has_key;
static bool is_req(int i) { return kind[i] != NOTIF && kind[i] != RESP; }
static bool carries_key(int i) { return is_req(i) && pkind[i] == P_OBJ && kkind[i] == K_STRING && vp_eq(cred[i], key); }
static void one(const char *api_key) {
    mcp_server_t srv = { 0 };
    srv.capabilities.tools_supported = srv.capabilities.resources_supported = true;
    srv.tool_handler = tool_cb;
    srv.resource_handler = res_cb;
    srv.config.api_key = api_key;
    nresp = 0; app_tool = app_res = app_reset = 0;
    bool any_key = !has_key;
    unsigned reqs = 0, tools = 0, reads = 0, resets = 0;
    for (int i = 0; i < N; i++) {
#ifndef CREDS
        vp_str(cred[i], KLEN + 1);
#endif
        id[i] = vp_u64();
        if (carries_key(i)) any_key = true;
        if (is_req(i)) reqs++;
        if (kind[i] == CALL && pkind[i] == P_OBJ) tools++;
        if (kind[i] == READ && pkind[i] == P_OBJ) reads++;
        if (kind[i] == RESET) resets++;
    }
    bool auth = !has_key || carries_key(0);
    bool lone_ping = N == 1 && kind[0] == PING;
    int err = 12345;
    char *r = handle_message(&srv, text, sizeof text, &err);
#ifdef GATE
    if (!any_key) {
        VP_ASSERT(app_tool == 0 && app_res == 0 && app_reset == 0, "without the key no request is carried out");
        for (unsigned k = 0; k < 2 * N + 2; k++) if (k < nresp && !resp[k].error)
            VP_ASSERT(lone_ping, "without the key nothing but a lone ping is answered with a result");
        if (!lone_ping) VP_ASSERT(err != MCP_ERROR_NONE, "an unauthenticated message is reported as an error");
        if (reqs > 0) VP_ASSERT(r != NULL, "an unauthenticated request gets an answer");
#ifdef DENIED
        VP_REACH(true, "a message without the key");
#endif
    }
    if (auth) {
        VP_ASSERT(app_tool == tools && app_res == reads && app_reset == resets, "with the key every well-formed request is carried out once");
#ifdef GRANTED
        VP_REACH(app_tool >= 1, "a call with the key");
#endif
    }
#endif
#ifdef ANSWERS
    if (auth) {
        VP_ASSERT(nresp == reqs, "every request gets exactly one response, anything else none");
        unsigned k = 0;
        for (int i = 0; i < N; i++) if (is_req(i)) {
            VP_ASSERT(resp[k].id == id[i], "responses carry the request's id, in order");
            bool bad = kind[i] == UNKNOWN || ((kind[i] == CALL || kind[i] == READ) && pkind[i] != P_OBJ) || kind[i] == READ || (kind[i] == CALL && !handler_ok);
            VP_ASSERT(resp[k].error == bad, "a request gets a result exactly if it was carried out, an error otherwise");
            if (kind[i] == UNKNOWN) VP_ASSERT(resp[k].code == MCP_ERROR_METHOD_NOT_FOUND, "an unknown method is reported as such");
            if ((kind[i] == CALL || kind[i] == READ) && pkind[i] != P_OBJ) VP_ASSERT(resp[k].code == MCP_ERROR_INVALID_PARAMS, "missing parameters are reported as such");
            k++;
        }
        if (reqs == 0) VP_ASSERT(r == NULL, "nothing is sent when there is no request");
        else {
            VP_NONNULL(r, "a message with requests is answered");
            unsigned p = 0;
            if (N > 1) { VP_ASSERT(r[p] == '[', "a batch is answered with an array"); p++; }
            for (unsigned j = 0; j < N; j++) if (j < reqs) {
                if (j) { VP_ASSERT(r[p] == ',', "array elements are separated"); p++; }
                VP_ASSERT(r[p] == (char)('A' + j), "every response is sent once, in order"); p++;
            }
            if (N > 1) { VP_ASSERT(r[p] == ']', "the array is closed"); p++; }
            VP_ASSERT(r[p] == 0, "nothing follows the response");
        }
#ifdef GRANTED
        VP_REACH(reqs == N, "all requests");
#endif
    } else if (!lone_ping) {
        VP_ASSERT(nresp == 1 && resp[0].error, "an unauthenticated message is answered by one error");
        if (is_req(0)) VP_ASSERT(resp[0].id == id[0], "the error carries the request's id");
    }
#endif
    free(r);
    VP_ASSERT_UNLOCKED();
}
/* message shapes: parameters and the apiKey in them */
static const signed char shape[][2] = { { P_OBJ, K_STRING }, { P_OBJ, K_ABSENT }, { P_OBJ, K_NUMBER }, { P_OBJ, K_BOOL }, { P_NONE, 0 }, { P_ARRAY, 0 } };
void vp_harness(void) {
#ifdef NOKEY
    has_key = false;
    const char *api_key = NOKEY ? "" : NULL;
#else
    has_key = true;
#ifdef CREDS
    key[0] = 'k'; key[1] = 0x7f;
#else
    for (int i = 0; i < KLEN; i++) { key[i] = (char)vp_u8(); VP_ASSUME(key[i] != 0); }
#endif
    const char *api_key = key;
#endif
#ifdef HOK
    handler_ok = HOK;
#else
    handler_ok = vp_bool();
#endif
    /* every kind of last message, with SHAPE parameters; before it FIRST and MIDDLE with FSHAPE ones */
#ifndef KLO
#define KLO 0
#define KHI KINDS
#endif
#ifdef CREDS
    /* credentials of the first and of the later messages: the key or another */
    for (int c = 0; c < (N > 1 ? 3 : 2); c++)
#endif
    for (int k = KLO; k < KHI; k++) {
#ifdef CREDS
        for (int i = 0; i < N; i++) {
            bool right = (i == 0 ? c : c >> 1) & 1;
            cred[i][0] = 'k'; cred[i][1] = right ? 0x7f : 'z'; cred[i][2] = 0;
        }
#endif
        for (int i = 0; i < N; i++) { pkind[i] = shape[SHAPE][0]; kkind[i] = shape[SHAPE][1]; }
#if N > 1
        kind[0] = FIRST; pkind[0] = shape[FSHAPE][0]; kkind[0] = shape[FSHAPE][1];
#endif
#if N > 2
        kind[1] = MIDDLE; pkind[1] = shape[FSHAPE][0]; kkind[1] = shape[FSHAPE][1];
#endif
        kind[N - 1] = k;
        one(api_key);
    }
}
