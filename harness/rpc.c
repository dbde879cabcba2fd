/* JSON-RPC messages: the real message layer on the real JSON parser, tree and
 * serialiser.  Stand-ins as for the JSON checks; numbers in texts that are
 * parsed stand for values chosen by the solver (DIGITS: for themselves). */
#include "vp.h"
#include "mcp_json.h"
#include "mcp_json_rpc.h"
#include "mcp_json_message.h"
#include "mcp_json_utils.h"
#include "mcp_types.h"
#include "mcp_arena.h"
#include <stdarg.h>
#include <limits.h>
static double d_id, d_code;
/* whole numbers only */
int vj_snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    char c = 0;
    for (int i = 0; f[i]; i++) c = f[i];
    int r;
    if (c == 'g') {
        double v = va_arg(ap, double);
        char t[24];
        int k = 24;
        bool neg = v < 0;
        uint64_t u = (uint64_t)(neg ? -v : v);
        do { t[--k] = (char)('0' + u % 10); u /= 10; } while (u);
        if (neg) t[--k] = '-';
        size_t i = 0;
        for (; k < 24; k++) { if (i + 1 < n) b[i] = t[k]; i++; }
        if (n) b[i < n ? i : n - 1] = 0;
        r = (int)i;
    } else r = vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
double vj_strtod(const char *s, char **e) {
    const char *p = s;
    bool neg = *p == '-';
    if (neg) p++;
    uint64_t u = 0;
    for (; *p >= '0' && *p <= '9'; p++) u = u * 10 + (uint64_t)(*p - '0');
    *e = (char *)p;
#ifndef DIGITS
    if (*s == '1') return d_id;
    if (*s == '2') return d_code;
#endif
    return neg ? -(double)u : (double)u;
}
static long live0;
static char text[160];
static unsigned tn;
static void put(const char *s) { for (; *s; s++) text[tn++] = *s; text[tn] = 0; }
static void member(const char *name, const char *v) {
    if (!v) return;
    if (text[tn - 1] != '{') put(",");
    put("\""); put(name); put("\":"); put(v);
}
static bool str(const char *a, const char *b) { return a ? b && vp_eq(a, b) : !b; }
#ifndef DIGITS
static const char *ids[] = { NULL, "1", "\"1\"", "null" };
static const char *methods[] = { NULL, "\"m\\\"\"", "7" };
static const char *params[] = { NULL, "{\"k\":\"v\"}", "[true]", "\"s\"", "null" };
static const char *results[] = { NULL, "{\"r\":[]}", "null", "\"\\n\"" };
static const char *errors[] = { NULL, "{\"code\":2,\"message\":\"e\"}", "{\"code\":\"2\",\"message\":\"e\"}", "{\"code\":2}", "{\"message\":\"e\"}", "{\"code\":2,\"message\":3}", "\"e\"" };
/* what a message is: 0 request, 1 notification, 2 result, 3 error, -1 no message, -2 left open */
static int kind(int i, int m, int p, int r, int e, bool id_ok, bool code_ok) {
    if (m == 2) return -2;
    if (m == 1) {
        if (p > 2) return -1;
        return i == 0 ? 1 : i == 1 && id_ok ? 0 : -1;
    }
    if (i != 1 || !id_ok) return -1;
    if (e == 0) return r ? 2 : -1;
    if (e == 6) return r ? -2 : -1;
    if (r) return -1;
    return e == 1 && code_ok ? 3 : -1;
}
static void message(int i, int m, int p, int r, int e) {
    put("{");
    member("params", params[p]); if (p == 0 && r == 0) member("jsonrpc", "\"2.0\""); member("result", results[r]); member("id", ids[i]); member("error", errors[e]); member("method", methods[m]);
    put("}");
}
static void same(const mcp_message_t *g, int k, int p, int r) {
    switch (k) {
    case 0:
        VP_ASSERT(g->type == MCP_MESSAGE_TYPE_REQUEST, "a method and an id make a request");
        if (g->type != MCP_MESSAGE_TYPE_REQUEST) return;
        VP_ASSERT(g->request.id == (uint64_t)d_id, "with its id");
        VP_ASSERT(str(g->request.method, "m\""), "its method");
        VP_ASSERT(str(g->request.params, params[p]), "and its parameters");
        break;
    case 1:
        VP_ASSERT(g->type == MCP_MESSAGE_TYPE_NOTIFICATION, "a method without an id makes a notification");
        if (g->type != MCP_MESSAGE_TYPE_NOTIFICATION) return;
        VP_ASSERT(str(g->notification.method, "m\""), "with its method");
        VP_ASSERT(str(g->notification.params, params[p]), "and its parameters");
        break;
    case 2:
        VP_ASSERT(g->type == MCP_MESSAGE_TYPE_RESPONSE, "an id and a result make a response");
        if (g->type != MCP_MESSAGE_TYPE_RESPONSE) return;
        VP_ASSERT(g->response.id == (uint64_t)d_id && g->response.error_code == MCP_ERROR_NONE && !g->response.error_message, "with its id and no error");
        VP_ASSERT(str(g->response.result, results[r]), "and its result");
        break;
    case 3:
        VP_ASSERT(g->type == MCP_MESSAGE_TYPE_RESPONSE, "an id and an error make a response");
        if (g->type != MCP_MESSAGE_TYPE_RESPONSE) return;
        VP_ASSERT(g->response.id == (uint64_t)d_id && (int)g->response.error_code == (int)d_code && !g->response.result, "with its id and error code");
        VP_ASSERT(str(g->response.error_message, "e"), "and the error's text");
        break;
    default:
        VP_ASSERT(g->type == MCP_MESSAGE_TYPE_INVALID, "anything else is marked as no message");
    }
}
static void clean(void) {
    mcp_arena_reset_current_thread();
    VP_ASSERT(vp_live == live0, "no memory is lost");
}
/* a response as the client reads it */
static void response(int k, int i, int m, int r, int e) {
    uint64_t id = 1; mcp_error_code_t code = 99; char *em = (char *)&id, *res = (char *)&id;
    int rc = mcp_json_parse_response(text, &id, &code, &em, &res);
    if (k == 2 || k == 3) {
        VP_ASSERT(rc == 0, "a response is accepted");
        if (rc != 0) return;
        VP_ASSERT(id == (uint64_t)d_id, "with its id");
        VP_ASSERT(k == 2 ? code == MCP_ERROR_NONE && !em : (int)code == (int)d_code && str(em, "e"), "its error");
        VP_ASSERT(k == 2 ? str(res, results[r]) : !res, "and its result");
    }
    /* without an id, or without a result and an error, it is none */
    if (i != 1 || (!r && !e)) VP_ASSERT(rc != 0, "what is no response is refused");
    if (rc != 0) VP_ASSERT(!res && !em, "nothing is handed out on failure");
    if (rc == 0) { free(em); free(res); }
    (void)m;
    clean();
}
static void run(int i, int m, int p, int r, int e, bool id_ok, bool code_ok) {
    tn = 0;
    message(i, m, p, r, e);
    int k = kind(i, m, p, r, e, id_ok, code_ok);
    live0 = vp_live;
    VP_REACH(true, "decided");
#if WAY == 0
    mcp_message_t g;
    int rc = mcp_json_parse_message(text, &g);
    if (k == -2) { if (rc == 0) mcp_message_release_contents(&g); clean(); return; }
    VP_ASSERT((rc == 0) == (k >= 0), "exactly the valid messages are accepted");
    if (rc != 0) { clean(); return; }
    same(&g, k, p, r);
    mcp_message_release_contents(&g);
    clean();
#elif WAY == 1
    mcp_message_t *g = NULL; size_t n = 7;
    int rc = mcp_json_parse_message_or_batch(text, &g, &n);
    if (k == -2) { if (rc == 0) mcp_json_free_message_array(g, n); clean(); return; }
    VP_ASSERT((rc == 0) == (k >= 0), "exactly the valid messages are accepted");
    if (rc != 0) { VP_ASSERT(!g && n == 0, "without a partial result"); clean(); return; }
    VP_ASSERT(g && n == 1, "one message");
    if (!g) return;
    same(g, k, p, r);
    mcp_json_free_message_array(g, n);
    clean();
#else
    response(k, i, m, r, e);
#endif
}
#endif
#if defined(SINGLE)
/* one message assembled from present, absent and wrongly typed members */
void vp_harness(void) {
    d_id = 42; d_code = -32600;
    int p = (int)vp_range(0, 4), r = (int)vp_range(0, 3), e = (int)vp_range(0, 6);
    for (int a = 0; a < 5; a++) if (p == a) for (int b = 0; b < 4; b++) if (r == b) for (int c = 0; c < 7; c++) if (e == c) {
        /* what does not matter is not varied */
        if (METHOD ? (b > 1 || c > 1 || (a && (b || c)) || (METHOD == 2 && a)) : a > 0) return;
        if (METHOD == 0 && (ID != 1 ? b > 1 || c > 1 : b > 1 && c > 1)) return;
        run(ID, METHOD, a, b, c, true, true);
        return;
    }
}
#elif defined(NUMBERS)
/* ids and codes of every kind and at the limits */
static const double vals[] = { 0, 1, 9007199254740992.0, -1, 0.5, 2147483647, 2147483648.0, -2147483648.0, -2147483649.0, 1e30, -1e30, 4294967296.0, 1.0000000000000002 };
#define NV ((int)(sizeof vals / sizeof *vals))
void vp_harness(void) {
    int v = (int)vp_range(0, NV - 1);
    for (int i = 0; i < NV; i++) if (v == i) {
        double d = vals[i];
        d_id = NUMBERS == 1 ? 3 : d; d_code = NUMBERS == 1 ? d : 5;
        bool whole = i != 4 && i != 12, ok = NUMBERS == 1 ? whole && d >= INT_MIN && d <= INT_MAX : whole && d >= 0 && d < 1e30;
        run(1, NUMBERS == 0 ? 1 : 0, 0, NUMBERS == 2, NUMBERS == 1, NUMBERS == 1 || ok, NUMBERS != 1 || ok);
        return;
    }
}
#elif defined(BATCH)
static int k[3];
static void element(int j, int s) {
    if (j) put(",");
    switch (s) {
    case 0: message(1, 1, 1, 0, 0); k[j] = 0; break;
    case 1: message(0, 1, 0, 0, 0); k[j] = 1; break;
    case 2: message(1, 0, 0, 1, 0); k[j] = 2; break;
    case 3: message(1, 0, 0, 0, 1); k[j] = 3; break;
    case 4: message(2, 1, 0, 0, 0); k[j] = -1; break;
    case 5: put("7"); k[j] = -1; break;
    default: put("[]"); k[j] = -1; break;
    }
}
static void go(int a, int b) {
    d_id = 42; d_code = -5;
    tn = 0;
    put("["); element(0, FIRST); element(1, a); if (b < 7) element(2, b); put("]");
    size_t want = b < 7 ? 3 : 2;
    live0 = vp_live;
    mcp_message_t *g = NULL; size_t n = 0;
    int rc = mcp_json_parse_message_or_batch(text, &g, &n);
    VP_ASSERT(rc == 0 && g, "a batch is accepted");
    if (!g) return;
    VP_ASSERT(n == want, "with all of its elements");
    VP_REACH(true, "a batch");
    if (n != want) return;
    for (size_t j = 0; j < want; j++) same(&g[j], k[j], k[j] == 0 ? 1 : 0, 1);
    mcp_json_free_message_array(g, n);
    clean();
}
void vp_harness(void) {
    int a = (int)vp_range(0, 6), b = (int)vp_range(0, 7);
    for (int i = 0; i < 7; i++) if (a == i) for (int j = 0; j < 8; j++) if (b == j) {
#ifdef FULL
        if (j < 7 && j != i) return;
#else
        if (j < 7 && (FIRST != 4 || i || j)) return;
#endif
        go(i, j);
        return;
    }
}
#elif defined(FAULT)
void vp_harness(void) {
    uint32_t f = vp_range(FROM, FROM + 9);
    for (uint32_t i = FROM; i < FROM + 10; i++) if (f == i) {
        d_id = 42; d_code = -5;
        tn = 0;
        if (FAULT == 1) put("[");
        message(1, 1, 1, 0, 0);
        if (FAULT == 1) { put(","); message(1, 0, 0, 0, 1); put("]"); }
        live0 = vp_live;
        vp_oom_arm(1ull << i);
        mcp_message_t *g = NULL; size_t n = 0;
        int rc = mcp_json_parse_message_or_batch(text, &g, &n);
        vp_oom_off();
        VP_REACH(vp_alloc_no > i, "a failing allocation");
        if (rc == 0) {
            VP_ASSERT(n == (FAULT == 1 ? 2 : 1) && g, "all elements are reported");
            if (!g) return;
            if (g[0].type != MCP_MESSAGE_TYPE_INVALID) same(&g[0], 0, 1, 0);
            if (FAULT == 1 && g[1].type != MCP_MESSAGE_TYPE_INVALID) same(&g[1], 3, 0, 0);
            mcp_json_free_message_array(g, n);
        } else VP_ASSERT(!g && n == 0, "without a partial result");
        mcp_arena_reset_current_thread();
        return;
    }
}
#elif defined(FORMAT)
static const uint64_t idv[] = { 0, 9, 10, 4294967295u, 9007199254740992u };
static const char steer[] = "\"b\\/\x01n\x1f" "0\x0a" "a\x08{\x7f}\x80,\xff:\x09[]\x20";
/* the two halves of the list */
#ifndef PART
#define PART 0
#endif
#define NSTEER ((int)sizeof steer - 1)
static char s[8];
/* the text is an object with n members, the id and the version */
static mcp_json_t *back(char *t, uint64_t id, size_t n, bool rpc) {
    VP_ASSERT(t != NULL, "a text is made");
    if (!t) return NULL;
    mcp_json_t *j = mcp_json_parse(t);
    VP_ASSERT(j && mcp_json_get_type(j) == MCP_JSON_OBJECT, "the text is a JSON object");
    if (!j) return NULL;
    char **names = NULL; size_t k = 0;
    int r = mcp_json_object_get_property_names(j, &names, &k);
    VP_ASSERT(r == 0 && k == n, "with the members it should have and no others");
    if (names) { for (size_t i = 0; i < k; i++) free(names[i]); free(names); }
    if (rpc) {
        const char *v = NULL; double d = -1;
        mcp_json_get_string(mcp_json_object_get_property(j, "jsonrpc"), &v);
        VP_ASSERT(v && vp_eq(v, "2.0"), "the protocol version");
        if (id != UINT64_MAX) {
            mcp_json_get_number(mcp_json_object_get_property(j, "id"), &d);
            VP_ASSERT(d == (double)id, "the id");
        }
    }
    return j;
}
static void is_str(mcp_json_t *j, const char *name, const char *want) {
    const char *v = NULL;
    if (!j) return;
    mcp_json_get_string(mcp_json_object_get_property(j, name), &v);
    VP_ASSERT(v && vp_eq(v, want), "the caller's string");
}
static void is_json(mcp_json_t *j, const char *name, const char *want) {
    if (!j) return;
    mcp_json_t *p = mcp_json_object_get_property(j, name);
    VP_ASSERT((p != NULL) == (want != NULL), "the caller's payload");
    if (!p || !want) return;
    char *t = mcp_json_stringify(p);
    VP_ASSERT(t && vp_eq(t, want), "the caller's payload");
    free(t);
}
static void go(uint64_t id, const char *payload) {
    live0 = vp_live;
    char *t = NULL;
    mcp_json_t *j = NULL, *e;
    mcp_message_t m;
    double d = 0;
    memset(&m, 0, sizeof m);
    switch (FORMAT) {
    case 0: case 1: case 2: case 3:
        if (FORMAT == 0) t = mcp_json_format_request(id, s, payload);
        else if (FORMAT == 1) t = mcp_json_format_request_direct(id, s, payload);
        else if (FORMAT == 2) t = mcp_json_create_request(s, payload, id);
        else { m.type = MCP_MESSAGE_TYPE_REQUEST; m.request.id = id; m.request.method = s; m.request.params = (void *)payload; t = mcp_json_stringify_message(&m); }
        j = back(t, id, payload ? 4 : 3, true);
        is_str(j, "method", s);
        is_json(j, "params", payload);
        break;
    case 4: case 5: case 6:
        if (FORMAT == 4) t = mcp_json_format_error_response(id, (mcp_error_code_t)-32601, s);
        else if (FORMAT == 5) t = mcp_json_create_error_response(id, -32601, s);
        else { m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = id; m.response.error_code = (mcp_error_code_t)-32601; m.response.error_message = s; t = mcp_json_stringify_message(&m); }
        j = back(t, id, 3, true);
        if (!j) return;
        e = mcp_json_object_get_property(j, "error");
        VP_ASSERT(e != NULL, "an error");
        if (!e) return;
        mcp_json_get_number(mcp_json_object_get_property(e, "code"), &d);
        VP_ASSERT(d == -32601, "with its code");
        is_str(e, "message", s);
        break;
    case 7: case 8: case 9:
        if (FORMAT == 7) t = mcp_json_format_response(id, payload);
        else if (FORMAT == 8) t = mcp_json_create_response(id, payload);
        else { m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = id; m.response.result = (void *)payload; t = mcp_json_stringify_message(&m); }
        j = back(t, id, 3, true);
        is_json(j, "result", payload ? payload : "null");
        break;
    case 10:
        m.type = MCP_MESSAGE_TYPE_NOTIFICATION; m.notification.method = s; m.notification.params = (void *)payload; t = mcp_json_stringify_message(&m);
        j = back(t, UINT64_MAX, payload ? 3 : 2, true);
        is_str(j, "method", s);
        is_json(j, "params", payload);
        break;
    case 11:
        t = mcp_json_format_read_resource_params(s);
        j = back(t, 0, 1, false);
        is_str(j, "uri", s);
        break;
    default:
        t = mcp_json_format_call_tool_params(s, payload);
        j = back(t, 0, payload ? 2 : 1, false);
        is_str(j, "name", s);
        is_json(j, "arguments", payload);
    }
    VP_REACH(j != NULL, "formatted");
    free(t);
    mcp_json_destroy(j);
    mcp_arena_reset_current_thread();
    VP_ASSERT(vp_live == live0, "no memory is lost");
}
static const char *payloads[] = { "{\"a\":[1,\"\\\"\"]}", NULL, "[]" };
#ifdef NOMEM
/* any one allocation fails: the whole text or none */
void vp_harness(void) {
    uint32_t f = vp_range(FROM, FROM + 9);
    for (uint32_t i = FROM; i < FROM + 10; i++) if (f == i) {
        s[0] = 'a'; s[1] = '"';
        char *t = NULL;
        mcp_message_t m;
        memset(&m, 0, sizeof m);
        vp_oom_arm(1ull << i);
        switch (FORMAT) {
        case 0: t = mcp_json_format_request(42, s, "[]"); break;
        case 1: t = mcp_json_format_request_direct(42, s, "[]"); break;
        case 3: m.type = MCP_MESSAGE_TYPE_REQUEST; m.request.id = 42; m.request.method = s; m.request.params = (void *)"[]"; t = mcp_json_stringify_message(&m); break;
        case 4: t = mcp_json_format_error_response(42, (mcp_error_code_t)-32601, s); break;
        case 7: t = mcp_json_format_response(42, "[]"); break;
        default: t = mcp_json_format_call_tool_params(s, "[]"); break;
        }
        vp_oom_off();
        VP_REACH(vp_alloc_no > i, "a failing allocation");
        if (t) {
            mcp_json_t *j = back(t, 42, FORMAT == 4 || FORMAT == 7 ? 3 : FORMAT == 12 ? 2 : 4, FORMAT != 12);
            if (FORMAT == 0 || FORMAT == 1 || FORMAT == 3) { is_str(j, "method", s); is_json(j, "params", "[]"); }
            if (FORMAT == 7) is_json(j, "result", "[]");
            if (FORMAT == 12) { is_str(j, "name", s); is_json(j, "arguments", "[]"); }
        }
        return;
    }
}
#elif defined(CHAR)
void vp_harness(void) {
    int a = (int)vp_range(0, NSTEER - 1), at = (int)vp_range(0, 1);
    for (int i = 0; i < NSTEER; i++) if (a == i) for (int k = 0; k < 2; k++) if (at == k) {
#ifdef FULL
        if (k && i % 4) return;
#else
        if (k || i % 2 != PART) return;
#endif
        s[0] = s[1] = 'x'; s[k] = steer[i]; s[2] = 0;
        go(7, payloads[1 + k]);
        return;
    }
}
#else
void vp_harness(void) {
    int a = (int)vp_range(0, 4), p = (int)vp_range(0, 2), l = (int)vp_range(0, 1);
    for (int i = 0; i < 5; i++) if (a == i) for (int k = 0; k < 3; k++) if (p == k) for (int n = 0; n < 2; n++) if (l == n) {
        if ((k && i != 2) || (n && (k || i))) return;
        s[0] = n ? 0 : 'm'; s[1] = 0;
        go(idv[i], payloads[k]);
        return;
    }
}
#endif
#endif
