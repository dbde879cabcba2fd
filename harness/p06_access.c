/* Grants: who may use what. */
#include "vp.h"
#include "internal/server_internal.h"
#include "mcp_auth.h"

/* the definition */
static bool covers(const char *pat, const char *name) {
    size_t n = vp_len(pat);
    if (n == 0 || pat[n - 1] != '*') return vp_eq(pat, name);
    for (size_t i = 0; i + 1 < n; i++) if (pat[i] != name[i]) return false;
    return true;
}
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { (void)a; (void)b; (void)n; return 1; }

#ifdef CHECK
#ifndef GRANTS
#define GRANTS 2
#endif
void vp_harness(void) {
    char g0[CHECK + 1], g1[CHECK + 1], g2[CHECK + 1], *const g[3] = { g0, g1, g2 }, other[CHECK + 1], name[CHECK + 1];
    char *list[GRANTS], *olist[1] = { other };
    for (int i = 0; i < GRANTS; i++) { vp_str(g[i], CHECK); list[i] = g[i]; }
    vp_str(other, CHECK);
    vp_str(name, CHECK);
    mcp_auth_context_t c = { 0 };
    const bool tool = TOOL;
    unsigned n = vp_range(0, GRANTS);
    char id[] = "someone";
    c.identifier = id;
    c.expiry = (time_t)vp_u64();
    vp_now = (int64_t)vp_u64();
    VP_ASSUME(c.expiry >= 0 && vp_now >= 0);
    c.allowed_tools = tool ? list : olist;
    c.allowed_tools_count = tool ? n : 1;
    c.allowed_resources = tool ? olist : list;
    c.allowed_resources_count = tool ? 1 : n;
    bool want = false;
    for (unsigned i = 0; i < GRANTS; i++) if (i < n && covers(g[i], name)) want = true;
    if (c.expiry != 0 && vp_now > (int64_t)c.expiry) want = false;
    bool got = tool ? mcp_auth_check_tool_access(&c, name) : mcp_auth_check_resource_access(&c, name);
    VP_ASSERT(got == want, "access is granted exactly by an unexpired grant that covers the name");
    VP_REACH(got && c.expiry != 0, "granted before expiry");
    VP_REACH(!got && n == GRANTS && (c.expiry == 0 || vp_now <= (int64_t)c.expiry), "denied for lack of a grant");
}
#endif

#ifdef HANDLERS
#include "mcp_json.h"
static char uri[4], tool[4];
static unsigned nresp, ran;
static bool err;
static int code;
static uint64_t rid;
static char *answer(uint64_t i, bool e, int c) {
    nresp++; err = e; code = c; rid = i;
    char *s = malloc(2); s[0] = 'A'; s[1] = 0; return s;
}
char *mcp_json_stringify_message(const mcp_message_t *m) { return answer(m->response.id, m->response.error_code != 0, m->response.error_code); }
char *create_error_response(uint64_t id, mcp_error_code_t c, const char *m) { (void)m; return answer(id, true, c); }
char *create_success_response(uint64_t id, char *result) { free(result); return answer(id, false, 0); }
char *mcp_json_stringify(const mcp_json_t *j) { (void)j; return malloc(1); }
mcp_json_t *vp_json_string_n(const char *v, size_t n);
mcp_json_t *mcp_json_parse(const char *s) {
    mcp_json_t *o = mcp_json_object_create();
    mcp_json_object_set_property(o, s[0] == 't' ? "name" : "uri", vp_json_string_n(s[0] == 't' ? tool : uri, 3));
    return o;
}
static mcp_content_item_t *item(void) {
    mcp_content_item_t *c = malloc(sizeof *c);
    c->type = MCP_CONTENT_TYPE_TEXT; c->mime_type = NULL; c->data = NULL; c->data_size = 0;
    return c;
}
static mcp_content_item_t **items(size_t *n) {
    mcp_content_item_t **l = malloc(sizeof *l);
    l[0] = item(); *n = 1;
    return l;
}
static mcp_error_code_t tool_cb(mcp_server_t *s, const char *n, const mcp_json_t *p, void *u, mcp_content_item_t ***c, size_t *cn, bool *e, char **msg) {
    (void)s; (void)p; (void)u; (void)msg; (void)n; ran++; *c = items(cn); *e = false; return MCP_ERROR_NONE;
}
static mcp_error_code_t res_cb(mcp_server_t *s, const char *n, void *u, mcp_content_item_t ***c, size_t *cn, char **msg) {
    (void)s; (void)n; (void)u; (void)msg; ran++; *c = items(cn); return MCP_ERROR_NONE;
}
int mcp_cache_get(mcp_resource_cache_t *c, const char *u, mcp_object_pool_t *p, mcp_content_item_t ***l, size_t *n) {
    (void)c; (void)u; (void)p; (void)l; (void)n; ran++; return -1;
}
int mcp_cache_put(mcp_resource_cache_t *c, const char *u, mcp_object_pool_t *p, mcp_content_item_t **l, size_t n, int ttl) {
    (void)c; (void)u; (void)p; (void)l; (void)n; (void)ttl; return 0;
}
mcp_error_code_t mcp_server_handle_template_resource(mcp_server_t *s, const char *u, mcp_content_item_t ***l, size_t *n, char **m) {
    (void)s; (void)u; (void)l; (void)n; (void)m; ran++; return MCP_ERROR_RESOURCE_NOT_FOUND;
}
void vp_harness(void) {
    char g[4], *list[1] = { g };
    vp_str(g, 3); vp_str(uri, 3); vp_str(tool, 3);
    char id[] = "someone", all[] = "*", *alist[1] = { all };
    mcp_auth_context_t c = { 0 };
    c.identifier = id;
    c.expiry = (time_t)vp_range(0, 10);
    vp_now = (int64_t)vp_range(1, 11);
    int cache, routes;
    mcp_server_t srv = { 0 };
    srv.capabilities.tools_supported = srv.capabilities.resources_supported = true;
    srv.tool_handler = tool_cb; srv.resource_handler = res_cb;
    srv.resource_cache = (void *)&cache; srv.template_routes_table = (void *)&routes;
    mcp_request_t rq = { 0 };
    rq.id = vp_u64();
    int ec = 0;
    char *r;
    bool want;
    char params[2] = { 0 };
    if (HANDLERS == 0) {
        params[0] = 't'; rq.params = params; rq.method = "call_tool";
        c.allowed_tools = list; c.allowed_resources = alist;
        c.allowed_tools_count = c.allowed_resources_count = 1;
        want = covers(g, tool);
        if (c.expiry != 0 && vp_now > (int64_t)c.expiry) want = false;
        r = handle_call_tool_request(&srv, NULL, &rq, &c, &ec);
    } else {
        params[0] = 'r'; rq.params = params; rq.method = "read_resource";
        c.allowed_tools = alist; c.allowed_resources = list;
        c.allowed_tools_count = c.allowed_resources_count = 1;
        want = covers(g, uri);
        if (c.expiry != 0 && vp_now > (int64_t)c.expiry) want = false;
        r = handle_read_resource_request(&srv, NULL, &rq, &c, &ec);
    }
    VP_ASSERT(r != NULL && nresp == 1 && rid == rq.id, "answered once");
    if (want) {
        VP_ASSERT(!err && ran > 0, "a granted request is carried out");
        VP_REACH(true, "granted");
    } else {
        VP_ASSERT(ran == 0, "nothing the application or the cache holds is touched without a grant");
        VP_ASSERT(err && code == MCP_ERROR_FORBIDDEN && ec == MCP_ERROR_FORBIDDEN, "the caller is told access is denied");
        VP_REACH(true, "denied");
    }
    free(r);
}
#endif
