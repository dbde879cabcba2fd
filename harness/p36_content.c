/* What a read, a call or a listing returns. */
#include "vp.h"
#include "internal/server_internal.h"
#include "mcp_json.h"
#ifndef ITEMS
#define ITEMS 2
#endif
mcp_json_t *vp_json_string_n(const char *v, size_t n);
static char name[4];
/* (separate objects: CBMC 6.11 misreads pointers into rows of a 2D array) */
static char mime0[3], mime1[3], data0[3], data1[3], data2[3];
static char *const mime[2] = { mime0, mime1 }, *const data[3] = { data0, data1, data2 };
static const char *uri_of(void) { return name; }

static unsigned nresp, ran, puts_, gets_, looks;
static bool err;
static int code;
static uint64_t rid;
static const char *rtext;
char *create_error_response(uint64_t id, mcp_error_code_t c, const char *m) { (void)m; nresp++; err = true; code = c; rid = id; char *s = malloc(1); return s; }
char *create_success_response(uint64_t id, char *result) { VP_ASSERT(result == rtext, "the result sent is the one built"); free(result); nresp++; err = false; rid = id; char *s = malloc(1); return s; }
mcp_json_t *mcp_json_parse(const char *s) {
    mcp_json_t *o = mcp_json_object_create();
    if (s[0] == 't') {
        mcp_json_object_set_property(o, "name", vp_json_string_n(name, 3));
        mcp_json_object_set_property(o, "arguments", mcp_json_object_create());
    } else mcp_json_object_set_property(o, "uri", vp_json_string_n(name, 3));
    return o;
}
bool mcp_auth_check_resource_access(const mcp_auth_context_t *c, const char *u) { (void)c; (void)u; return true; }
bool mcp_auth_check_tool_access(const mcp_auth_context_t *c, const char *u) { (void)c; (void)u; return true; }

/* content items, numbered, freed once */
static mcp_content_item_t *made[ITEMS + 1];
static unsigned freed[ITEMS + 1];
void mcp_content_item_free(mcp_content_item_t *c) {
    for (unsigned i = 0; i < ITEMS; i++) if (c == made[i]) freed[i]++;
}
static unsigned types;      /* item i has type (types >> 2i) & 3 */
static bool has_mime, has_data, tool_error;
static mcp_content_type_t type_of(unsigned i) {
    unsigned t = (types >> (2 * i)) & 3;
    return t == 0 ? MCP_CONTENT_TYPE_TEXT : t == 1 ? MCP_CONTENT_TYPE_JSON : MCP_CONTENT_TYPE_BINARY;
}
static mcp_content_item_t **items(size_t *n) {
    *n = ITEMS;
    mcp_content_item_t **l = malloc((ITEMS ? ITEMS : 1) * sizeof *l);
    for (unsigned i = 0; i < ITEMS; i++) {
        mcp_content_item_t *c = malloc(sizeof *c);
        c->type = type_of(i);
        c->mime_type = has_mime ? mime[i & 1] : NULL;
        c->data = has_data ? data[i] : NULL;
        c->data_size = 3;
        made[i] = l[i] = c;
    }
    return l;
}
static bool arg_seen;
static mcp_error_code_t tool_cb(mcp_server_t *s, const char *n, const mcp_json_t *p, void *u, mcp_content_item_t ***c, size_t *cn, bool *e, char **msg) {
    (void)s; (void)msg; (void)u;
    VP_ASSERT(vp_eq(n, name), "the tool named is the one called");
    arg_seen = p != NULL && mcp_json_get_type(p) == MCP_JSON_OBJECT;
    ran++; *c = items(cn); *e = tool_error; return MCP_ERROR_NONE;
}
static mcp_error_code_t res_cb(mcp_server_t *s, const char *n, void *u, mcp_content_item_t ***c, size_t *cn, char **msg) {
    (void)s; (void)u; (void)msg;
    VP_ASSERT(vp_eq(n, name), "the resource named is the one read");
    ran++; *c = items(cn); return MCP_ERROR_NONE;
}
static bool cached, routed;
int mcp_cache_get(mcp_resource_cache_t *c, const char *u, mcp_object_pool_t *p, mcp_content_item_t ***l, size_t *n) {
    (void)c; (void)p;
    gets_++;
    VP_ASSERT(vp_eq(u, name), "the cache is asked for the resource named");
    if (!cached) return -1;
    *l = items(n);
    return 0;
}
int mcp_cache_put(mcp_resource_cache_t *c, const char *u, mcp_object_pool_t *p, mcp_content_item_t **l, size_t n, int ttl) {
    (void)c; (void)p;
    puts_++;
    VP_ASSERT(vp_eq(u, name) && n == ITEMS && ttl > 0, "what is cached is what was read, for a limited time");
    for (unsigned i = 0; i < ITEMS; i++) VP_ASSERT(l[i] == made[i] && freed[i] == 0, "what is cached is still there");
    return 0;
}
mcp_error_code_t mcp_server_handle_template_resource(mcp_server_t *s, const char *u, mcp_content_item_t ***l, size_t *n, char **m) {
    (void)s; (void)m;
    VP_ASSERT(vp_eq(u, name), "the route is chosen by the resource named");
    if (!routed) return MCP_ERROR_RESOURCE_NOT_FOUND;
    ran++; *l = items(n);
    return MCP_ERROR_NONE;
}
static bool str_is(const mcp_json_t *o, const char *key, const char *v) {
    const mcp_json_t *j = mcp_json_object_get_property(o, key);
    const char *s = NULL;
    if (!j || mcp_json_get_type(j) != MCP_JSON_STRING || mcp_json_get_string(j, &s) != 0 || s == NULL) return false;
    return vp_eq(s, v);
}
#ifdef LIST
/* two registered entries */
static mcp_tool_param_schema_t par[2];
static mcp_tool_t tl[2];
static mcp_resource_t rs[2];
static mcp_resource_template_t tm[2];
static char t0[3], t1[3], d0[3], d1[3], p0[3], p1[3];
void mcp_hashtable_foreach(mcp_hashtable_t *t, void (*cb)(const void *, void *, void *), void *u) {
    (void)t;
    looks++;
    for (int i = 0; i < 2; i++) cb(i ? t1 : t0, LIST == 0 ? (void *)&tl[i] : LIST == 1 ? (void *)&rs[i] : (void *)&tm[i], u);
}
#endif
char *mcp_json_stringify(const mcp_json_t *r) {
    VP_ASSERT(r != NULL && mcp_json_get_type(r) == MCP_JSON_OBJECT, "a result is an object");
#ifdef LIST
    const mcp_json_t *a = mcp_json_object_get_property(r, LIST == 0 ? "tools" : LIST == 1 ? "resources" : "resourceTemplates");
    VP_ASSERT(a != NULL && mcp_json_array_get_size(a) == 2, "every registered entry is listed once");
    for (int i = 0; i < 2; i++) {
        const mcp_json_t *o = mcp_json_array_get_item(a, i);
        const char *n = i ? t1 : t0, *d = i ? d1 : d0;
        VP_ASSERT(str_is(o, "name", n), "listed under its name");
        if (has_data) VP_ASSERT(str_is(o, "description", d), "with its description");
        else VP_ASSERT(!mcp_json_object_has_property(o, "description"), "without a description it does not have");
        if (LIST == 1) VP_ASSERT(str_is(o, "uri", d) && str_is(o, "mimeType", n), "with its uri and type");
        if (LIST == 2) VP_ASSERT(str_is(o, "uriTemplate", d) && str_is(o, "mimeType", n), "with its template and type");
        if (LIST == 0) {
            const mcp_json_t *s = mcp_json_object_get_property(o, "inputSchema");
            if (i == 1) { VP_ASSERT(s == NULL, "no schema without parameters"); continue; }
            VP_ASSERT(s != NULL && str_is(s, "type", "object"), "a tool with parameters has an object schema");
            const mcp_json_t *p = mcp_json_object_get_property(s, "properties");
            VP_ASSERT(p != NULL, "the schema lists the parameters");
            const mcp_json_t *a0 = mcp_json_object_get_property(p, p0), *a1 = mcp_json_object_get_property(p, p1);
            VP_ASSERT(a0 && a1 && str_is(a0, "type", d0) && str_is(a1, "type", d1), "every parameter with its type");
            const mcp_json_t *q = mcp_json_object_get_property(s, "required");
            int want = par[0].required + par[1].required;
            VP_ASSERT(want == 0 ? q == NULL || mcp_json_array_get_size(q) == 0 : q != NULL && mcp_json_array_get_size(q) == want, "exactly the required parameters are marked");
            if (want > 0) {
                const char *v = NULL;
                mcp_json_get_string(mcp_json_array_get_item(q, 0), &v);
                VP_ASSERT(v && vp_eq(v, par[0].required ? p0 : p1), "the parameter marked is the required one");
            }
        }
    }
#else
    const mcp_json_t *a = mcp_json_object_get_property(r, TOOL ? "content" : "contents");
    VP_ASSERT(a != NULL && mcp_json_array_get_size(a) == ITEMS, "every item is returned once");
    for (int i = 0; i < ITEMS; i++) {
        const mcp_json_t *o = mcp_json_array_get_item(a, i);
        VP_ASSERT(o != NULL && mcp_json_get_type(o) == MCP_JSON_OBJECT, "items are objects");
        if (has_mime) VP_ASSERT(str_is(o, "mimeType", mime[i & 1]), "with their type, in order");
        else VP_ASSERT(!mcp_json_object_has_property(o, "mimeType"), "without a type they do not have");
        mcp_content_type_t t = type_of(i);
        if (TOOL) VP_ASSERT(str_is(o, "type", t == MCP_CONTENT_TYPE_TEXT ? "text" : t == MCP_CONTENT_TYPE_JSON ? "json" : "binary"), "with their kind");
        else VP_ASSERT(str_is(o, "uri", name), "with the resource's uri");
        if (t == MCP_CONTENT_TYPE_TEXT) {
            if (has_data) VP_ASSERT(str_is(o, "text", data[i]), "with their text, in order");
            else VP_ASSERT(!mcp_json_object_has_property(o, "text"), "without text they do not have");
        }
    }
    if (TOOL) {
        bool e = false;
        const mcp_json_t *j = mcp_json_object_get_property(r, "isError");
        VP_ASSERT(j != NULL && mcp_json_get_boolean(j, &e) == 0 && e == tool_error, "the tool's error flag is passed on");
    }
#endif
    char *s = malloc(1);
    rtext = s;
    return s;
}
void vp_harness(void) {
    mcp_auth_context_t c = { 0 };
    int cache, routes;
    mcp_server_t srv = { 0 };
    srv.capabilities.tools_supported = srv.capabilities.resources_supported = true;
    mcp_request_t rq = { 0 };
    rq.id = vp_u64();
    int ec = 77;
    char params[2] = { 0 };
    rq.params = params; rq.method = "m";
    has_data = HASD; has_mime = HASM;
    char *r;
#ifdef LIST
    char *s[] = { t0, t1, d0, d1, p0, p1 };
    for (int i = 0; i < 6; i++) { s[i][0] = "abcdpq"[i]; s[i][1] = i < 4 ? (char)vp_u8() : 'x'; s[i][2] = 0; }
    char *dd0 = has_data ? d0 : NULL, *dd1 = has_data ? d1 : NULL;
    par[0].name = p0; par[0].type = d0; par[0].description = dd0; par[0].required = HASM & 1;
    par[1].name = p1; par[1].type = d1; par[1].description = dd1; par[1].required = HASM >> 1;
    tl[0].name = t0; tl[0].description = dd0; tl[0].input_schema = par; tl[0].input_schema_count = 2;
    tl[1].name = t1; tl[1].description = dd1;
    rs[0].uri = d0; rs[0].name = t0; rs[0].mime_type = t0; rs[0].description = dd0;
    rs[1].uri = d1; rs[1].name = t1; rs[1].mime_type = t1; rs[1].description = dd1;
    tm[0].uri_template = d0; tm[0].name = t0; tm[0].mime_type = t0; tm[0].description = dd0;
    tm[1].uri_template = d1; tm[1].name = t1; tm[1].mime_type = t1; tm[1].description = dd1;
    srv.tools_table = srv.resources_table = srv.resource_templates_table = (void *)&cache;
    r = LIST == 0 ? handle_list_tools_request(&srv, NULL, &rq, &c, &ec) : LIST == 1 ? handle_list_resources_request(&srv, NULL, &rq, &c, &ec) : handle_list_resource_templates_request(&srv, NULL, &rq, &c, &ec);
    VP_ASSERT(r != NULL && nresp == 1 && !err && rid == rq.id && looks == 1, "a listing succeeds");
#else
    vp_str(name, 3);
    for (int i = 0; i < 2; i++) { mime[i][0] = (char)vp_u8(); mime[i][1] = (char)('0' + i); mime[i][2] = 0; VP_ASSUME(mime[i][0] != 0); }
    for (int i = 0; i < 3; i++) { data[i][0] = (char)vp_u8(); data[i][1] = (char)('0' + i); data[i][2] = 0; VP_ASSUME(data[i][0] != 0); }
    types = TYPES;
    tool_error = vp_bool();
    if (TOOL) {
        srv.tool_handler = tool_cb;
        params[0] = 't';
        r = handle_call_tool_request(&srv, NULL, &rq, &c, &ec);
        VP_ASSERT(ran == 1 && arg_seen, "the tool ran once, with its arguments");
#if TOOL
        VP_REACH(tool_error, "a tool reporting an error");
#endif
    } else {
        params[0] = 'r';
        cached = SRC == 1; routed = SRC == 2;
        srv.resource_handler = res_cb;
        srv.resource_cache = (void *)&cache; srv.template_routes_table = (void *)&routes;
        r = handle_read_resource_request(&srv, NULL, &rq, &c, &ec);
        VP_ASSERT(ran == (cached ? 0 : 1), "the content comes from one place");
        VP_ASSERT(puts_ == (cached ? 0 : 1), "new content is cached");
    }
    VP_ASSERT(r != NULL && nresp == 1 && !err && rid == rq.id && ec == MCP_ERROR_NONE, "the request succeeds");
    for (unsigned i = 0; i < ITEMS; i++) VP_ASSERT(freed[i] == 1, "every item is given back once");
#endif
    free(r);
}
