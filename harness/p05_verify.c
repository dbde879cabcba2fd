/* Credential verification: exactly the configured key authenticates. */
#include "vp.h"
#include "internal/server_internal.h"
int CRYPTO_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    unsigned char d = 0;
    for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
    return d;
}
static void check(const char *key, const char *cred, mcp_auth_type_t type, bool want) {
    mcp_server_t srv = { 0 };
    srv.config.api_key = key;
    mcp_auth_context_t *ctx = (mcp_auth_context_t *)&srv;
    int r = mcp_auth_verify(&srv, type, cred, &ctx);
    VP_ASSERT((r == 0) == want, "exactly the configured key, or no key where none is configured, authenticates");
    VP_ASSERT((ctx != NULL) == (r == 0), "an identity is handed out exactly on success");
    if (r == 0) {
#if !defined LDIFF || LDIFF == 0
        VP_REACH(true, "authenticated");
#endif
    }
    mcp_auth_context_free(ctx);
    VP_ASSERT(vp_live == 0, "nothing is leaked");
}
#ifdef SHORT
void vp_harness(void) {
    char key[SHORT + 1], cred[SHORT + 1];
    vp_str(key, SHORT); vp_str(cred, SHORT);
    uint32_t type = vp_u32();
    bool nokey = vp_bool(), nocred = vp_bool();
    bool empty = nokey || key[0] == 0;
    bool want = empty ? type == MCP_AUTH_NONE : type == MCP_AUTH_API_KEY && !nocred && vp_eq(key, cred);
    check(nokey ? NULL : key, nocred ? NULL : cred, (mcp_auth_type_t)type, want);
}
#endif
#ifdef LONG
/* long keys: all equal but one arbitrary byte, and different lengths */
void vp_harness(void) {
    static const unsigned char pos[] = { 0, 2, LONG / 2, LONG - 4, LONG - 1 };
    for (int k = 0; k < 5; k++) {
        char key[LONG + 1], cred[LONG + 3];
        for (int i = 0; i < LONG; i++) key[i] = cred[i] = 'a';
        key[LONG] = 0;
        unsigned n = LONG + LDIFF;
        for (unsigned i = LONG; i < n; i++) cred[i] = 'a';
        cred[n] = 0;
        uint8_t c = vp_u8();
        cred[pos[k]] = (char)c;
        check(key, cred, MCP_AUTH_API_KEY, LDIFF == 0 && c == 'a');
    }
}
#endif
#ifdef ACCESS
void vp_harness(void) {
    for (int k = 0; k < 2; k++) {
        mcp_server_t srv = { 0 };
        srv.config.api_key = k ? "ab" : NULL;
        mcp_auth_context_t *ctx = NULL;
        int r = mcp_auth_verify(&srv, k ? MCP_AUTH_API_KEY : MCP_AUTH_NONE, "ab", &ctx);
        VP_ASSERT(r == 0 && ctx != NULL, "the configured key authenticates");
        char name[4];
        vp_str(name, 3);
        vp_now = (int64_t)vp_u32();
        VP_ASSERT(mcp_auth_check_resource_access(ctx, name) && mcp_auth_check_tool_access(ctx, name), "an authenticated client has access to everything");
        VP_ASSERT(!mcp_auth_check_resource_access(NULL, name) && !mcp_auth_check_tool_access(NULL, name), "nobody else has");
        mcp_auth_context_free(ctx);
    }
}
#endif
#ifdef OOM
void vp_harness(void) {
    for (unsigned k = 0; k < 8; k++) {
        vp_oom_arm((uint64_t)1 << k);
        mcp_server_t srv = { 0 };
        srv.config.api_key = vp_bool() ? NULL : "ab";
        mcp_auth_context_t *ctx = NULL;
        int r = mcp_auth_verify(&srv, srv.config.api_key ? MCP_AUTH_API_KEY : MCP_AUTH_NONE, "ab", &ctx);
        bool fault = vp_alloc_no > k;
        VP_ASSERT((r == 0) == !fault && (ctx != NULL) == !fault, "without memory nobody is authenticated");
        vp_oom_off();
        mcp_auth_context_free(ctx);
        VP_ASSERT(vp_live == 0, "a failed authentication leaks nothing");
        VP_REACH(k == 4 && fault, "late fault");
    }
}
#endif
