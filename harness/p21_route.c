/* Gateway routing.  The JSON text layer is replaced by its results (it has
 * checks of its own); regular expressions by arbitrary verdicts. */
#include "vp.h"
#include "mcp_gateway.h"
#include "mcp_gateway_routing.h"
#include "mcp_gateway_config_manager.h"
#include "mcp_json.h"
#undef fopen
#undef fread
enum { OBJECT, NO_MEMBER, NOT_STRING, ARRAY, BROKEN, NO_PARAMS, SHAPES };
static const char TEXT[] = "params";
static int shape;
static const char *member;
static char value[5];
static mcp_json_t *config_tree;
mcp_json_t *mcp_json_parse(const char *t) {
    VP_ASSERT(t != NULL, "there is text to parse");
    if (config_tree) { mcp_json_t *c = config_tree; config_tree = NULL; return c; }
    VP_ASSERT(t[0] == 'p' && t[5] == 's', "the parameters' text is parsed");
    if (shape == BROKEN) return NULL;
    if (shape == ARRAY) return mcp_json_array_create();
    mcp_json_t *o = mcp_json_object_create();
    if (!o) return NULL;
    mcp_json_object_set_property(o, "x", mcp_json_string_create("zz"));
    if (shape == OBJECT) mcp_json_object_set_property(o, member, mcp_json_string_create(value));
    if (shape == NOT_STRING) mcp_json_object_set_property(o, member, mcp_json_number_create(7));
    return o;
}
static bool verdict[4];
static regex_t *rx[4];
static unsigned nrx;
int vp21_regexec(const regex_t *r, const char *s) {
    VP_ASSERT(vp_eq(s, value), "the URI is matched");
    for (unsigned i = 0; i < 4; i++) if (rx[i] == r) return verdict[i] ? 0 : REG_NOMATCH;
    VP_ASSERT(false, "a configured expression is used");
    return 1;
}
static int compiled_n, comp_fail = -1;
int vp21_regcomp(regex_t *r, const char *p) { (void)r; (void)p; if (compiled_n == comp_fail) return 1; compiled_n++; return 0; }
void vp21_regfree(regex_t *r) { (void)r; compiled_n--; }
static int file_left;
FILE *vp21_fopen(const char *p) { (void)p; static int f; file_left = 1; return (FILE *)&f; }
size_t vp21_fread(void *b, size_t n) { (void)n; if (!file_left) return 0; file_left = 0; *(char *)b = '['; return 1; }
/* strings here have at most 4 characters: blocks of one size */
char *mcp_strdup(const char *t) {
    char *d = malloc(5);
    bool end = false;
    if (!d) return NULL;
    for (int i = 0; i < 5; i++) { d[i] = end ? 0 : t[i]; if (!d[i]) end = true; }
    VP_ASSUME(end);
    return d;
}
static bool prefix(const char *p, const char *s) { for (; *p; p++, s++) if (*p != *s) return false; return true; }
/* two backends with two prefixes, two tools and a regular expression each */
#define NB 2
static mcp_backend_info_t B[NB];
static char p00[3], p01[3], p10[3], p11[3], t00[3], t01[3], t10[3], t11[3];
static char *pp0[2] = { p00, p01 }, *pp1[2] = { p10, p11 }, *tt0[2] = { t00, t01 }, *tt1[2] = { t10, t11 };
static regex_t re0[1], re1[1];
static void setup(void) {
    B[0].name = "A"; B[1].name = "B";
    B[0].routing.resource_prefixes = pp0; B[1].routing.resource_prefixes = pp1;
    B[0].routing.tool_names = tt0; B[1].routing.tool_names = tt1;
    B[0].routing.compiled_resource_regexes = re0; B[1].routing.compiled_resource_regexes = re1;
    static char *pat[1] = { "r" };
    B[0].routing.resource_regex_patterns = B[1].routing.resource_regex_patterns = pat;
    rx[0] = re0; rx[1] = re1; nrx = 2;
    for (int i = 0; i < 2; i++) verdict[i] = vp_bool();
    for (int i = 0; i < NB; i++) {
        B[i].routing.resource_prefix_count = vp_range(0, 2);
        B[i].routing.tool_name_count = vp_range(0, 2);
        B[i].routing.resource_regex_count = vp_range(0, 1);
    }
}
static int want(int m) {
    for (int i = 0; i < NB; i++) {
        if (m == 0) {
            for (size_t j = 0; j < B[i].routing.resource_prefix_count; j++) if (prefix(B[i].routing.resource_prefixes[j], value)) return i;
            if (B[i].routing.resource_regex_count && verdict[i]) return i;
        } else if (m == 1) {
            for (size_t j = 0; j < B[i].routing.tool_name_count; j++) if (vp_eq(B[i].routing.tool_names[j], value)) return i;
        }
    }
    return -1;
}
static mcp_request_t req(int m) {
    static char *names[] = { "read_resource", "call_tool", "ping", "read_resourc", "list_tools" };
    mcp_request_t r;
    memset(&r, 0, sizeof r);
    r.id = 9; r.method = names[m];
    r.params = shape == NO_PARAMS ? NULL : (void *)TEXT;
    member = m == 0 ? "uri" : "name";
    return r;
}
#if defined(FIND)
void vp_harness(void) {
    setup();
    vp_str(p00, 2); vp_str(p10, 2);
#if FIND == 0
    vp_str(p01, 2); vp_bytes(value, 3);
#else
    vp_str(t00, 2); vp_str(t10, 2); vp_str(t11, 2); vp_bytes(value, 3);
#endif
    uint32_t s = vp_range(0, SHAPES - 1), k = vp_range(0, 4), n = vp_range(0, 3);
    for (int i = 0; i < SHAPES; i++) if (s == (uint32_t)i) for (int m = 0; m < 5; m++) if (k == (uint32_t)m) for (uint32_t l = 0; l < 4; l++) if (n == l) {
        if ((FIND == 0 ? m == 1 : m != 1) || ((i != OBJECT || m > 1) && l != 1)) return;
        shape = i;
        value[l] = 0;
        for (uint32_t x = 0; x < l; x++) VP_ASSUME(value[x] != 0);
        mcp_request_t r = req(m);
        long live = vp_live;
        const mcp_backend_info_t *got = find_backend_for_request(&r, B, NB);
        VP_ASSERT(vp_live == live, "no memory is lost");
        int w = i == OBJECT && m < 2 ? want(m) : -1;
        VP_ASSERT(w >= 0 || !got, "a request no entry covers goes to no backend");
        VP_ASSERT(w != 0 || got == &B[0], "a request goes to the first backend that covers it");
        VP_ASSERT(w != 1 || got == &B[1], "and to a later one when the first does not");
        VP_REACH(true, "decided");
        return;
    }
}
#elif defined(MANAGER)
/* requests and reloads in turn: each is routed by itself and the current configuration */
static int loads, load_fails = -1;
static const char *cfg[3][2] = { { "a", "b" }, { "b", "a" }, { "c", "" } };
static mcp_backend_info_t *cur; static int cur_cfg;
mcp_error_code_t load_gateway_config(const char *path, mcp_backend_info_t **out, size_t *n) {
    VP_ASSERT(path && path[0] == 'c' && path[1] == 0, "the configured file is read");
    int l = loads++;
    *out = NULL; *n = 0;
    if (l == load_fails) return MCP_ERROR_PARSE_ERROR;
    mcp_backend_info_t *b = calloc(2, sizeof *b);
    if (!b) return MCP_ERROR_INTERNAL_ERROR;
    for (int i = 0; i < 2; i++) {
        b[i].name = malloc(2); b[i].name[0] = 'A'; b[i].name[1] = 0;
        b[i].routing.tool_names = malloc(sizeof(char *)); b[i].routing.tool_names[0] = malloc(2);
        b[i].routing.tool_names[0][0] = cfg[l][i][0]; b[i].routing.tool_names[0][1] = 0;
        b[i].routing.tool_name_count = 1;
        b[i].routing.resource_prefixes = malloc(sizeof(char *)); b[i].routing.resource_prefixes[0] = malloc(2);
        b[i].routing.resource_prefixes[0][0] = cfg[l][1 - i][0]; b[i].routing.resource_prefixes[0][1] = 0;
        b[i].routing.resource_prefix_count = cfg[l][1 - i][0] ? 1 : 0;
    }
    *out = b; *n = 2; cur = b; cur_cfg = l;
    return MCP_ERROR_NONE;
}
void mcp_free_backend_list(mcp_backend_info_t *b, size_t n) {
    for (size_t i = 0; i < n; i++) { free(b[i].name); free(b[i].routing.tool_names[0]); free(b[i].routing.tool_names); free(b[i].routing.resource_prefixes[0]); free(b[i].routing.resource_prefixes); }
    free(b);
}
static void ask(gateway_config_manager_t *m, int k, char c) {
    value[0] = c; value[1] = 0; shape = OBJECT;
    mcp_request_t r = req(k);
    const mcp_backend_info_t *got = gateway_config_manager_find_backend(m, &r);
    int w = -1;
    for (int i = 1; i >= 0; i--) if (cfg[cur_cfg][k == 0 ? 1 - i : i][0] == c && c) w = i;
    if (w < 0) VP_ASSERT(!got, "a request nobody covers goes to no backend");
    else VP_ASSERT(got == &cur[w], "a request is routed by its own content and the current configuration");
    VP_ASSERT_UNLOCKED();
}
static void step(gateway_config_manager_t *m, uint32_t o) {
    if (o == 4) {
        size_t n = 9;
        mcp_error_code_t e = gateway_config_manager_reload(m);
        VP_ASSERT((e == MCP_ERROR_NONE) == (loads - 1 != load_fails), "a reload succeeds when the file is good");
        const mcp_backend_info_t *b = gateway_config_manager_get_backends(m, &n);
        VP_ASSERT(b == cur && n == 2, "the current configuration is given");
        return;
    }
    ask(m, (int)(o & 1), (char)('a' + o / 2));
}
void vp_harness(void) {
    long live = vp_live;
    uint32_t b = vp_range(0, 4), c = vp_range(0, 3), f = vp_range(0, 1);
    for (int q = 0; q < 2; q++) if (f == (uint32_t)q)
    for (uint32_t j = 0; j < 5; j++) if (b == j) for (uint32_t k = 0; k < 4; k++) if (c == k) {
        load_fails = q ? 1 : -1;
        gateway_config_manager_t *m = gateway_config_manager_create("c");
        VP_ASSERT(m != NULL, "a manager is made");
        if (!m) return;
        step(m, MANAGER); step(m, j); step(m, k);
        VP_REACH(true, "a history");
        gateway_config_manager_destroy(m);
        VP_ASSERT(vp_live == live, "no memory is lost");
        return;
    }
}
#else
/* a configuration file becomes the backends it describes, or an error and nothing */
static mcp_json_t *strings(int n, const char *a, const char *b, bool bad) {
    mcp_json_t *x = mcp_json_array_create();
    if (n > 0) mcp_json_array_add_item(x, mcp_json_string_create(a));
    if (n > 1) mcp_json_array_add_item(x, bad ? mcp_json_number_create(1) : mcp_json_string_create(b));
    return x;
}
static mcp_json_t *backend(const char *name, int np, int nt, int nr, int bad) {
    mcp_json_t *o = mcp_json_object_create(), *r = mcp_json_object_create();
    if (bad != 1) mcp_json_object_set_property(o, "name", mcp_json_string_create(name));
    if (bad != 2) mcp_json_object_set_property(o, "address", mcp_json_string_create("t"));
    if (np >= 0) mcp_json_object_set_property(r, "resource_prefixes", strings(np, "p", "q", bad == 3));
    if (nt >= 0) mcp_json_object_set_property(r, "tool_names", strings(nt, "t", "u", bad == 4));
    if (nr >= 0) mcp_json_object_set_property(r, "resource_regexes", strings(nr, "r", "s", bad == 5));
    if (bad != 6) mcp_json_object_set_property(o, "routing", r); else mcp_json_destroy(r);
    mcp_json_object_set_property(o, "timeout_ms", mcp_json_number_create(50));
    return o;
}
static bool is(const char *a, const char *b) { return a && vp_eq(a, b); }
static void go(int bad, int n, uint32_t fault) {
    long live = vp_live;
    compiled_n = 0;
    comp_fail = bad == 7 ? 1 : -1;
    config_tree = mcp_json_array_create();
    mcp_json_array_add_item(config_tree, backend("A", n == 2 ? -1 : n, 2 - n, 1, 0));
    mcp_json_array_add_item(config_tree, backend("B", 2, 2, 2, bad));
    if (fault) vp_oom_arm(1ull << (fault - 1));
    mcp_backend_info_t *b = (mcp_backend_info_t *)&live; size_t k = 7;
    mcp_error_code_t e = load_gateway_config("c", &b, &k);
    vp_oom_off();
    VP_REACH(true, "a configuration");
    if (config_tree) { mcp_json_destroy(config_tree); config_tree = NULL; }
    if (e != MCP_ERROR_NONE) {
        VP_ASSERT(bad || fault, "a good configuration is accepted");
        VP_ASSERT(!b && k == 0, "nothing is handed out on failure");
    } else {
        VP_ASSERT(!bad, "a bad configuration is refused");
        VP_ASSERT(b && k == 2, "every backend is there");
        if (!b || k != 2) return;
        VP_ASSERT(is(b[0].name, "A") && is(b[1].name, "B") && is(b[1].address, "t") && b[1].timeout_ms == 50, "with its name, address and timeout, in order");
        VP_ASSERT(b[1].routing.resource_prefix_count == 2 && b[1].routing.tool_name_count == 2 && b[1].routing.resource_regex_count == 2, "with all its entries");
        VP_ASSERT(b[0].routing.resource_prefix_count == (size_t)(n == 2 ? 0 : n) && b[0].routing.tool_name_count == (size_t)(2 - n) && b[0].routing.resource_regex_count == 1, "and no others");
        VP_ASSERT(is(b[1].routing.resource_prefixes[0], "p") && is(b[1].routing.resource_prefixes[1], "q"), "its prefixes");
        VP_ASSERT(is(b[1].routing.tool_names[0], "t") && is(b[1].routing.tool_names[1], "u"), "its tools");
        VP_ASSERT(is(b[1].routing.resource_regex_patterns[0], "r") && is(b[1].routing.resource_regex_patterns[1], "s"), "its expressions");
        mcp_free_backend_list(b, k);
    }
    VP_ASSERT(compiled_n == 0, "every expression compiled is freed once");
    VP_ASSERT(vp_live == live, "no memory is lost");
}
void vp_harness(void) {
    uint32_t c = vp_range(0, 9), f = vp_range(0, 17);
    for (int i = 0; i < 10; i++) if (c == (uint32_t)i) {
#if LOAD == 0
        if (i < 8) go(i, 1, 0); else go(0, i == 8 ? 0 : 2, 0);
#else
        if (i) return;
        for (uint32_t g = 1; g < 18; g++) if (f == g) { go(0, 1, g); return; }
#endif
        return;
    }
}
#endif
