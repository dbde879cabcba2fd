/* Stand-in for the JSON value tree (decided under the JSON properties): the
 * same interface on nodes with a fixed number of members, without hashing. */
#include "vp.h"
#include "mcp_json.h"
#ifndef VP_JSON_KIDS
#define VP_JSON_KIDS 4
#endif
struct mcp_json {
    mcp_json_type_t type;
    int refs;
    bool b;
    double num;
    char *str;
    unsigned n;
    const char *name[VP_JSON_KIDS];
    mcp_json_t *kid[VP_JSON_KIDS];
};
static mcp_json_t *node(mcp_json_type_t t) {
    mcp_json_t *j = malloc(sizeof *j);
    if (!j) return NULL;
    j->type = t; j->refs = 1; j->b = false; j->num = 0; j->str = NULL; j->n = 0;
    return j;
}
static char *name_copy(const char *s) {
    size_t n = vp_len(s);
    char *d = malloc(n + 1);
    if (d) for (size_t i = 0; i <= n; i++) d[i] = s[i];
    return d;
}
static char *copy(const char *s) {
#ifdef VP_JSON_STR      /* strings of at most this length, in blocks of one size */
    char *d = malloc(VP_JSON_STR + 1);
    bool end = false;
    if (!d) return NULL;
    for (size_t i = 0; i < VP_JSON_STR; i++) {
        d[i] = end ? 0 : s[i];
        if (d[i] == 0) end = true;
    }
    VP_ASSUME(end || s[VP_JSON_STR] == 0);
    d[VP_JSON_STR] = 0;
    return d;
#else
    return name_copy(s);
#endif
}
mcp_json_t *mcp_json_null_create(void) { return node(MCP_JSON_NULL); }
mcp_json_t *mcp_json_boolean_create(bool v) { mcp_json_t *j = node(MCP_JSON_BOOLEAN); if (j) j->b = v; return j; }
mcp_json_t *mcp_json_number_create(double v) { mcp_json_t *j = node(MCP_JSON_NUMBER); if (j) j->num = v; return j; }
mcp_json_t *mcp_json_string_create(const char *v) {
    if (!v) return NULL;
    mcp_json_t *j = node(MCP_JSON_STRING);
    if (!j) return NULL;
    j->str = copy(v);
    return j->str ? j : NULL;
}
/* a string of at most n bytes, in a block of exactly n + 1 */
mcp_json_t *vp_json_string_n(const char *v, size_t n) {
    mcp_json_t *j = node(MCP_JSON_STRING);
    j->str = malloc(n + 1);
    for (size_t i = 0; i < n; i++) j->str[i] = v[i];
    j->str[n] = 0;
    return j;
}
mcp_json_t *mcp_json_array_create(void) { return node(MCP_JSON_ARRAY); }
mcp_json_t *mcp_json_array_create_with_capacity(size_t c) { (void)c; return node(MCP_JSON_ARRAY); }
mcp_json_t *mcp_json_object_create(void) { return node(MCP_JSON_OBJECT); }
mcp_json_t *mcp_json_object_create_with_capacity(size_t c) { (void)c; return node(MCP_JSON_OBJECT); }
mcp_json_type_t mcp_json_get_type(const mcp_json_t *j) { return j ? j->type : MCP_JSON_NULL; }
int mcp_json_get_boolean(const mcp_json_t *j, bool *v) { if (!j || !v || j->type != MCP_JSON_BOOLEAN) return -1; *v = j->b; return 0; }
int mcp_json_get_number(const mcp_json_t *j, double *v) { if (!j || !v || j->type != MCP_JSON_NUMBER) return -1; *v = j->num; return 0; }
int mcp_json_get_string(const mcp_json_t *j, const char **v) { if (!j || !v || j->type != MCP_JSON_STRING) return -1; *v = j->str; return 0; }
int mcp_json_array_get_size(const mcp_json_t *j) { return !j || j->type != MCP_JSON_ARRAY ? -1 : (int)j->n; }
mcp_json_t *mcp_json_array_get_item(const mcp_json_t *j, int i) {
    if (!j || j->type != MCP_JSON_ARRAY || i < 0 || (unsigned)i >= j->n) return NULL;
    return j->kid[i];
}
int mcp_json_array_add_item(mcp_json_t *j, mcp_json_t *v) {
    if (!j || !v || j->type != MCP_JSON_ARRAY) return -1;
    VP_ASSUME(j->n < VP_JSON_KIDS);
    j->kid[j->n] = v; j->name[j->n] = NULL; j->n++;
    return 0;
}
static int find(const mcp_json_t *j, const char *name) {
    if (!j || !name || j->type != MCP_JSON_OBJECT) return -1;
    for (int i = 0; i < VP_JSON_KIDS; i++)
        if ((unsigned)i < j->n && vp_eq(j->name[i], name)) return i;
    return -1;
}
bool mcp_json_object_has_property(const mcp_json_t *j, const char *name) { return find(j, name) >= 0; }
mcp_json_t *mcp_json_object_get_property(const mcp_json_t *j, const char *name) {
    int i = find(j, name);
    return i < 0 ? NULL : j->kid[i];
}
int mcp_json_object_set_property(mcp_json_t *j, const char *name, mcp_json_t *v) {
    if (!j || !name || !v || j->type != MCP_JSON_OBJECT) return -1;
    int i = find(j, name);
    if (i < 0) { VP_ASSUME(j->n < VP_JSON_KIDS); i = (int)j->n++; }
    j->name[i] = name_copy(name); j->kid[i] = v;
    return 0;
}
int mcp_json_increment_ref_count(mcp_json_t *j) { if (!j) return -1; j->refs++; return 0; }
/* like the original, releases what the node owns but not the node */
static bool drop(mcp_json_t *j) {
    if (!j || --j->refs > 0) return false;
    if (j->str) { free(j->str); j->str = NULL; }
    return true;
}
#ifdef VP_JSON_FREE     /* nodes too, for harnesses that count memory */
void mcp_json_destroy(mcp_json_t *j) {
    if (!drop(j)) return;
    for (unsigned i = 0; i < VP_JSON_KIDS; i++) if (i < j->n) { mcp_json_destroy(j->kid[i]); free((char *)j->name[i]); }
    free(j);
}
#else
void mcp_json_destroy(mcp_json_t *j) {
    if (!drop(j)) return;
    for (unsigned i = 0; i < VP_JSON_KIDS; i++) if (i < j->n) {
        mcp_json_t *k = j->kid[i];
        if (!drop(k)) continue;
        for (unsigned m = 0; m < VP_JSON_KIDS; m++) if (m < k->n) { drop(k->kid[m]); }
        k->n = 0;
    }
    j->n = 0;
}
#endif
