/* Stand-in for the hash table (decided under its own property): a list of at
 * most VP_HT entries behind the same interface. */
#include "vp.h"
#include "mcp_hashtable.h"
#ifndef VP_HT
#define VP_HT 4
#endif
typedef struct { mcp_hashtable_t t; unsigned n; void *key[VP_HT], *val[VP_HT]; } tab;
#ifdef VP_CBMC      /* an object of the table's type */
#undef malloc
static tab *tab_new(void) {
    if (vp_oom_mask) { unsigned k = vp_alloc_no++; if (k < 64 && (vp_oom_mask >> k & 1)) return NULL; }
    vp_live++;
    return malloc(sizeof(tab));
}
#define malloc vp_malloc
#else
static tab *tab_new(void) { return malloc(sizeof(tab)); }
#endif
mcp_hashtable_t *mcp_hashtable_create(size_t cap, float lf, mcp_hash_func_t hf, mcp_key_compare_func_t kc, mcp_key_dup_func_t kd, mcp_key_free_func_t kf, mcp_value_free_func_t vf) {
    (void)cap; (void)lf; (void)hf;
    tab *t = tab_new();
    if (!t) return NULL;
    t->t.key_compare = kc; t->t.key_dup = kd; t->t.key_free = kf; t->t.value_free = vf; t->t.size = 0;
    t->n = 0;
    return &t->t;
}
static int find(tab *t, const void *key) {
    for (unsigned i = 0; i < VP_HT; i++) if (i < t->n && t->t.key_compare(t->key[i], key)) return (int)i;
    return -1;
}
int mcp_hashtable_put(mcp_hashtable_t *h, const void *key, void *v) {
    tab *t = (tab *)h;
    if (!t || !key) return -1;
    int i = find(t, key);
    if (i >= 0) { if (t->t.value_free) t->t.value_free(t->val[i]); t->val[i] = v; return 0; }
    void *k = t->t.key_dup ? t->t.key_dup(key) : (void *)key;
    if (!k) return -1;
    VP_ASSUME(t->n < VP_HT);
    t->key[t->n] = k; t->val[t->n] = v; t->n++; t->t.size = t->n;
    return 0;
}
int mcp_hashtable_get(mcp_hashtable_t *h, const void *key, void **v) {
    tab *t = (tab *)h;
    if (!t || !key || !v) return -1;
    int i = find(t, key);
    if (i < 0) return -1;
    *v = t->val[i];
    return 0;
}
bool mcp_hashtable_contains(mcp_hashtable_t *h, const void *key) { return h && key && find((tab *)h, key) >= 0; }
size_t mcp_hashtable_size(const mcp_hashtable_t *h) { return h ? ((tab *)h)->n : 0; }
int mcp_hashtable_remove(mcp_hashtable_t *h, const void *key) {
    tab *t = (tab *)h;
    if (!t || !key) return -1;
    int i = find(t, key);
    if (i < 0) return -1;
    if (t->t.key_free) t->t.key_free(t->key[i]);
    if (t->t.value_free) t->t.value_free(t->val[i]);
    t->n--; t->t.size = t->n;
    t->key[i] = t->key[t->n]; t->val[i] = t->val[t->n];
    return 0;
}
void mcp_hashtable_foreach(mcp_hashtable_t *h, void (*cb)(const void *, void *, void *), void *u) {
    tab *t = (tab *)h;
    if (!t || !cb) return;
    for (unsigned i = 0; i < VP_HT; i++) if (i < t->n) cb(t->key[i], t->val[i], u);
}
void mcp_hashtable_clear(mcp_hashtable_t *h) {
    tab *t = (tab *)h;
    if (!t) return;
    for (unsigned i = 0; i < VP_HT; i++) if (i < t->n) {
        if (t->t.key_free) t->t.key_free(t->key[i]);
        if (t->t.value_free) t->t.value_free(t->val[i]);
    }
    t->n = 0; t->t.size = 0;
}
void mcp_hashtable_destroy(mcp_hashtable_t *h) { if (h) { mcp_hashtable_clear(h); free(h); } }
unsigned long mcp_hashtable_string_hash(const void *k) { (void)k; return 0; }
bool mcp_hashtable_string_compare(const void *a, const void *b) { return vp_eq(a, b); }
void *mcp_hashtable_string_dup(const void *k) {
    size_t n = vp_len(k);
    char *d = malloc(n + 1);
    if (d) for (size_t i = 0; i <= n; i++) d[i] = ((const char *)k)[i];
    return d;
}
void mcp_hashtable_string_free(void *k) { free(k); }
