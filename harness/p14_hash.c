/* Hash table: map semantics.  Tables are built by every short history over
 * three keys (orders, collisions and growth enumerated so that the heap shape
 * stays concrete); the operation that follows uses a symbolic key, symbolic
 * hash values or symbolic contents. */
#include "vp.h"
#include "mcp_hashtable.h"

#ifdef CHAIN
#define NK 6
#else
#define NK 4
#endif
#define NV 12

static unsigned long hashes[NK + 1];
static int keyobj[NK + 1];
static int dup_live, fail_dup;
static int freed[NV];
static int val[NV];

static unsigned long h(const void *k) { return hashes[*(const int *)k]; }
static bool cmp(const void *a, const void *b) { return *(const int *)a == *(const int *)b; }
static void *kdup(const void *k) {
    if (fail_dup) return NULL;
    dup_live++; return (void *)k;
}
static void kfree(void *k) { (void)k; dup_live--; }
static void vfree(void *v) { freed[(int *)v - val]++; }

static int it_seen[NK + 1], it_bad;
static int *cur[NK + 1];
static int expect_freed[NV];
static size_t n;
static void cb(const void *k, void *v, void *u) {
    int i = *(const int *)k;
    it_seen[i]++;
    if (v != (void *)cur[i]) it_bad++;
    if (u != (void *)&it_bad) it_bad++;
}
static void reset(void) {
    n = 0; dup_live = 0; it_bad = 0;
    for (int i = 0; i <= NK; i++) { keyobj[i] = i; cur[i] = NULL; it_seen[i] = 0; }
    for (int i = 0; i < NV; i++) { freed[i] = 0; expect_freed[i] = 0; }
}
static void drop(int k) { if (cur[k]) { expect_freed[cur[k] - val]++; cur[k] = NULL; n--; } }
static void set(int k, int *v) { if (cur[k]) expect_freed[cur[k] - val]++; else n++; cur[k] = v; }

static void check_freed(void) {
    for (int i = 0; i < NV; i++) VP_ASSERT(freed[i] == expect_freed[i], "each value leaving the table is destroyed exactly once, no other is");
}
static void check(mcp_hashtable_t *t, int nk) {
    VP_ASSERT(mcp_hashtable_size(t) == n, "size is the number of live keys");
    for (int i = 0; i < nk; i++) {
        int probe = i;
        void *v = NULL;
        int r = mcp_hashtable_get(t, &probe, &v);
        VP_ASSERT((r == 0) == (cur[i] != NULL), "a key is found exactly if it is live");
        VP_ASSERT(r != 0 || v == (void *)cur[i], "lookup gives the latest value");
        VP_ASSERT(mcp_hashtable_contains(t, &probe) == (cur[i] != NULL), "contains agrees with lookup");
    }
    check_freed();
}
static void finish(mcp_hashtable_t *t, int nk) {
    mcp_hashtable_foreach(t, cb, &it_bad);
    VP_ASSERT(it_bad == 0, "iteration reports the current values");
    for (int i = 0; i < nk; i++) VP_ASSERT(it_seen[i] == (cur[i] != NULL), "iteration visits each live key once");
    mcp_hashtable_destroy(t);
    for (int i = 0; i < nk; i++) drop(i);
    check_freed();
    VP_ASSERT(dup_live == 0, "every key copy is released");
    VP_ASSERT(vp_live == 0, "destroy releases everything");
}

/* one concrete step of a history; op 0..2 put key, 3..5 remove key, 6 clear */
static void step(mcp_hashtable_t *t, int op, int s) {
    if (op < 3) {
        VP_ASSERT(mcp_hashtable_put(t, &keyobj[op], &val[s]) == 0, "put succeeds");
        set(op, &val[s]);
    } else if (op < 6) {
        int k = op - 3;
        int r = mcp_hashtable_remove(t, &keyobj[k]);
        VP_ASSERT((r == 0) == (cur[k] != NULL), "remove reports whether the key was present");
        drop(k);
    } else {
        mcp_hashtable_clear(t);
        for (int i = 0; i < 3; i++) drop(i);
    }
}
/* collision patterns of three keys: all equal, equal until the table grows, apart */
static const unsigned char pattern[][3] = { { 1, 1, 1 }, { 0, 2, 4 }, { 0, 1, 0 }, { 3, 2, 7 } };

#ifdef HIST
/* every history of HIST operations, then one more with a symbolic key of a symbolic hash value */
void vp_harness(void) {
    int base = 1;
    for (int i = 0; i < HIST; i++) base *= 7;
    for (int code = PART; code < base; code += 2) {
        const int p = PAT;
        reset();
        for (int i = 0; i < 3; i++) hashes[i] = pattern[p][i];
        mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, h, cmp, kdup, kfree, vfree);
        VP_NONNULL(t, "a table is created");
        int c = code;
        step(t, 2, 10);
        for (int s = 0; s < HIST; s++) { step(t, c % 7, s); c /= 7; }
        check(t, 3);
        VP_REACH(n >= 2, "two keys live");
#ifdef PROBE
        /* the symbolic key: one of the three, or a fourth with any hash */
        hashes[3] = vp_u64();
        uint8_t k = vp_u8();
        VP_ASSUME(k <= 3);
        int probe = k;
        void *v = NULL;
        int r = mcp_hashtable_get(t, &probe, &v);
        VP_ASSERT((r == 0) == (cur[k] != NULL), "a key is found exactly if it is live");
        VP_ASSERT(r != 0 || v == (void *)cur[k], "lookup gives the latest value");
        VP_REACH(r == 0, "symbolic key found");
        VP_REACH(r != 0, "symbolic key absent");
#endif
        finish(t, 3);
    }
}
#endif

#ifdef LAST
/* three concrete steps that leave keys in the table, then a put or removal of
 * a key with a symbolic hash, then the map is compared again */
static const unsigned char build[][3] = { { 0, 1, 2 }, { 0, 1, 1 }, { 2, 1, 4 }, { 0, 0, 3 } };
void vp_harness(void) {
    for (int p = 0; p < 4; p++)
    for (int b = 0; b < 4; b++) {
        reset();
        for (int i = 0; i < 3; i++) hashes[i] = pattern[p][i];
        mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, h, cmp, kdup, kfree, vfree);
        VP_NONNULL(t, "a table is created");
        for (int s = 0; s < 3; s++) step(t, build[b][s], s);
        hashes[3] = vp_u64();
        if (LAST == 0) {
            int r = mcp_hashtable_put(t, &keyobj[3], &val[9]);
            VP_ASSERT(r == 0, "put succeeds");
            set(3, &val[9]);
        } else {
            int k = vp_range(0, 3);
            int r = mcp_hashtable_remove(t, &k);
            VP_ASSERT((r == 0) == (cur[k] != NULL), "remove reports whether the key was present");
#if LAST == 1
            VP_REACH(r == 0, "removed");
#endif
            for (int i = 0; i < 4; i++) if (i == k) drop(i);
        }
        check(t, 4);
        VP_REACH(n >= 2, "several keys live");
    }
}
#endif

#ifdef CHAIN
/* a bucket of CHAIN keys: removal at every position, then of a symbolic key, then a new key at its end */
void vp_harness(void) {
    for (int gone = 0; gone < CHAIN; gone++) {
        reset();
        for (int i = 0; i < NK; i++) hashes[i] = 3;
        mcp_hashtable_t *t = mcp_hashtable_create(16, 0.75f, h, cmp, kdup, kfree, vfree);
        VP_NONNULL(t, "a table is created");
        for (int i = 0; i < CHAIN; i++) { VP_ASSERT(mcp_hashtable_put(t, &keyobj[i], &val[i]) == 0, "put succeeds"); set(i, &val[i]); }
        VP_ASSERT(mcp_hashtable_remove(t, &keyobj[gone]) == 0, "remove reports whether the key was present");
        drop(gone);
        check(t, CHAIN);
        int k = vp_range(0, CHAIN - 1);
        int r = mcp_hashtable_remove(t, &k);
        VP_ASSERT((r == 0) == (cur[k] != NULL), "remove reports whether the key was present");
        for (int i = 0; i < CHAIN; i++) if (i == k) drop(i);
        VP_REACH(r == 0, "removed");
        check(t, CHAIN);
    }
}
#endif

#ifdef STRKEYS
/* real string hash, symbolic probe string against a table of concrete keys */
static const char *const words[] = { "", "a", "ab", "abcd", "abce", "ba", "q", "abcdabcd", "abcdabce" };
#define NW 9
void vp_harness(void) {
    reset();
    mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, mcp_hashtable_string_hash, mcp_hashtable_string_compare,
                                              mcp_hashtable_string_dup, mcp_hashtable_string_free, vfree);
    VP_NONNULL(t, "a table is created");
    char buf[12];
    for (int i = 0; i < NW; i++) {
        int j = 0;
        for (; words[i][j]; j++) buf[j] = words[i][j];
        buf[j] = 0;
        VP_ASSERT(mcp_hashtable_put(t, buf, &val[i]) == 0, "put succeeds");
        for (int z = 0; z < 12; z++) buf[z] = 'z';   /* the table must own its copy */
    }
    VP_ASSERT(mcp_hashtable_remove(t, "ba") == 0 && mcp_hashtable_remove(t, "bb") != 0, "remove reports whether the key was present");
    VP_ASSERT(mcp_hashtable_size(t) == NW - 1, "size is the number of live keys");
    char probe[STRKEYS + 1];
    vp_str(probe, STRKEYS);
    int want = -1;
    for (int i = 0; i < NW; i++) if (i != 5 && vp_eq(words[i], probe)) want = i;
    void *v = NULL;
    int r = mcp_hashtable_get(t, probe, &v);
    VP_ASSERT((r == 0) == (want >= 0), "a string key is found exactly if it was stored");
    VP_ASSERT(r != 0 || v == (void *)&val[want], "lookup gives the value of that key");
    VP_ASSERT(mcp_hashtable_contains(t, probe) == (want >= 0), "contains agrees with lookup");
    VP_REACH(r == 0, "probe found");
    VP_REACH(r != 0, "probe absent");
    mcp_hashtable_destroy(t);
    VP_ASSERT(vp_live == 0, "destroy releases everything");
}
#endif

#ifdef INTKEYS
void vp_harness(void) {
    reset();
    mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, mcp_hashtable_int_hash, mcp_hashtable_int_compare,
                                              mcp_hashtable_int_dup, mcp_hashtable_int_free, NULL);
    VP_NONNULL(t, "a table is created");
    static const int ks[] = { 0, 1, -1, 17, 0x7fffffff, 65536 };
    for (int i = 0; i < 6; i++) { int k = ks[i]; VP_ASSERT(mcp_hashtable_put(t, &k, &val[i]) == 0, "put succeeds"); k = 3; }
    int probe = (int)vp_u32(), want = -1;
    for (int i = 0; i < 6; i++) if (ks[i] == probe) want = i;
    void *v = NULL;
    int r = mcp_hashtable_get(t, &probe, &v);
    VP_ASSERT((r == 0) == (want >= 0), "an integer key is found exactly if it was stored");
    VP_ASSERT(r != 0 || v == (void *)&val[want], "lookup gives the value of that key");
    VP_REACH(r == 0, "probe found");
    mcp_hashtable_destroy(t);
    VP_ASSERT(vp_live == 0, "destroy releases everything");
}
#endif

#ifdef BATCH
/* batches behave like the sequence of single operations */
void vp_harness(void) {
    for (int code = PART; code < 27; code += 2) {
        const int p = PAT;
        reset();
        for (int i = 0; i < 3; i++) hashes[i] = pattern[p][i];
        hashes[3] = 5;
        mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, h, cmp, kdup, kfree, vfree);
        VP_NONNULL(t, "a table is created");
        step(t, 0, 0);
        int ks[3] = { code % 3, code / 3 % 3, code / 9 };
        const void *keys[3] = { &keyobj[ks[0]], &keyobj[ks[1]], &keyobj[ks[2]] };
        void *vals[3] = { &val[1], &val[2], &val[3] };
        VP_ASSERT(mcp_hashtable_put_batch(t, keys, vals, 3) == 3, "a batch put reports how many were stored");
        for (int i = 0; i < 3; i++) set(ks[i], &val[1 + i]);
        check(t, 3);
        void *out[3]; int res[3];
        keys[1] = &keyobj[3];
        int got = mcp_hashtable_get_batch(t, keys, out, 3, res);
        VP_ASSERT(got == 2 && res[0] == 0 && res[1] != 0 && res[2] == 0, "a batch lookup reports each key");
        VP_ASSERT(out[0] == (void *)cur[ks[0]] && out[2] == (void *)cur[ks[2]], "a batch lookup gives each value");
        int rem = mcp_hashtable_remove_batch(t, keys, 3, res);
        VP_ASSERT(rem == (ks[0] == ks[2] ? 1 : 2) && res[0] == 0 && res[1] != 0 && (res[2] == 0) == (ks[2] != ks[0]), "a batch removal reports each key");
        drop(ks[0]); drop(ks[2]);
        check(t, 3);
        finish(t, 3);
        VP_REACH(true, "batch done");
    }
}
#endif

#ifdef GROW
/* many keys in one table: growth loses, duplicates and destroys nothing */
void vp_harness(void) {
    static int ks[GROW];
    static int vs[GROW];
    static int out[GROW];
    mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, mcp_hashtable_int_hash, mcp_hashtable_int_compare,
                                              mcp_hashtable_int_dup, mcp_hashtable_int_free, NULL);
    VP_NONNULL(t, "a table is created");
    for (int i = 0; i < GROW; i++) {
        ks[i] = i * 5; vs[i] = (int)vp_u32(); out[i] = vs[i];
        VP_ASSERT(mcp_hashtable_put(t, &ks[i], &vs[i]) == 0, "put succeeds");
    }
    VP_ASSERT(mcp_hashtable_size(t) == GROW, "size is the number of live keys");
    for (int i = 0; i < GROW; i += 3) VP_ASSERT(mcp_hashtable_remove(t, &ks[i]) == 0, "remove reports whether the key was present");
    for (int i = 0; i < GROW; i++) {
        void *v = NULL;
        int r = mcp_hashtable_get(t, &ks[i], &v);
        VP_ASSERT((r == 0) == (i % 3 != 0), "a key is found exactly if it is live");
        VP_ASSERT(r != 0 || (v == (void *)&vs[i] && *(int *)v == out[i]), "lookup gives the latest value");
    }
    mcp_hashtable_destroy(t);
    VP_ASSERT(vp_live == 0, "destroy releases everything");
    VP_REACH(true, "grown");
}
#endif

#ifdef FAULT
/* an allocation or key copy fails at any point: that put is refused and nothing else changes */
void vp_harness(void) {
    for (unsigned k = 0; k < 10; k++) {
        const int p = PAT;
        reset();
        for (int i = 0; i < 3; i++) hashes[i] = pattern[p][i];
        hashes[3] = 9;
        vp_oom_arm((uint64_t)1 << k);
        mcp_hashtable_t *t = mcp_hashtable_create(CAP, 0.75f, h, cmp, kdup, kfree, vfree);
        if (!t) {
            VP_ASSERT(vp_live == 0, "a failed creation leaks nothing");
            VP_REACH(true, "creation failed");
            vp_oom_off();
            continue;
        }
        for (int s = 0; s < 5; s++) {
            int key = s == 3 ? 1 : s % 4;
            unsigned before = vp_alloc_no;
            fail_dup = (k == 9 && s == 4);
            if (s == 4) key = 3;
            int r = mcp_hashtable_put(t, &keyobj[key], &val[s]);
            bool fault = (before <= k && k < vp_alloc_no) || fail_dup;
            fail_dup = 0;
            VP_ASSERT(r == 0 || fault, "put fails only when memory does");
            VP_REACH(r != 0, "put failed");
            if (r == 0) set(key, &val[s]);
            check(t, 4);
        }
        vp_oom_off();
        finish(t, 4);
    }
}
#endif
