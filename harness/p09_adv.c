/* The advanced rate limiter against reference models of its four algorithms.
 * Rates are multiples of a quarter so that the doubles are exact. */
#include "vp.h"
#include "mcp_advanced_rate_limiter.h"
#ifdef VP_READERS
extern int vp_write_held;
#undef calloc
#endif
static mcp_advanced_rate_limiter_t *L;
static const char *keys[2] = { "a", "b" };
static long total, ok_n;
static bool check(int k) {
    bool r = mcp_advanced_rate_limiter_check(L, keys[k], NULL, NULL, NULL);
    VP_ASSERT_UNLOCKED();
    total++;
    if (r) ok_n++;
    return r;
}
static void stats(void) {
    mcp_advanced_rate_limiter_stats_t s;
    VP_ASSERT(mcp_advanced_rate_limiter_get_stats(L, &s), "statistics are given");
    VP_ASSERT((long)s.total_requests == total && (long)s.allowed_requests == ok_n && (long)s.denied_requests == total - ok_n, "every decision is counted once");
}
static void create(void) {
    mcp_advanced_rate_limiter_config_t c;
    memset(&c, 0, sizeof c);
    c.capacity_hint = 1;
    L = mcp_advanced_rate_limiter_create(&c);
}
/* the model */
typedef struct { int alg; long window, max; long rate4, cap; } rule_t;   /* rate in quarters per second */
typedef struct { bool known; int alg; long start, count; long t[8]; int nt; long level4, last; } state_t;
static state_t S[2];
static bool model(state_t *s, const rule_t *r, long now) {
    if (!s->known || s->alg != r->alg) {
        s->known = true; s->alg = r->alg; s->start = now; s->count = 0; s->nt = 0; s->last = now;
        s->level4 = r->alg == MCP_RATE_LIMIT_TOKEN_BUCKET ? 4 * r->cap : 0;
    }
    long n = 0;
    switch (r->alg) {
    case MCP_RATE_LIMIT_FIXED_WINDOW:
        if (now - s->start >= r->window) { s->start = now; s->count = 0; }
        if (s->count >= r->max) return false;
        s->count++;
        return true;
    case MCP_RATE_LIMIT_SLIDING_WINDOW:
        for (int i = 0; i < s->nt; i++) if (now - s->t[i] < r->window) n++;
        if (n >= r->max) return false;
        s->t[s->nt++] = now;
        return true;
    case MCP_RATE_LIMIT_TOKEN_BUCKET:
        s->level4 += (now - s->last) * r->rate4;
        s->last = now;
        if (s->level4 > 4 * r->cap) s->level4 = 4 * r->cap;
        if (s->level4 < 4) return false;
        s->level4 -= 4;
        return true;
    default:
        s->level4 -= (now - s->last) * r->rate4;
        s->last = now;
        if (s->level4 < 0) s->level4 = 0;
        if (s->level4 + 4 > 4 * r->cap) return false;
        s->level4 += 4;
        return true;
    }
}
static bool add(const rule_t *r, const char *pattern, int priority) {
    mcp_rate_limit_rule_t x;
    if (r->alg < MCP_RATE_LIMIT_TOKEN_BUCKET) x = mcp_advanced_rate_limiter_create_default_rule(MCP_RATE_LIMIT_KEY_IP, r->alg, (size_t)r->window, (size_t)r->max);
    else if (r->alg == MCP_RATE_LIMIT_TOKEN_BUCKET) x = mcp_advanced_rate_limiter_create_token_bucket_rule(MCP_RATE_LIMIT_KEY_IP, (double)r->rate4 / 4, (size_t)r->cap);
    else x = mcp_advanced_rate_limiter_create_leaky_bucket_rule(MCP_RATE_LIMIT_KEY_IP, (double)r->rate4 / 4, (size_t)r->cap);
    x.key_pattern = (char *)pattern;
    x.priority = priority;
    return mcp_advanced_rate_limiter_add_rule(L, &x);
}
static const rule_t rules[][4] = {
    { { 0, 3, 2, 0, 0 }, { 0, 2, 1, 0, 0 }, { 0, 3, 0, 0, 0 }, { 0, 1, 3, 0, 0 } },
    { { 1, 3, 2, 0, 0 }, { 1, 2, 1, 0, 0 }, { 1, 3, 3, 0, 0 }, { 1, 3, 0, 0, 0 } },
    { { 2, 0, 0, 4, 2 }, { 2, 0, 0, 1, 1 }, { 2, 0, 0, 6, 3 }, { 2, 0, 0, 2, 0 } },
    { { 3, 0, 0, 4, 2 }, { 3, 0, 0, 1, 1 }, { 3, 0, 0, 6, 3 }, { 3, 0, 0, 2, 0 } },
};
#if defined(HISTORY)
/* one rule, STEPS checks by two clients, the clock moving in between */
static void go(int n, const rule_t *r) {
    if (n == 0) { stats(); VP_REACH(true, "a history"); return; }
    uint32_t dt = n < STEPS ? vp_range(0, 4) : 0;
    uint32_t k = n == 2 ? vp_range(0, 1) : 0;
    for (uint32_t d = 0; d < 5; d++) if (dt == d) for (uint32_t c = 0; c < 2; c++) if (k == c) {
        vp_now += d;
        bool want = model(&S[c], r, (long)vp_now);
        bool got = check((int)c);
        VP_ASSERT(got == want, "a request is admitted exactly when its allowance permits");
        go(n - 1, r);
        return;
    }
}
void vp_harness(void) {
    create();
    if (!L) return;
    const rule_t *r = &rules[ALG][HISTORY];
    bool a = add(r, NULL, 0);
    VP_ASSERT(a, "a rule is added");
    go(STEPS, r);
}
#elif defined(CHANGE)
/* the rule is replaced between checks */
static void burst(int n, const rule_t *r) {
    for (int i = 0; i < n; i++) {
        bool want = model(&S[0], r, (long)vp_now);
        bool got = check(0);
        VP_ASSERT(got == want, "a request is admitted exactly when the rule that applies now permits");
    }
}
static void go(int a, int b, uint32_t d1, uint32_t d2) {
    const rule_t *x = &rules[CHANGE][a], *y = &rules[b / 4][b % 4];
    long live = vp_live;
    create();
    if (!L) return;
    add(x, "a*", 0);
    burst(2, x);
    vp_now += d1;
    burst(1, x);
    bool rm = mcp_advanced_rate_limiter_remove_rule(L, MCP_RATE_LIMIT_KEY_IP, "a*");
    VP_ASSERT(rm, "the rule is removed");
    add(y, "a*", 0);
    vp_now += d2;
    burst(3, y);
    stats();
    VP_REACH(true, "a changed rule");
    mcp_advanced_rate_limiter_destroy(L);
    VP_ASSERT(vp_live == live, "no memory is lost");
}
void vp_harness(void) {
    uint32_t b = vp_range(0, 15), t = vp_range(0, 3);
    for (uint32_t j = 0; j < 16; j++) if (b == j) for (uint32_t u = 0; u < 4; u++) if (t == u) {
        if ((j / 4 == CHANGE) == !SAME) return;
        if (j / 4 != CHANGE && u) return;
        go(RULE, (int)j, u & 1, u / 2);
        return;
    }
}
#elif defined(MATCH)
/* which of two rules applies to a key */
static bool matches(const char *p, const char *k) {
    if (!p) return true;
    size_t n = 0, m = 0;
    while (p[n]) n++;
    while (k[m]) m++;
    bool s = n && p[0] == '*', e = n > 1 && p[n - 1] == '*';
    size_t o = s ? 1 : 0, l = n - o - (e ? 1 : 0);
    if (!s && !e) return vp_eq(p, k);
    for (size_t i = 0; i + l <= m; i++) {
        if (!s && i) break;
        if (!e && i + l != m) continue;
        size_t j = 0;
        while (j < l && p[o + j] == k[i + j]) j++;
        if (j == l) return true;
    }
    return false;
}
void vp_harness(void) {
    static const rule_t none = { 0, 10, 0, 0, 0 }, all = { 0, 10, 9, 0, 0 };
    char p[5], k[4];
    vp_str(p, MATCH == 0 ? 4 : 3); vp_str(k, 3);
    if (!p[0] || !k[0]) return;
    for (int i = 1; p[i]; i++) if (p[i] == '*' && p[i + 1]) return;              /* a star in the middle */
    if ((p[0] == '*' && !p[1]) || (p[0] == '*' && p[1] == '*' && !p[2])) return; /* only stars: left open */
    for (int i = 0; k[i]; i++) if (k[i] == '*') return;
    create();
    if (!L) return;
    int pa = (int)vp_range(0, 4) - 2, pb = (int)vp_range(0, 4) - 2;
    keys[0] = k;
    bool m = matches(p, k);
#if MATCH == 0
    add(&all, p, pa);
    bool got = check(0);
    VP_ASSERT(got == m, "a key is admitted when a rule covers it");
    (void)pb;
#else
    VP_ASSUME(pa != pb);
    add(MATCH == 1 ? &all : &none, p, pa);
    add(MATCH == 1 ? &none : &all, NULL, pb);
    bool got = check(0);
    bool first = m && pa > pb;
    VP_ASSERT(got == (first == (MATCH == 1)), "the covering rule of the highest priority decides");
#endif
    VP_REACH(m, "covered"); VP_REACH(!m, "not covered");
    stats();
}
#elif defined(VP_READERS)
/* another check while one waits for memory */
static bool in, armed;
static int which, calls;
void *vp9_calloc(size_t n, size_t s) {
    if (armed && !in && !vp_write_held && calls++ == which) { in = true; check(0); in = false; }
    return calloc(n, s);
}
static void raced(void) {
    armed = true;
    check(0);
    armed = false;
    for (int i = 0; i < 3; i++) check(0);
    VP_ASSERT(ok_n == 2, "two requests are admitted, whoever made them");
    VP_REACH(true, "raced");
    stats();
}
void vp_harness(void) {
    create();
    if (!L) return;
    const rule_t *r = &rules[ALG][0];
    add(r, NULL, 0);
    uint32_t w = vp_range(0, 1);
    for (int i = 0; i < 2; i++) if (w == (uint32_t)i) { which = i; raced(); return; }
}
#else
/* any one allocation fails; many clients; clearing */
void vp_harness(void) {
    uint32_t f = vp_range(0, 11);
    for (uint32_t i = 0; i < 12; i++) if (f == i) {
        long live = vp_live;
        const rule_t *r = &rules[ALG][0], *q = &rules[(ALG + 1) % 4][0];
        vp_oom_arm(1ull << i);
        create();
        bool a = L && add(r, "a", 0);
        int n = 0;
        for (int j = 0; j < 4; j++) if (a && check(0)) n++;
        VP_ASSERT(n <= 2, "no more is admitted than the rule allows");
        if (a) {
            mcp_advanced_rate_limiter_remove_rule(L, MCP_RATE_LIMIT_KEY_IP, "a");
            if (add(q, "a", 0)) {
                n = 0;
                for (int j = 0; j < 4; j++) if (check(0)) n++;
                VP_ASSERT(n <= 2, "nor under another rule");
            }
            vp_oom_off();
            stats();
        }
        VP_REACH(true, "a failing allocation");
        vp_oom_off();
        if (L) mcp_advanced_rate_limiter_destroy(L);
        VP_ASSERT(vp_live == live, "no memory is lost");
        VP_ASSERT_UNLOCKED();
        return;
    }
}
#endif
