/* Basic rate limiter: exact quota per client and window, for every history. */
#include "vp.h"
#include "mcp_rate_limiter.h"

#ifndef STEPS
#define STEPS 5
#endif
#define MAXC 30

static uint32_t window, max;
static bool started[MAXC];
static int64_t start[MAXC];
static uint32_t used[MAXC];

static bool expect(int c) {
    if (!started[c] || vp_now >= start[c] + (int64_t)window) {
        started[c] = true; start[c] = vp_now; used[c] = 1;
        return true;
    }
    if (used[c] < max) { used[c]++; return true; }
    return false;
}
static void reset(void) {
    for (int i = 0; i < MAXC; i++) { started[i] = false; start[i] = 0; used[i] = 0; }
}
static void step(mcp_rate_limiter_t *l, const char *key, int c) {
    bool want = expect(c);
    bool got = mcp_rate_limiter_check(l, key);
    VP_ASSERT(!(got && !want), "no request beyond the quota of the window is admitted");
    VP_ASSERT(!(!got && want), "a request within the quota is admitted");
    VP_ASSERT_UNLOCKED();
    VP_REACH(!got, "denied");
}

#ifdef PATTERNS
/* pairs chosen to cover separate buckets, one bucket, equal full hash, prefixes, the empty id */
static const char *const pair[][2] = {
    { "alice", "bob" }, { "a", "q" }, { "ab", "bA" }, { "10.0.0.1", "10.0.0.12" }, { "", "a" } };
/* every order of two clients over STEPS checks; times, window, quota symbolic */
void vp_harness(void) {
    window = vp_range(1, 0x7fffffff); max = vp_u32();
    VP_ASSUME(max >= 1);
    int64_t t0 = 1 + (int64_t)vp_u32();
    for (unsigned pat = 0; pat < (1u << STEPS); pat += 2) {
        reset();
        vp_now = t0;
        mcp_rate_limiter_t *l = mcp_rate_limiter_create(pat % 3, window, max);
        VP_NONNULL(l, "a limiter with a positive window and quota is created");
        for (int s = 0; s < STEPS; s++) {
            vp_now += vp_u32();
            int c = (pat >> s) & 1;
            step(l, pair[PATTERNS][c], c);
        }
        VP_REACH(used[0] == max && used[1] == 1 && max == 2, "one client exhausted, the other not");
        mcp_rate_limiter_destroy(l);
        VP_ASSERT(vp_live == 0, "destroying the limiter releases everything");
    }
    VP_ASSERT(mcp_rate_limiter_create(1, 0, 1) == NULL && mcp_rate_limiter_create(1, 1, 0) == NULL, "a limiter without window or quota is refused");
}
#endif

#ifdef GROWTH
/* more clients than the table was made for: growth keeps every counter */
#define N GROWTH
void vp_harness(void) {
    window = vp_range(1, 0x7fffffff); max = vp_range(1, 5);
    vp_now = 1 + (int64_t)vp_u32();
    reset();
    mcp_rate_limiter_t *l = mcp_rate_limiter_create(1, window, max);
    VP_NONNULL(l, "a limiter with a positive window and quota is created");
    char id[4] = "c0";
    for (int round = 0; round < 2; round++)
        for (int i = 0; i < N; i++) {
            vp_now += vp_u16();
            id[1] = (char)('0' + (round ? N - 1 - i : i));
            step(l, id, round ? N - 1 - i : i);
        }
    VP_ASSERT(!mcp_rate_limiter_check(NULL, id) && !mcp_rate_limiter_check(l, NULL), "invalid arguments are denied");
    mcp_rate_limiter_destroy(l);
    VP_ASSERT(vp_live == 0, "destroying the limiter releases everything");
}
#endif

#ifdef OOM
/* one allocation fails, at every position: the request is refused, nothing else changes */
void vp_harness(void) {
    window = 10; max = 2;
    int64_t t0 = 1 + (int64_t)vp_u32();
    for (unsigned k = 0; k < 10; k++) {
        reset();
        vp_now = t0;
        vp_oom_arm((uint64_t)1 << k);
        mcp_rate_limiter_t *l = mcp_rate_limiter_create(1, window, max);
        if (!l) {
            VP_ASSERT(vp_live == 0, "a failed creation leaks nothing");
            VP_REACH(true, "creation failed");
            vp_oom_off();
            continue;
        }
        for (int s = 0; s < 4; s++) {
            vp_now += vp_u16();
            unsigned before = vp_alloc_no;
            int c = s % 2;
            bool fault = false;
            bool got = mcp_rate_limiter_check(l, c ? "bob" : "alice");
            fault = before <= k && k < vp_alloc_no;
            if (fault) { VP_ASSERT(!got, "without memory the request is refused"); VP_REACH(true, "check failed"); }
            else VP_ASSERT(got == expect(c), "a fault leaves the other decisions unchanged");
            VP_ASSERT_UNLOCKED();
        }
        mcp_rate_limiter_destroy(l);
        VP_ASSERT(vp_live == 0, "destroying the limiter releases everything");
        vp_oom_off();
    }
}
#endif
