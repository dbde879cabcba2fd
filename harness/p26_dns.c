/* Cached name lookups. */
#include "vp.h"
#include "internal/connection_pool_internal.h"

#ifdef LONGNAMES
static const char *const host[3] = { "abcdefgh1", "abcdefgh2", "abcdefgh1" };
static const int port[3] = { 7, 7, 8 };
#else
static const char *const host[3] = { "a", "b", "a" };
static const int port[3] = { 7, 7, 8 };
#endif
#define MAXL 16
/* what the resolver gave out */
static struct { struct addrinfo *ai; const char *host; int port; int held; int64_t at; bool freed; } look[MAXL];
static unsigned n_look;
static struct addrinfo *held[MAXL];
static unsigned held_by[MAXL];
static unsigned n_held;
static bool fails;

int vpx_getaddrinfo(const char *h, const char *p, struct addrinfo **r) {
    if (fails) return -2;
    VP_ASSERT(n_look < MAXL, "bound of the harness");
    struct addrinfo *a = malloc(sizeof *a);
    if (!a) return -10;
    look[n_look].ai = a;
    look[n_look].host = h;
    look[n_look].port = p[0] - '0';
    VP_ASSERT(p[1] == 0, "the resolver is asked for the port");
    look[n_look].held = 0;
    look[n_look].at = vp_now;
    look[n_look].freed = false;
    n_look++;
    *r = a;
    return 0;
}
static int which(const struct addrinfo *a) {
    for (unsigned i = 0; i < n_look; i++) if (look[i].ai == a && !look[i].freed) return (int)i;
    return -1;
}
void vpx_freeaddrinfo(struct addrinfo *a) {
    int i = which(a);
    VP_ASSERT(i >= 0, "a result is freed once");
    if (i < 0) return;
    VP_ASSERT(look[i].held == 0, "a result in use is not freed");
    look[i].freed = true;
    free(a);
}
static void get(unsigned h) {
    static struct addrinfo hints;
    struct addrinfo *a = dns_cache_get(host[h], port[h], &hints);
    if (fails && !a) return;
    VP_NONNULL(a, "a name that can be resolved is found");
    int i = which(a);
    VP_ASSERT(i >= 0, "a result handed out is valid");
    if (i < 0) return;
    VP_ASSERT(vp_eq(look[i].host, host[h]) && look[i].port == port[h], "the result belongs to the host and port asked for");
    VP_ASSERT(vp_now - look[i].at <= 300, "an expired result is not handed out anew");
    look[i].held++;
    held[n_held] = a;
    held_by[n_held++] = h;
}
static void release(unsigned k) {
    struct addrinfo *a = held[k];
    int i = which(a);
    VP_ASSERT(i >= 0, "a result stays valid until it is released");
    if (i >= 0) look[i].held--;
    for (unsigned j = k; j + 1 < n_held; j++) { held[j] = held[j + 1]; held_by[j] = held_by[j + 1]; }
    n_held--;
    dns_cache_release(a);
}
/* what is held is untouched */
static void check(void) {
    for (unsigned k = 0; k < n_held; k++) {
        int i = which(held[k]);
        VP_ASSERT(i >= 0 && vp_eq(look[i].host, host[held_by[k]]) && look[i].port == port[held_by[k]], "a result stays valid until it is released");
    }
    VP_ASSERT_UNLOCKED();
}
static void op(unsigned o) {
    if (o < 3) get(o);
    else if (o == 3) { if (n_held) release(0); }
    else if (o == 4) { if (n_held) release(n_held - 1); }
    else if (o == 5) dns_cache_clear();
    else if (o == 6) vp_now += 301;
    else if (o == 7) vp_now += 150;
}
static void finish(void) {
    check();
    while (n_held) release(0);
    check();
    /* a result just looked up is found again while there is room */
    get(0);
    unsigned n = n_look;
    get(0);
#ifndef LONGNAMES
    VP_ASSERT(n_look == n, "a fresh result is not looked up again");
#endif
    release(0); release(0);
    dns_cache_cleanup();
    for (unsigned i = 0; i < n_look; i++) VP_ASSERT(look[i].freed, "every result is freed in the end");
    VP_ASSERT(vp_live == 0, "nothing is left behind");
}

#ifdef HIST
static const char prefix[] = HIST;
static void tail(unsigned left) {
    if (left == 0) { finish(); return; }
    unsigned o = vp_range(0, 7);
    for (unsigned i = 0; i < 8; i++) if (o == i) { op(i); check(); if (left > 1) { unsigned p = vp_range(0, 7); for (unsigned j = 0; j < 8; j++) if (p == j) { op(j); finish(); return; } } finish(); return; }
}
void vp_harness(void) {
    vp_now = 1000;
    dns_cache_init();
    for (unsigned i = 0; prefix[i]; i++) { op((unsigned)(prefix[i] - '0')); check(); }
    VP_REACH(n_look > 0, "looked up");
#ifdef FINAL
    static const unsigned later[] = { 0, 1, 149, 150, 151, 299, 300, 301, 451 };
    unsigned k = vp_range(0, 8);
    for (unsigned i = 0; i < 9; i++) if (k == i) {
        vp_now += later[i];
        for (unsigned h = 0; h < 3; h++) { get(h); check(); }
        finish();
        return;
    }
#else
    tail(TAIL);
#endif
}
#endif

#ifdef RACE
/* another thread's operation while the first one holds no lock, at any of its
 * lock operations */
#define POINTS 24
static bool racing;
static unsigned yields, at;
void vp_yield(void) {
    if (!racing || yields++ != at) return;
    racing = false;
    op(OTHER);
    VP_REACH(true, "another thread came between");
}
static void run(unsigned where) {
    vp_now = 1000;
    dns_cache_init();
    static const char prefix[] = RACE;
    for (unsigned i = 0; prefix[i]; i++) op((unsigned)(prefix[i] - '0'));
    at = where;
    racing = true;
    op(MINE);
    if (racing) op(OTHER);
    racing = false;
    VP_ASSERT(yields < POINTS, "bound of the harness");
    finish();
}
void vp_harness(void) {
    unsigned w = vp_range(0, POINTS - 1);
    for (unsigned i = 0; i < POINTS; i++) if (w == i) { run(i); return; }
}
#endif
#ifdef FAULT
void vp_harness(void) {
    vp_now = 1000;
    vp_oom_arm(1ull << FAULT);
    dns_cache_init();
    vp_oom_off();
    VP_ASSERT_UNLOCKED();
    if (!g_dns_cache.initialized) {
        VP_ASSERT(vp_live == 0, "a cache that could not be made leaves nothing behind");
        VP_ASSERT(dns_cache_get("a", 7, NULL) == NULL, "it finds nothing");
        dns_cache_release(NULL);
        dns_cache_clear();
        dns_cache_cleanup();
        dns_cache_init();
    }
    fails = true;
    get(0);
    VP_ASSERT(n_held == 0, "a name that cannot be resolved gives nothing");
    check();
    fails = false;
    get(1);
    check();
    VP_REACH(n_held == 1, "works after a failure");
    finish();
}
#endif
