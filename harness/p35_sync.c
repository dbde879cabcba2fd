/* Synchronisation layer over a model of POSIX condition variables with two
 * clocks: a timed wait lasts as long as requested and reports what ended it. */
#include "vp.h"
#include "mcp_sync.h"

/* current time of both clocks, in seconds and nanoseconds */
static struct { int64_t s, ns; } mono, real;
int vpx_clock_gettime(clockid_t c, struct timespec *ts) {
    if (c == CLOCK_MONOTONIC) { ts->tv_sec = mono.s; ts->tv_nsec = mono.ns; }
    else { ts->tv_sec = real.s; ts->tv_nsec = real.ns; }
    return 0;
}
int vpx_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = real.s; tv->tv_usec = real.ns / 1000; return 0; }

/* one attribute object and one condition variable are alive at a time */
static clockid_t attr_clock, cond_clock;
static bool attr_live, cond_live;
static int bad, mutex_depth, mutex_type, mutexes;
int vpx_condattr_init(pthread_condattr_t *a) { (void)a; attr_live = true; attr_clock = CLOCK_REALTIME; return 0; }
int vpx_condattr_destroy(pthread_condattr_t *a) { (void)a; if (!attr_live) bad++; attr_live = false; return 0; }
int vpx_condattr_setclock(pthread_condattr_t *a, clockid_t c) { (void)a; if (!attr_live) bad++; attr_clock = c; return 0; }
static bool cond_init_fails;
int vpx_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    (void)c;
    if (cond_init_fails) return ENOMEM;
    if (a && !attr_live) bad++;
    cond_clock = a ? attr_clock : CLOCK_REALTIME; cond_live = true; return 0;
}
int vpx_cond_destroy(pthread_cond_t *c) { (void)c; if (!cond_live) bad++; cond_live = false; return 0; }
static int signals, broadcasts, waits;
int vpx_cond_signal(pthread_cond_t *c) { (void)c; signals++; return 0; }
int vpx_cond_broadcast(pthread_cond_t *c) { (void)c; broadcasts++; return 0; }

static int outcome;                  /* what the wait returns when it is not a timeout */
static int64_t waited_s, waited_ns;  /* how long a wait that times out lasts */
static int wait_until(clockid_t k, const struct timespec *ts) {
    if (!cond_live || mutex_depth != 1) bad++;
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    waits++;
    if (outcome != ETIMEDOUT) return outcome;
    int64_t s = k == CLOCK_MONOTONIC ? mono.s : real.s, ns = k == CLOCK_MONOTONIC ? mono.ns : real.ns;
    waited_s = ts->tv_sec - s; waited_ns = ts->tv_nsec - ns;
    if (waited_ns < 0) { waited_ns += 1000000000; waited_s--; }
    if (waited_s < 0) { waited_s = 0; waited_ns = 0; }
    return ETIMEDOUT;
}
int vpx_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)c; (void)m; return wait_until(cond_clock, ts); }
int vpx_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { (void)c; (void)m; return wait_until(k, ts); }
int vpx_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { (void)c; (void)m; if (!cond_live || mutex_depth != 1) bad++; waits++; return outcome == ETIMEDOUT ? 0 : outcome; }

static int attr_type;
int vpx_mutexattr_init(pthread_mutexattr_t *a) { (void)a; attr_type = PTHREAD_MUTEX_NORMAL; return 0; }
int vpx_mutexattr_settype(pthread_mutexattr_t *a, int t) { (void)a; attr_type = t; return 0; }
int vpx_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int vpx_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; mutex_type = a ? attr_type : PTHREAD_MUTEX_NORMAL; mutexes++; return 0; }
int vpx_mutex_destroy(pthread_mutex_t *m) { (void)m; if (mutex_depth) bad++; mutexes--; return 0; }
int vpx_mutex_lock(pthread_mutex_t *m) { (void)m; if (mutex_depth && mutex_type != PTHREAD_MUTEX_RECURSIVE) return EDEADLK; mutex_depth++; return 0; }
int vpx_mutex_unlock(pthread_mutex_t *m) { (void)m; if (!mutex_depth) return EPERM; mutex_depth--; return 0; }

void vp_harness(void) {
    mono.s = vp_u32(); mono.ns = vp_range(0, 999999999);
    real.s = vp_u32(); real.ns = (int64_t)vp_range(0, 999999) * 1000;
#ifdef MS
    static const uint32_t choice[] = { 1, 999, 1000, 1001, 1500, 59999, 60000, 3600000, 0xffffffff };
    uint32_t ms = choice[MS];
#else
    uint32_t ms = vp_u32();
    VP_ASSUME(ms > 0 && ms < MSMAX);
#ifdef NS
    mono.ns = NS;
#endif
#endif
#ifdef FAULT
    for (unsigned k = 0; k < 3; k++) {
        vp_oom_arm((uint64_t)1 << k);
        cond_init_fails = k == 2;
        mcp_mutex_t *m = mcp_mutex_create();
        mcp_cond_t *c = mcp_cond_create();
        VP_ASSERT((m == NULL) == (k == 0) && (c == NULL) == (k != 0), "creation fails exactly if memory or the system does");
        VP_ASSERT(mcp_mutex_lock(NULL) != 0 && mcp_cond_timedwait(NULL, m, 1) != 0 && mcp_cond_signal(NULL) != 0, "missing objects are refused");
        mcp_mutex_destroy(m); mcp_cond_destroy(c);
        vp_oom_off(); cond_init_fails = false;
        VP_ASSERT(vp_live == 0 && mutexes == 0 && bad == 0, "a failed creation leaks nothing");
        VP_REACH(true, "creation failed");
    }
    (void)ms;
#else
    bool rec = vp_bool();
    mcp_mutex_t *m = rec ? mcp_recursive_mutex_create() : mcp_mutex_create();
    VP_NONNULL(m, "a mutex is created");
    mcp_cond_t *c = mcp_cond_create();
    VP_NONNULL(c, "a condition variable is created");
    VP_ASSERT(mcp_mutex_lock(m) == 0 && mutex_depth == 1, "locking takes the lock");
    int again = mcp_mutex_lock(m);
    VP_ASSERT((again == 0) == rec, "only a recursive mutex is taken twice by its owner");
    if (again == 0) VP_ASSERT(mcp_mutex_unlock(m) == 0, "a recursive mutex is released as often as it was taken");

    uint8_t o = vp_u8();
    VP_ASSUME(o < 3);
    outcome = o == 0 ? 0 : o == 1 ? ETIMEDOUT : EPERM;
    int r = mcp_cond_timedwait(c, m, ms);
    VP_ASSERT(waits == 1, "a timed wait waits");
    VP_ASSERT(o != 0 || r == 0, "a notified wait succeeds");
    VP_ASSERT(o != 1 || r == -2, "a wait that runs out reports a timeout");
    VP_ASSERT(o != 2 || (r != 0 && r != -2), "a failed wait is neither success nor timeout");
    if (o == 1) VP_ASSERT(waited_s == ms / 1000 && waited_ns >= (int64_t)(ms % 1000) * 1000000 && waited_ns < (int64_t)(ms % 1000) * 1000000 + 1000000,
                          "a timeout occurs once the requested time has passed, not before or later");
    VP_REACH(o == 1, "timed out"); VP_REACH(o == 0, "notified");
    outcome = 0;
    VP_ASSERT(mcp_cond_wait(c, m) == 0 && waits == 2, "an untimed wait ends when notified");
    VP_ASSERT(mcp_cond_timedwait(c, m, 0) == -2 && waits == 2, "a zero timeout does not block");
    VP_ASSERT(mcp_cond_signal(c) == 0 && signals == 1 && broadcasts == 0, "signal wakes one");
    VP_ASSERT(mcp_cond_broadcast(c) == 0 && broadcasts == 1, "broadcast wakes all");
    VP_ASSERT(mcp_mutex_unlock(m) == 0 && mutex_depth == 0, "unlocking releases the lock");
    mcp_cond_destroy(c); mcp_mutex_destroy(m);
    VP_ASSERT(bad == 0, "system objects are used while alive and with the lock held");
    VP_ASSERT(vp_live == 0 && mutexes == 0 && !cond_live, "everything is released");
#endif
}
