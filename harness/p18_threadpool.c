/* Thread pool: every accepted task is run exactly once. */
#include "vp.h"
#include "internal/mcp_thread_pool_internal.h"

#define MAXT 12
static int state[MAXT];          /* 1 accepted, 2 handed out or run, 3 being submitted */
static unsigned n_tasks;         /* tasks made so far */
static unsigned inside;          /* accepted and not handed out */
static unsigned most, least;     /* of inside, during the operation looked at */
static unsigned taken_by_other;  /* by the other threads during it */
static unsigned depth, points;
static unsigned steps_left;
static bool came;

static void fn(void *arg);

#ifdef CROSS
static unsigned phase;
#endif
int vpx_rand(void) { static int n; return n++; }
void vpx_spin(void) {
    /* the other thread waits for the first: it goes on later, at another point */
#ifdef CROSS
    VP_ASSUME(phase == 0);
#endif
    if (depth) VP_ASSUME(false);
    VP_ASSERT(false, "an operation of the queue ends when no other thread is in its way");
    VP_ASSUME(false);
}

static void took(uintptr_t id) {
    VP_ASSERT(id >= 1 && id <= n_tasks, "only a submitted task is handed out");
    if (id < 1 || id > n_tasks) return;
    VP_ASSERT(state[id - 1] == 1 || state[id - 1] == 3, "a task is handed out at most once");
    if (state[id - 1] == 1) inside--;
    state[id - 1] = 2;
    if (inside < least) least = inside;
    if (depth) taken_by_other++;
}

#ifdef CROSS
/* Two operations that interrupt each other: the first runs up to a point, then
 * the second up to a point, then the rest of the first, then the rest of the
 * second.  The first is executed in one go by guessing what the second will
 * have left at the time it goes on; the guess is verified when it is known. */
static mcp_thread_pool_t *P;
static work_stealing_deque_t *D;
typedef struct { size_t top, bottom, lock; uintptr_t arg[CAP]; } shared;
static shared stopped, guess, left;
static unsigned at;
static shared now(void) {
    shared s; s.top = D->top; s.bottom = D->bottom; s.lock = D->bottom_lock;
    for (unsigned i = 0; i < CAP; i++) s.arg[i] = (uintptr_t)D->buffer[i].argument;
    return s;
}
static void put(shared s) {
    D->top = s.top; D->bottom = s.bottom; D->bottom_lock = s.lock;
    for (unsigned i = 0; i < CAP; i++) { D->buffer[i].function = fn; D->buffer[i].argument = (void *)s.arg[i]; }
}
void vpx_point(void) {
    if (phase == 0 || points++ != at) return;
    if (phase == 1) { phase = 2; stopped = now(); put(guess); }
    else if (phase == 3) {
        phase = 4;
        shared s = now();
        VP_ASSUME(s.top == guess.top && s.bottom == guess.bottom && s.lock == guess.lock);
        for (unsigned i = 0; i < CAP; i++) VP_ASSUME(s.arg[i] == guess.arg[i]);
        put(left);
    }
}
static uintptr_t got[2];
static bool done[2];
static void run(unsigned who, unsigned k) {
    mcp_task_t t = { fn, NULL };
    if (k == 0) t.argument = (void *)(uintptr_t)(FILL + 1 + who);
    done[who] = k == 0 ? deque_push_bottom(D, t) : k == 1 ? deque_pop_bottom(D, &t) : deque_steal_top(D, &t);
    got[who] = (uintptr_t)t.argument;
}
void vp_harness(void) {
    P = mcp_thread_pool_create(1, CAP);
    VP_NONNULL(P, "a pool can be made");
    D = &P->deques[0];
    for (unsigned i = 0; i < CAP; i++) D->buffer[i] = (mcp_task_t){ fn, NULL };
    mcp_task_t t = { fn, NULL };
    for (unsigned i = 0; i < SHIFT; i++) { deque_push_bottom(D, t); deque_steal_top(D, &t); }
    for (unsigned i = 0; i < FILL; i++) { t.argument = (void *)(uintptr_t)(i + 1); deque_push_bottom(D, t); state[i] = 1; }
    n_tasks = FILL + 3;
    inside = FILL;
    guess.top = SHIFT + vp_range(0, CAP);
    guess.bottom = SHIFT + CAP - vp_range(0, CAP + 1);
    guess.lock = vp_range(0, 1);
    for (unsigned i = 0; i < CAP; i++) guess.arg[i] = vp_range(0, FILL + 2);
    phase = 1; points = 0; at = vp_range(0, 12);
    run(0, MINE);
    VP_ASSUME(phase == 2);
    left = now();
    put(stopped);
    phase = 3; points = 0; at = vp_range(0, 12);
    run(1, OTHER);
    VP_ASSUME(phase == 4);
    phase = 0;
    VP_REACH(true, "both came to an end");
    /* what each of them did */
    for (unsigned w = 0; w < 2; w++) {
        unsigned k = w ? OTHER : MINE;
        if (!done[w]) continue;
        if (k == 0) { state[FILL + w] = 1; inside++; }
    }
    for (unsigned w = 0; w < 2; w++) if (done[w] && (w ? OTHER : MINE)) took(got[w]);
    VP_ASSERT(inside <= CAP, "the queue takes no more tasks than its capacity");
    /* it takes a further task; whatever is in it is handed out, nothing else */
    t.argument = (void *)(uintptr_t)(FILL + 3);
    if (deque_push_bottom(D, t)) { state[FILL + 2] = 1; inside++; }
    else VP_ASSERT(inside == CAP, "a task is refused only when the queue is full");
    for (unsigned i = 0; i <= CAP; i++) {
        if (!(i & 1 ? deque_pop_bottom(D, &t) : deque_steal_top(D, &t))) break;
        took((uintptr_t)t.argument);
    }
    VP_ASSERT(inside == 0, "no accepted task is lost");
}
static void fn(void *arg) { (void)arg; }
int mcp_thread_create(mcp_thread_t *h, mcp_thread_func_t f, void *arg) { (void)f; (void)arg; *h = (mcp_thread_t)1; return 0; }
int mcp_thread_join(mcp_thread_t h, void **r) { (void)h; (void)r; return 0; }
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) { (void)c; (void)m; (void)ms; return -2; }
#endif

#ifdef DEQUE
static mcp_thread_pool_t *P;
static work_stealing_deque_t *D;
/* 0 push, 1 pop, 2 steal */
static void op(unsigned k) {
    mcp_task_t t = { fn, NULL };
    unsigned lost = taken_by_other, outer = depth;
    if (k == 0) {
        uintptr_t id = ++n_tasks;
        t.argument = (void *)id;
        state[id - 1] = 3;
        bool ok = deque_push_bottom(D, t);
        if (!ok) {
            VP_ASSERT(state[id - 1] == 3, "a refused task is not handed out");
            state[id - 1] = 0;
            VP_ASSERT((outer ? inside + (MINE == 0) : most) >= CAP, "a task is refused only when the queue is full");
            return;
        }
        if (state[id - 1] == 3) { state[id - 1] = 1; inside++; }
        if (inside > most) most = inside;
        VP_ASSERT(inside <= CAP + (outer && MINE != 0), "the queue takes no more tasks than its capacity");
        return;
    }
    bool ok = k == 1 ? deque_pop_bottom(D, &t) : deque_steal_top(D, &t);
    if (ok) took((uintptr_t)t.argument);
    else if (!outer) VP_ASSERT(least == 0 || taken_by_other > lost, "nothing is handed out only if the queue was empty or another thread got the task");
}
void vpx_point(void) {
    points++;
#ifdef OTHER
    if (depth || !steps_left || !vp_bool()) return;
    depth = 1;
    came = true;
    for (unsigned i = 0; i < OTHERS; i++) {
        if (!steps_left) break;
        steps_left--;
        op(OTHER);
    }
    depth = 0;
#endif
}
void vp_harness(void) {
    P = mcp_thread_pool_create(1, CAP);
    VP_NONNULL(P, "a pool can be made");
    D = &P->deques[0];
    /* a queue of FILL tasks whose ends have moved along by SHIFT */
    for (unsigned i = 0; i < SHIFT; i++) { most = inside; least = inside; op(0); most = least = inside; op(i & 1 ? 1 : 2); }
    for (unsigned i = 0; i < FILL; i++) { most = inside; op(0); }
    most = least = inside;
    taken_by_other = 0;
    steps_left = OTHERS;
    op(MINE);
    steps_left = 0;
    VP_REACH(came, "another thread came between");
    /* it takes further tasks; whatever is in it is handed out, nothing else */
    most = least = inside; taken_by_other = 0;
    op(0);
    for (unsigned i = 0; i < CAP + 1; i++) {
        most = least = inside; taken_by_other = 0;
        if (!inside) break;
        op(END);
    }
    VP_ASSERT(inside == 0, "no accepted task is lost");
    mcp_task_t t;
    VP_ASSERT(!deque_pop_bottom(D, &t), "an empty queue has nothing to pop");
    VP_ASSERT(!deque_steal_top(D, &t), "an empty queue has nothing to steal");
    for (unsigned i = 0; i < n_tasks; i++) VP_ASSERT(state[i] != 1, "every accepted task was handed out");
}
static void fn(void *arg) { (void)arg; }
int mcp_thread_create(mcp_thread_t *h, mcp_thread_func_t f, void *arg) { (void)f; (void)arg; *h = (mcp_thread_t)1; return 0; }
int mcp_thread_join(mcp_thread_t h, void **r) { (void)h; (void)r; return 0; }
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) { (void)c; (void)m; (void)ms; return -2; }
#endif

#ifdef POOL
/* a pool of T threads that run one after the other, each to its end */
static mcp_thread_pool_t *P;
static struct { mcp_thread_func_t f; void *arg; bool ran; } thr[4];
static unsigned n_thr, n_created;
static unsigned done, idle;
static unsigned accepted;
void vpx_point(void) {
    points++;
#ifdef WATCH
    /* another thread waits for the tasks, at any moment */
    if (depth || points < FROM || points >= FROM + SPAN || !steps_left || !vp_bool()) return;
    steps_left = 0;
    depth = 1;
    unsigned before = accepted;
    int r = mcp_thread_pool_wait(P, 10);
    VP_ASSERT(r != 0 || done >= before, "waiting reports success only once every task has finished");
    depth = 0;
#endif
}
static void fn(void *arg) {
    took((uintptr_t)arg);
    done++;
}
static int add(void) {
    uintptr_t id = ++n_tasks;
    state[id - 1] = 1; inside++;
    int r = mcp_thread_pool_add_task(P, fn, (void *)id);
    if (r != 0) { VP_ASSERT(state[id - 1] == 1, "a refused task is not run"); state[id - 1] = 0; inside--; }
    else accepted++;
    return r;
}
int mcp_thread_create(mcp_thread_t *h, mcp_thread_func_t f, void *arg) {
#ifdef NOTHREAD
    if (n_created == NOTHREAD) { n_created++; return -1; }
#endif
    n_created++;
    VP_ASSERT(n_thr < 4, "no more threads than asked for");
    if (n_thr >= 4) return -1;
    thr[n_thr].f = f; thr[n_thr].arg = arg; thr[n_thr].ran = false;
    *h = (mcp_thread_t)(++n_thr);
#ifdef EAGER
    /* the first thread runs before the caller goes on */
    if (n_thr == 1) {
        mcp_thread_join(*h, NULL);
        VP_ASSERT(idle > 0, "a worker waits for tasks, however early it starts");
    }
#endif
    return 0;
}
int mcp_thread_join(mcp_thread_t h, void **r) {
    (void)r;
    unsigned i = (unsigned)(uintptr_t)h - 1;
    VP_ASSERT(i < n_thr, "only a thread of the pool is joined");
    if (i >= n_thr || thr[i].ran) return 0;
    thr[i].ran = true;
    thr[i].f(thr[i].arg);
    return 0;
}
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) {
    (void)c; (void)m; (void)ms;
    idle++;
#ifdef EAGER
    if (idle == 1) ((worker_arg_t *)thr[0].arg)->should_exit = true;
#endif
#ifdef WATCH
    if (depth) return -2;
    /* the worker has nothing to do: it is told to leave */
    VP_ASSERT(idle < 8, "a worker finds every task before long");
    if (inside == 0) {
        mcp_mutex_unlock(m);
        mcp_thread_pool_resize(P, 2);
        mcp_mutex_lock(m);
    }
#endif
    return -2;
}
static void scenario(unsigned N) {
    long live = vp_live;
#ifdef FAULT
    vp_oom_arm(FAULT);
#endif
    P = mcp_thread_pool_create(T, CAP);
    vp_oom_off();
#if defined FAULT || defined NOTHREAD
    if (!P) {
        VP_ASSERT(vp_live == live, "a pool that could not be made leaves nothing behind");
        VP_ASSERT_UNLOCKED();
        VP_REACH(true, "not made");
        return;
    }
    VP_ASSERT(false, "the failure is reported");
#else
    VP_NONNULL(P, "a pool can be made");
    VP_ASSERT(mcp_thread_pool_get_thread_count(P) == T, "the pool has the threads asked for");
#ifdef SHRINK
    VP_ASSERT(mcp_thread_pool_resize(P, SHRINK) == 0, "the pool can be made smaller");
    VP_ASSERT(mcp_thread_pool_get_thread_count(P) == SHRINK, "the pool has the threads asked for");
#endif
    bool full = false;
    for (unsigned i = 0; i < N; i++) {
        int r = add();
        VP_ASSERT(r == 0 || inside >= T * CAP, "a task is refused only when every queue is full");
        VP_ASSERT(inside <= T * CAP, "no more tasks are queued than fit");
        if (r) full = true;
    }
    VP_ASSERT(full == (N > T * CAP), "tasks that do not fit are refused");
    VP_ASSERT(mcp_thread_pool_wait(P, 10) == (N ? -1 : 0), "waiting does not report success while nothing has run");
#ifdef WATCH
    /* one worker runs all tasks, then leaves */
    steps_left = 1;
    idle = 0;
    mcp_thread_join((mcp_thread_t)3, NULL);
    steps_left = 0;
    VP_ASSERT(done == N, "one worker runs the tasks of all queues");
    VP_ASSERT(mcp_thread_pool_wait(P, 10) == 0, "waiting ends once every task has finished");
    VP_REACH(N == MOST, "watched");
#endif
    size_t sub = 9, com = 9, fai = 9, act = 9;
    VP_ASSERT(mcp_thread_pool_get_stats(P, &sub, &com, &fai, &act) == 0, "statistics are available");
    VP_ASSERT(sub == accepted && com == done && fai == N - accepted && act == 0, "statistics count every task once");
    VP_ASSERT(mcp_thread_pool_destroy(P) == 0, "the pool can be destroyed");
    for (unsigned i = 0; i < n_thr; i++) VP_ASSERT(thr[i].ran, "no thread outlives the pool");
    VP_ASSERT(inside == 0, "every accepted task is run before the pool is gone");
    VP_ASSERT(done == accepted, "each once");
    VP_ASSERT(vp_live == live, "a destroyed pool leaves nothing behind");
    VP_ASSERT_UNLOCKED();
    VP_REACH(N == MOST, "destroyed");
#endif
}
void vp_harness(void) {
    unsigned n = vp_range(0, MOST);
    for (unsigned i = 0; i <= MOST; i++) if (n == i) { scenario(i); return; }
}
#endif
mcp_cond_t *mcp_cond_create(void) { return (mcp_cond_t *)malloc(1); }
void mcp_cond_destroy(mcp_cond_t *c) { free(c); }
int mcp_cond_signal(mcp_cond_t *c) { return c ? 0 : -1; }
int mcp_cond_broadcast(mcp_cond_t *c) { return c ? 0 : -1; }
int mcp_cond_wait(mcp_cond_t *c, mcp_mutex_t *m) { (void)c; (void)m; return 0; }
