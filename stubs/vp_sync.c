/* Locks: single-threaded stand-ins that check lock discipline and, when the
 * harness defines VP_YIELD, let it run other threads' operations at every
 * point where the real code can be preempted while holding no lock. */
#include "vp.h"
#include "mcp_sync.h"
#include "mcp_rwlock.h"

int vp_locks_held;
int vp_lock_errors;
int vp_write_held;             /* write locks among them */

#ifdef VP_YIELD
void vp_yield(void);
static bool vp_in_yield;
static void vp_do_yield(void) {
    if (vp_in_yield) return;
    if (vp_locks_held) return;
    vp_in_yield = true;
    vp_yield();
    vp_in_yield = false;
}
#else
#define vp_do_yield() ((void)0)
#endif

struct mcp_mutex_s { int held; bool recursive; };
mcp_mutex_t *mcp_mutex_create(void) {
    mcp_mutex_t *m = malloc(sizeof *m);
    if (m) { m->held = 0; m->recursive = false; }
    return m;
}
mcp_mutex_t *mcp_recursive_mutex_create(void) {
    mcp_mutex_t *m = malloc(sizeof *m);
    if (m) { m->held = 0; m->recursive = true; }
    return m;
}
void mcp_mutex_destroy(mcp_mutex_t *m) {
    if (!m) return;
    if (m->held) vp_lock_errors++;
    free(m);
}
int mcp_mutex_lock(mcp_mutex_t *m) {
    if (!m) return -1;
    vp_do_yield();
    if (m->held && !m->recursive) vp_lock_errors++;
    m->held++;
    vp_locks_held++;
    return 0;
}
int mcp_mutex_unlock(mcp_mutex_t *m) {
    if (!m) return -1;
    if (m->held <= 0) { vp_lock_errors++; return -1; }
    m->held--;
    vp_locks_held--;
    vp_do_yield();
    return 0;
}

struct mcp_cond_s { int signals; int broadcasts; };
#ifndef VP_OWN_COND
mcp_cond_t *mcp_cond_create(void) {
    mcp_cond_t *c = malloc(sizeof *c);
    if (c) { c->signals = 0; c->broadcasts = 0; }
    return c;
}
void mcp_cond_destroy(mcp_cond_t *c) { free(c); }
#ifdef VP_WAIT
/* the harness decides what happens while the caller waits; returns the result
 * of the wait.  The mutex is released around it as the real one would be. */
int vp_wait(mcp_cond_t *c, bool timed, uint32_t timeout_ms);
static int vp_do_wait(mcp_cond_t *c, mcp_mutex_t *m, bool timed, uint32_t ms) {
    if (!c || !m) return -1;
    if (m->held != 1) vp_lock_errors++;
    m->held = 0;
    vp_locks_held--;
    int r = vp_wait(c, timed, ms);
    if (m->held) vp_lock_errors++;
    m->held = 1;
    vp_locks_held++;
    return r;
}
int mcp_cond_wait(mcp_cond_t *c, mcp_mutex_t *m) { return vp_do_wait(c, m, false, 0); }
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) { return vp_do_wait(c, m, true, ms); }
#else
int mcp_cond_wait(mcp_cond_t *c, mcp_mutex_t *m) { (void)c; (void)m; return 0; }
int mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) { (void)c; (void)m; (void)ms; return -2; }
#endif
int (mcp_cond_signal)(mcp_cond_t *c) { if (!c) return -1; c->signals++; return 0; }
int (mcp_cond_broadcast)(mcp_cond_t *c) { if (!c) return -1; c->broadcasts++; return 0; }
#endif

#ifndef VP_OWN_THREAD
int mcp_thread_create(mcp_thread_t *h, mcp_thread_func_t f, void *arg) { (void)f; (void)arg; if (h) *h = (mcp_thread_t)1; return 0; }
int mcp_thread_join(mcp_thread_t h, void **r) { (void)h; if (r) *r = NULL; return 0; }
#endif
void mcp_thread_yield(void) {}
unsigned long mcp_get_thread_id(void) { return 1; }

struct mcp_spinlock_s { int held; };
mcp_spinlock_t *mcp_spinlock_create(void) {
    mcp_spinlock_t *m = malloc(sizeof *m);
    if (m) m->held = 0;
    return m;
}
void mcp_spinlock_destroy(mcp_spinlock_t *m) { free(m); }
int mcp_spinlock_lock(mcp_spinlock_t *m) {
    if (!m) return -1;
    vp_do_yield();
    if (m->held) vp_lock_errors++;
    m->held = 1; vp_locks_held++; return 0;
}
int mcp_spinlock_trylock(mcp_spinlock_t *m) {
    if (!m || m->held) return -1;
    m->held = 1; vp_locks_held++; return 0;
}
int mcp_spinlock_unlock(mcp_spinlock_t *m) {
    if (!m) return -1;
    if (!m->held) { vp_lock_errors++; return -1; }
    m->held = 0; vp_locks_held--; vp_do_yield(); return 0;
}

struct mcp_tls_key_s { void *v; };
mcp_tls_key_t *mcp_tls_key_create(void (*d)(void *)) {
    (void)d;
    mcp_tls_key_t *k = malloc(sizeof *k);
    if (k) k->v = NULL;
    return k;
}
void mcp_tls_key_destroy(mcp_tls_key_t *k) { free(k); }
int mcp_tls_set(mcp_tls_key_t *k, void *v) { if (!k) return -1; k->v = v; return 0; }
void *mcp_tls_get(mcp_tls_key_t *k) { return k ? k->v : NULL; }

/* reader/writer lock: held > 0 readers, -1 writer */
typedef struct { int held; } vp_rw;
static vp_rw *vp_rw_new(void) { vp_rw *r = malloc(sizeof *r); if (r) r->held = 0; return r; }
mcp_rwlock_t *mcp_rwlock_create(void) { return (mcp_rwlock_t *)vp_rw_new(); }
bool mcp_rwlock_init(mcp_rwlock_t *r) { if (!r) return false; ((vp_rw *)r)->held = 0; return true; }
bool mcp_rwlock_destroy(mcp_rwlock_t *r) { if (!r) return false; if (((vp_rw *)r)->held) vp_lock_errors++; return true; }
void mcp_rwlock_free(mcp_rwlock_t *r) { if (!r) return; if (((vp_rw *)r)->held) vp_lock_errors++; free(r); }
bool mcp_rwlock_read_lock(mcp_rwlock_t *l) {
    vp_rw *r = (vp_rw *)l;
    if (!r) return false;
    vp_do_yield();
    if (r->held < 0) vp_lock_errors++;
    r->held++; vp_locks_held++; return true;
}
bool mcp_rwlock_try_read_lock(mcp_rwlock_t *l) {
    vp_rw *r = (vp_rw *)l;
    if (!r || r->held < 0) return false;
    r->held++; vp_locks_held++; return true;
}
bool mcp_rwlock_read_unlock(mcp_rwlock_t *l) {
    vp_rw *r = (vp_rw *)l;
    if (!r) return false;
    if (r->held <= 0) { vp_lock_errors++; return false; }
    r->held--; vp_locks_held--; vp_do_yield(); return true;
}
bool mcp_rwlock_write_lock(mcp_rwlock_t *l) {
    vp_rw *r = (vp_rw *)l;
    if (!r) return false;
    vp_do_yield();
    if (r->held) vp_lock_errors++;
    r->held = -1; vp_locks_held++; vp_write_held++; return true;
}
bool mcp_rwlock_try_write_lock(mcp_rwlock_t *l) {
    vp_rw *r = (vp_rw *)l;
    if (!r || r->held) return false;
    r->held = -1; vp_locks_held++; vp_write_held++; return true;
}
bool mcp_rwlock_write_unlock(mcp_rwlock_t *l) {
    vp_rw *r = (vp_rw *)l;
    if (!r) return false;
    if (r->held >= 0) { vp_lock_errors++; return false; }
    r->held = 0; vp_locks_held--; vp_write_held--; vp_do_yield(); return true;
}
