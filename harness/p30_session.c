/* Saved MQTT sessions.  The real save, load, delete, expiry and clean-up code
 * runs on a file system held in memory, in which any operation may fail and
 * the process may stop at any operation.
 *
 * The oracle keeps the session contents given to the last successful save of
 * each client identifier. */
#include "vp.h"
#include "internal/mqtt_client_internal.h"
#include "internal/mqtt_session_persistence.h"

/* ---- files ---- */
#define NF 4
#define FD 208
#define NAME 48
static struct file { bool used; char name[NAME]; int len; } fs[NF];
static uint8_t fd0[FD], fd1[FD], fd2[FD], fd3[FD];
static uint8_t *data(int i) { return i == 0 ? fd0 : i == 1 ? fd1 : i == 2 ? fd2 : fd3; }
static struct { int file, pos; bool open, wr; } h;       /* one file is open at a time */
static int ops, fail_at = -1, crash_at = -1;
static bool crashed, lossy;
static int opened, dirpos;

static bool gone(void) {       /* the process has stopped: nothing has an effect any more */
    if (!crashed && ops == crash_at) {
        crashed = true;
        if (h.open && h.wr && lossy) fs[h.file].len /= 2;
    }
    return crashed;
}
static bool step(void) { if (fail_at < 0 && crash_at < 0) return false; bool stop = gone() || ops == fail_at; ops++; return stop; }
static bool same(const char *a, const char *b) {
    for (int i = 0; i < NAME; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; }
    return true;
}
static int find(const char *path) {
    for (int i = 0; i < NF; i++) if (fs[i].used && same(fs[i].name, path)) return i;
    return -1;
}
FILE *vf_open(const char *path, const char *mode) {
    VP_ASSERT(!h.open, "every file opened is closed");
    if (step()) return NULL;
    int i = find(path);
    if (mode[0] == 'w') {
        if (i < 0) {
            for (i = 0; i < NF && fs[i].used; i++) ;
            VP_ASSERT(i < NF, "no stray files are left");
            if (i >= NF) return NULL;
            fs[i].used = true;
            int k = 0;
            for (; k < NAME - 1 && path[k]; k++) fs[i].name[k] = path[k];
            VP_ASSERT(!path[k], "the model holds the file name");
            fs[i].name[k] = 0;
        }
        fs[i].len = 0;
    } else if (i < 0) return NULL;
    h.file = i; h.pos = 0; h.open = true; h.wr = mode[0] == 'w'; opened++;
    return (FILE *)&h;
}
int vf_close(FILE *f) {
    VP_ASSERT((void *)f == (void *)&h && h.open, "only open files are closed");
    bool wr = h.wr, stop = step();
    if (stop && wr && !crashed) fs[h.file].len /= 2;       /* the buffered rest could not be written */
    h.open = false; opened--;
    return stop && wr ? -1 : 0;
}
/* whole numbers are taken apart and put together as numbers, which the solver's front end follows best */
static void get(uint8_t *p, const uint8_t *d, size_t size) {
    uint64_t v = 0;
    for (size_t b = 0; b < size; b++) v |= (uint64_t)d[b] << (8 * b);
    if (size == 1) *p = (uint8_t)v; else if (size == 2) *(uint16_t *)p = (uint16_t)v; else if (size == 4) *(uint32_t *)p = (uint32_t)v; else if (size == 8) *(uint64_t *)p = v;
    else VP_ASSERT(false, "the model knows the size of the number");
}
static void put(uint8_t *d, const uint8_t *p, size_t size) {
    uint64_t v = size == 1 ? *p : size == 2 ? *(const uint16_t *)p : size == 4 ? *(const uint32_t *)p : *(const uint64_t *)p;
    VP_ASSERT(size == 1 || size == 2 || size == 4 || size == 8, "the model knows the size of the number");
    for (size_t b = 0; b < size; b++) d[b] = (uint8_t)(v >> (8 * b));
}
size_t vf_read(void *p, size_t size, size_t n, FILE *f) {
    VP_ASSERT((void *)f == (void *)&h && h.open, "only open files are read");
    if (step()) return 0;
    size_t got = 0;
    uint8_t *d = data(h.file);
    if (n > FD) n = FD;        /* more than any file holds */
    for (size_t k = 0; k < n; k++) {
        if (h.pos + (int)size > fs[h.file].len) { h.pos = fs[h.file].len; break; }
        get((uint8_t *)p + k * size, d + h.pos, size);
        h.pos += (int)size; got++;
    }
    return got;
}
size_t vf_write(const void *p, size_t size, size_t n, FILE *f) {
    VP_ASSERT((void *)f == (void *)&h && h.open && h.wr, "only open files are written");
    if (step()) return n / 2;
    uint8_t *d = data(h.file);
    VP_ASSERT(h.pos + size * n <= FD, "the model holds the file");
    if (h.pos + size * n > FD) return 0;
    if (n == 1) put(d + h.pos, p, size);
    else for (size_t b = 0; b < size * n; b++) d[h.pos + b] = ((const uint8_t *)p)[b];
    h.pos += (int)(size * n);
    if (h.pos > fs[h.file].len) fs[h.file].len = h.pos;
    return n;
}
int vf_flush(FILE *f) { (void)f; return step() ? -1 : 0; }
int vf_fileno(FILE *f) { (void)f; return 7; }
int vf_fsync(int fd) { (void)fd; return step() ? -1 : 0; }
int vf_unlink(const char *path) {
    if (step()) return -1;
    int i = find(path);
    if (i < 0) return -1;
    fs[i].used = false;
    return 0;
}
int vf_access(const char *path, int m) { (void)m; return find(path) >= 0 ? 0 : -1; }
int vf_rename(const char *a, const char *b) {
    if (step()) return -1;
    int i = find(a), j = find(b);
    if (i < 0) return -1;
    if (i == j) return 0;
    if (j >= 0) fs[j].used = false;
    int k = 0;
    for (; k < NAME - 1 && b[k]; k++) fs[i].name[k] = b[k];
    VP_ASSERT(!b[k], "the model holds the file name");
    fs[i].name[k] = 0;
    return 0;
}
int vf_mkdir(const char *path, unsigned m) { (void)path; (void)m; return 0; }
static struct dirent ent;
DIR *vf_opendir(const char *path) { if (!same(path, "s")) return NULL; dirpos = 0; return (DIR *)&dirpos; }
struct dirent *vf_readdir(DIR *d) {
    (void)d;
    for (; dirpos < NF; dirpos++)
        if (fs[dirpos].used && fs[dirpos].name[0] == 's' && fs[dirpos].name[1] == '/') {
            int k = 0;
            for (; k < NAME - 1 && fs[dirpos].name[2 + k]; k++) ent.d_name[k] = fs[dirpos].name[2 + k];
            ent.d_name[k] = 0;
            dirpos++;
            return &ent;
        }
    return NULL;
}
int vf_closedir(DIR *d) { (void)d; return 0; }

/* lengths of texts with arbitrary bytes, which the oracle knows */
static struct { const char *s; size_t n; } texts[6];
static int ntexts;
size_t vf_strlen(const char *s) {
    for (int i = 0; i < ntexts; i++) if (texts[i].s == s) return texts[i].n;
    size_t n = 0;
    while (s[n]) n++;
    return n;
}

/* ---- clock ---- */
static uint64_t now_ms = 1000000;
long long mcp_get_time_ms(void) { return (long long)now_ms; }
void mcp_sleep_ms(uint32_t ms) { (void)ms; }

/* ---- sessions ---- */
#ifndef TL
#define TL 2
#endif
#ifdef LENGTH
#define vp_u8() 1
#define vp_u16() 2
#define vp_u32() 3u
#define vp_u64() 4u
#define vp_bool() true
#define vp_bytes(p, n) memset(p, 5, n)
#endif
struct want {
    int nsub, nin, plen[2];
    char t0[4], t1[4], m0[4], m1[4];
    int q0, q1, iq0, iq1;
    uint16_t id0, id1;
    uint8_t p0[4], p1[4];
    bool r0, r1;
    uint64_t st0, st1, created;
    uint32_t rc0, rc1, last, expiry;
};
static void topic(char *t, int n) {
    for (int i = 0; i < n; i++) {
#ifdef PLAIN
        t[i] = (char)('a' + i);
#else
        t[i] = (char)vp_u8(); VP_ASSUME(t[i] != 0);
#endif
    }
    t[n] = 0;
    if (ntexts < 6) { texts[ntexts].s = t; texts[ntexts].n = (size_t)n; ntexts++; }
}
static void make(struct want *w, int nsub, int nin, int plen) {
    w->nsub = nsub; w->nin = nin;
    w->created = vp_u64(); w->last = vp_u32(); w->expiry = 0;
    if (nsub > 0) { topic(w->t0, TL); w->q0 = (int)vp_u32(); }
    if (nsub > 1) { topic(w->t1, TL - 1); w->q1 = (int)vp_u32(); }
    if (nin > 0) {
        topic(w->m0, 1); w->id0 = vp_u16(); w->iq0 = (int)vp_u32(); w->r0 = vp_bool(); w->st0 = vp_u64(); w->rc0 = vp_u32();
        w->plen[0] = plen; vp_bytes(w->p0, (size_t)plen);
    }
    if (nin > 1) {
        topic(w->m1, TL); w->id1 = vp_u16(); w->iq1 = (int)vp_u32(); w->r1 = vp_bool(); w->st1 = vp_u64(); w->rc1 = vp_u32();
        w->plen[1] = 1; vp_bytes(w->p1, 1);
    }
}
static int save(const char *id, struct want *w) {
    struct mqtt_subscription s1 = { w->t1, w->q1, true, NULL }, s0 = { w->t0, w->q0, true, w->nsub > 1 ? &s1 : NULL };
    struct mqtt_inflight_message m1 = { w->id1, w->m1, w->p1, (size_t)w->plen[1], w->iq1, w->r1, w->st1, w->rc1, NULL };
    struct mqtt_inflight_message m0 = { w->id0, w->m0, w->plen[0] ? w->p0 : NULL, (size_t)w->plen[0], w->iq0, w->r0, w->st0, w->rc0, w->nin > 1 ? &m1 : NULL };
    mqtt_session_data_t d = { 0 };
    d.subscriptions = w->nsub ? &s0 : NULL;
    d.inflight_messages = w->nin ? &m0 : NULL;
    d.last_packet_id = w->last;
    d.session_created_time = w->created;
    d.session_expiry_interval = w->expiry;
    int r = mqtt_session_save(id, &d);
    VP_ASSERT(opened == 0 || crashed, "a save closes its file");
    return r;
}
static void drop(mqtt_session_data_t *d) {
    for (struct mqtt_subscription *s = d->subscriptions, *n; s; s = n) { n = s->next; free(s->topic); free(s); }
    for (struct mqtt_inflight_message *m = d->inflight_messages, *n; m; m = n) { n = m->next; free(m->topic); free(m->payload); free(m); }
}
static bool text_is(const char *t, const char *w, int n) {
    for (int i = 0; i < n; i++) if (t[i] != w[i]) return false;
    return t[n] == 0;
}
static bool sub_is(const struct mqtt_subscription *s, const char *t, int n, int q) { return s && text_is(s->topic, t, n) && s->qos == q && s->active; }
static bool msg_is(const struct mqtt_inflight_message *m, uint16_t id, const char *t, int n, const uint8_t *p, int pl, int q, bool r, uint64_t st, uint32_t rc) {
    if (!m || m->packet_id != id || !text_is(m->topic, t, n) || m->payload_len != (size_t)pl) return false;
    for (int i = 0; i < pl; i++) if (((uint8_t *)m->payload)[i] != p[i]) return false;
    return m->qos == q && m->retain == r && m->send_time == st && m->retry_count == rc;
}
static bool is(const mqtt_session_data_t *d, const struct want *w) {
    bool ok = d->session_created_time == w->created && d->last_packet_id == w->last && d->session_expiry_interval == w->expiry;
    const struct mqtt_subscription *s = d->subscriptions;
    if (w->nsub > 0) { if (!sub_is(s, w->t0, TL, w->q0)) return false; s = s->next; }
    if (w->nsub > 1) { if (!sub_is(s, w->t1, TL - 1, w->q1)) return false; s = s->next; }
    if (s) return false;
    const struct mqtt_inflight_message *m = d->inflight_messages;
    if (w->nin > 0) { if (!msg_is(m, w->id0, w->m0, 1, w->p0, w->plen[0], w->iq0, w->r0, w->st0, w->rc0)) return false; m = m->next; }
    if (w->nin > 1) { if (!msg_is(m, w->id1, w->m1, TL, w->p1, w->plen[1], w->iq1, w->r1, w->st1, w->rc1)) return false; m = m->next; }
    return ok && !m;
}
/* what a load gives: 0 nothing, 1 the first, 2 the second, 3 something else */
static int load(const char *id, const struct want *a, const struct want *b) {
    mqtt_session_data_t d = { 0 };
    int r = mqtt_session_load(id, &d);
    VP_ASSERT(opened == 0, "a load closes its file");
    VP_ASSERT_UNLOCKED();
    int got = 0;
    if (r == 0) got = a && is(&d, a) ? 1 : b && is(&d, b) ? 2 : 3;
    else VP_ASSERT(!d.subscriptions && !d.inflight_messages, "a refused load gives no contents");
    drop(&d);
    return got;
}
static void restart(void) { crashed = false; crash_at = fail_at = -1; h.open = false; opened = 0; }

#ifndef NSUB
#define NSUB 1
#endif
#ifndef NIN
#define NIN 1
#endif
#ifndef PLEN
#define PLEN 2
#endif
static struct want A, B;

#ifdef VP_YIELD
static int yields, race_at = -1; static bool raced; static int race_result;
static void other(void);
void vp_yield(void) { if (race_at >= 0 && yields++ == race_at && !raced) { raced = true; other(); } }
#endif

#if defined(ROUND)
void vp_harness(void) {
    long before = vp_live;
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    { bool c0 = load("client1", NULL, NULL) == 0; bool c1 = !mqtt_session_exists("client1"); VP_ASSERT(c0 && c1, "nothing is loaded for a client never saved"); }
    make(&A, NSUB, NIN, PLEN);
    VP_ASSERT(save("client1", &A) == 0, "a session is saved");
    VP_ASSERT(mqtt_session_exists("client1"), "a saved session exists");
    { bool c0 = !mqtt_session_exists("client2"); bool c1 = load("client2", &A, NULL) == 0; VP_ASSERT(c0 && c1, "other clients do not see it"); }
    VP_ASSERT(load("client1", &A, NULL) == 1, "a session loads as it was saved");
    VP_REACH(A.last > 7, "loaded");
    make(&B, NSUB ? 0 : 1, NIN, 1);
    VP_ASSERT(save("client2", &B) == 0, "a second client's session is saved");
    { bool c0 = load("client1", &A, NULL) == 1; bool c1 = load("client2", &B, NULL) == 1; VP_ASSERT(c0 && c1, "each client's own session is loaded"); }
    { bool c0 = save("client1", &B) == 0; bool c1 = load("client1", &B, NULL) == 1; VP_ASSERT(c0 && c1, "the last save counts"); }
    { bool c0 = mqtt_session_delete("client1") == 0; bool c1 = !mqtt_session_exists("client1"); bool c2 = load("client1", &A, &B) == 0; VP_ASSERT(c0 && c1 && c2, "a deleted session is gone"); }
    VP_ASSERT(mqtt_session_delete("client1") != 0, "it is deleted once");
    VP_ASSERT(load("client2", &B, NULL) == 1, "the other client's session stays");
    mqtt_session_persistence_cleanup();
    VP_ASSERT(vp_live == before, "no memory is lost");
    VP_ASSERT(vp_locks_held == 0 && vp_lock_errors == 0, "locks are released");
}
#elif defined(EXPIRE)
/* any expiry interval, any time of look-up */
void vp_harness(void) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, 0, 0, 0);
    make(&B, 0, 0, 0);
    A.expiry = vp_u32();
#ifdef WIDE
    uint64_t t0 = vp_u64() & 0xffffffffffffULL, dt = vp_u64() & 0xffffffffffffULL;
#else
    uint64_t t0 = 1700000000000ULL, dt = vp_u16();
#endif
    now_ms = t0;
    VP_ASSERT(save("keep", &B) == 0, "a session without expiry is saved");
    VP_ASSERT(save("c", &A) == 0, "saved");
    now_ms = t0 + dt;
    bool dead = A.expiry != 0 && dt >= ((uint64_t)A.expiry + 1) * SECOND, live = A.expiry == 0 || dt <= (uint64_t)A.expiry * SECOND;
    uint64_t c, l; uint32_t e;
    { bool c0 = mqtt_session_get_info("c", &c, &l, &e) == 0; bool c1 = c == A.created; bool c2 = l == t0; bool c3 = e == A.expiry; VP_ASSERT(c0 && c1 && c2 && c3, "information about a session is what was saved"); }
    bool ex = mqtt_session_is_expired("c");
    VP_ASSERT((!dead || ex) && (!live || !ex), "a session expires after its interval");
    VP_REACH(ex, "expired"); VP_REACH(!ex && A.expiry, "not yet expired");
#if EXPIRE == 1
    VP_ASSERT(load("c", &A, NULL) == (ex ? 0 : 1), "an expired session is not loaded, another is");
    if (ex) VP_ASSERT(!mqtt_session_exists("c"), "an expired session is removed");
#else
    int n = mqtt_session_cleanup_expired();
    VP_ASSERT(n == (ex ? 1 : 0), "a clean-up removes the expired sessions");
    VP_ASSERT(mqtt_session_exists("c") == !ex, "and no others");
#endif
    VP_ASSERT(load("keep", &B, NULL) == 1, "a session without expiry stays");
    VP_ASSERT_UNLOCKED();
}
#elif defined(TOUCH)
void vp_harness(void) {
    long before = vp_live;
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, NSUB, NIN, PLEN);
    A.expiry = 60;
    VP_ASSERT(save("c/d", &A) == 0, "saved");
    now_ms += 50000;
    VP_ASSERT(mqtt_session_update_access_time("c/d") == 0, "an access is recorded");
    now_ms += 50000;
    VP_ASSERT(!mqtt_session_is_expired("c/d"), "an access keeps the session alive");
    VP_ASSERT(mqtt_session_cleanup_expired() == 0, "nothing to clean up");
    VP_ASSERT(load("c/d", &A, NULL) == 1, "an access does not change the session");
    now_ms += 61000;
    { bool c0 = mqtt_session_cleanup_expired() == 1; bool c1 = !mqtt_session_exists("c/d"); VP_ASSERT(c0 && c1, "it expires in the end"); }
    VP_ASSERT(mqtt_session_update_access_time("c/d") != 0, "and cannot be kept alive any more");
    mqtt_session_persistence_cleanup();
    VP_REACH(true, "expired");
    VP_ASSERT(vp_live == before, "no memory is lost");
}
#elif defined(FAULT)
/* an operation of the save fails, or the process stops there */
#ifndef OPS
#define OPS 30
#endif
static void run(int at) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, 1, 0, 0);
    make(&B, NSUB, NIN, PLEN);
    if (FAULT < 3) VP_ASSERT(save("c1", &A) == 0, "the first session is saved");
    ops = 0;
    if (FAULT == 0 || FAULT == 3) fail_at = at; else { crash_at = at; lossy = FAULT == 2; }
    int r = save("c1", &B);
    bool hit = ops > at;
#if FROM < LAST
    VP_REACH(r != 0, "the save fails");
#endif
    VP_ASSERT(at < OPS || !hit, "the model covers every operation of a save");
    restart();
    int got = load("c1", FAULT < 3 ? &A : NULL, &B);
    VP_ASSERT(r == 0 || FAULT != 0 || got == 1, "a failed save leaves the session saved before");
    VP_ASSERT(r == 0 || FAULT != 3 || got == 0, "a failed first save leaves nothing");
    VP_ASSERT(r != 0 || got == 2, "a session reported as saved is loaded");
    VP_ASSERT(got == 2 || got == (FAULT < 3 ? 1 : 0), "an interrupted save leaves the old or the new session");
    if (FAULT == 0 || FAULT == 3) VP_ASSERT_UNLOCKED();
    lossy = false;
    { bool c0 = save("c1", &B) == 0; bool c1 = load("c1", &B, NULL) == 1; VP_ASSERT(c0 && c1, "the next save works"); }
    mqtt_session_cleanup_expired();
    VP_ASSERT(load("c1", &B, NULL) == 1, "a clean-up keeps it");
}
void vp_harness(void) {
    int at = (int)vp_range(FROM, TO);
    for (int i = FROM; i <= TO; i++) if (at == i) { run(i); return; }
}
#elif defined(TRUNC)
/* the file is cut short */
static void run(int cut) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, NSUB, NIN, PLEN);
    VP_ASSERT(save("c", &A) == 0, "saved");
    long before = vp_live;
    int i = 0;
    for (; i < NF; i++) if (fs[i].used) break;
    if (cut < fs[i].len) {
        fs[i].len = cut;
        VP_ASSERT(load("c", &A, NULL) == 0, "a truncated session is refused");
        VP_REACH(cut == FROM, "cut");
    } else VP_ASSERT(cut != FROM, "the lengths are those of the file");
    VP_ASSERT(fs[i].len < LAST, "all lengths are covered");
    VP_ASSERT(vp_live == before, "no memory is lost");
}
void vp_harness(void) {
    int at = (int)vp_range(FROM, TO);
    for (int i = FROM; i <= TO; i++) if (at == i) { run(i); return; }
}
#elif defined(JUNK)
/* any bytes after the beginning of a session file */
void vp_harness(void) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, NSUB, NIN, PLEN);
    VP_ASSERT(save("c", &A) == 0, "saved");
    long before = vp_live;
    int i = 0;
    for (; i < NF; i++) if (fs[i].used) break;
    vp_bytes(data(i) + FROM, JUNK);
    int got = load("c", &A, NULL);
    VP_REACH(got == REFUSED, "expected result");
    (void)mqtt_session_is_expired("c");
    VP_ASSERT(vp_live == before, "no memory is lost");
}
#elif defined(LENGTH)
/* any length or count in the place of the one saved, in a file with given contents */
static void run(uint32_t v, int i) {
    long before = vp_live;
    put(data(i) + FROM, (uint8_t *)&v, LENGTH);
    (void)load("c", NULL, NULL);
    VP_REACH(true, "loaded");
    VP_ASSERT(vp_live == before, "no memory is lost");
}
void vp_harness(void) {
    static const uint32_t more[] = { 200, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff };
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, NSUB, NIN, PLEN);
    VP_ASSERT(save("c", &A) == 0, "saved");
    int n = 0;
    for (; n < NF; n++) if (fs[n].used) break;
    int at = (int)vp_range(FIRST, FIRST + 11);
    for (int i = FIRST; i <= FIRST + 11; i++) if (at == i) { run(i < 48 ? (uint32_t)i : more[i - 48], n); return; }
}
#elif defined(NOMEM)
void vp_harness(void) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, NSUB, NIN, PLEN);
    make(&B, 0, NIN, 1);
    VP_ASSERT(save("c", &A) == 0, "saved");
    long before = vp_live;
    int at = (int)vp_range(0, 7);
    for (int i = 0; i < 8; i++) if (at == i) {
#if NOMEM == 0
        vp_oom_arm(1u << i);
        int r = save("c", &B);
        vp_oom_off();
        VP_REACH(r != 0 && i == 0, "fails");
        VP_ASSERT(vp_live == before, "no memory is lost");
        VP_ASSERT(load("c", &A, &B) == (r == 0 ? 2 : 1), "a failed save leaves the session saved before");
#else
        vp_oom_arm(1u << i);
        int got = load("c", &A, NULL);
        vp_oom_off();
        VP_REACH(got == 0 && i == 0, "fails");
        VP_ASSERT(got < 2, "a load gives the session or nothing");
        VP_ASSERT(vp_live == before, "no memory is lost");
        VP_ASSERT(load("c", &A, NULL) == 1, "a failed load leaves the session saved");
#endif
        return;
    }
}
#elif defined(RACE)
/* a load or a clean-up of an expired session while another thread saves it anew */
static void other(void) { race_result = save("c", &B); }
static void run(int at) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, 0, 0, 0); A.expiry = 5;
    make(&B, 1, 0, 0);
    VP_ASSERT(save("c", &A) == 0, "saved");
    now_ms += 60000;
    race_at = at; yields = 0;
    int got = 0;
    if (RACE == 0) got = load("c", &A, &B); else mqtt_session_cleanup_expired();
    race_at = -1;
    VP_REACH(raced && at == 0, "another save"); VP_REACH(at == 7 && !raced, "all positions covered");
    VP_ASSERT(at < 7 || !raced, "all positions covered");
    VP_ASSERT(got == 0 || (raced && got == 2), "an expired session is not loaded");
    if (raced) VP_ASSERT(race_result == 0 && load("c", &A, &B) == 2, "the new session is kept");
}
void vp_harness(void) {
    int at = (int)vp_range(0, 7);
    for (int i = 0; i <= 7; i++) if (at == i) { run(i); return; }
}
#elif defined(IDS)
/* identifiers that differ in any one character, or in their length */
static char ia[8], ib[8];
static void run(int c, int n) {
    ia[n] = (char)c;
    if (vp_eq(ia, ib)) return;
    VP_ASSERT(!mqtt_session_exists(ia), "different clients do not share a session");
    VP_ASSERT(mqtt_session_exists(ib), "and each finds its own");
    VP_REACH(c == TO, "compared");
}
void vp_harness(void) {
    VP_ASSERT(mqtt_session_persistence_init("s") == 0, "storage opens");
    make(&A, 0, 0, 0);
    const char *pre = PREFIX, *tail = TAIL;
    int n = 0;
    for (; pre[n]; n++) ia[n] = ib[n] = pre[n];
    for (int k = 0; tail[k]; k++) ib[n + k] = tail[k];
    VP_ASSERT(save(ib, &A) == 0, "saved");
    int c = (int)vp_range(FROM, TO);
    for (int v = FROM; v <= TO; v++) if (c == v) { run(v, n); return; }
}
#endif
