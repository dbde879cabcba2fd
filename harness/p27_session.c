/* HTTP sessions against a model of who is alive. */
#include "vp.h"
#include "mcp_http_session_manager.h"
#ifndef SLOTS
#define SLOTS 3
#endif
static mcp_http_session_manager_t *m;
static char id0[48], id1[48], id2[48], id3[48];
static struct { bool made, gone; int64_t last; uint32_t timeout; mcp_http_session_t *h; } s[4];
static char *ids(int i) { return i == 0 ? id0 : i == 1 ? id1 : i == 2 ? id2 : id3; }
static uint8_t rnd[4][16];
static int draws, fds, fail_read = -1;
int vpx_open(const char *p, int f) { (void)p; (void)f; if (fail_read == 0) return -1; fds++; return 7; }
int vpx_close(int fd) { VP_ASSERT(fd == 7, "the opened file is closed"); fds--; return 0; }
long vpx_read(int fd, void *b, size_t n) {
    VP_ASSERT(fd == 7, "reads the opened file");
    uint8_t *d = b;
    if (fail_read == 1) return 5;
    VP_ASSERT(n == 16, "128 bits of randomness");
    for (size_t i = 0; i < 16; i++) d[i] = rnd[draws][i];
    draws++;
    return (long)n;
}
static bool alive(int i) { return s[i].made && !s[i].gone && (s[i].timeout == 0 || vp_now - s[i].last <= (int64_t)s[i].timeout); }
static uint32_t dflt;
static int events[4][3];
static void on_event(const char *sid, mcp_session_state_t st, void *u) {
    VP_ASSERT(u == &dflt, "the callback's own data");
    for (int i = 0; i < 4; i++) if (s[i].made && vp_eq(sid, ids(i))) events[i][st]++;
}
static void create(int i, int32_t t) {
    s[i].h = mcp_session_manager_create_session(m, ids(i), t);
    VP_NONNULL(s[i].h, "a session while a slot is free");
    s[i].made = true;
    s[i].last = vp_now;
    s[i].timeout = t == 0 ? dflt : t < 0 ? 0 : (uint32_t)t;
    VP_ASSERT_UNLOCKED();
}
static void pass(void) { vp_now += vp_range(0, 0xffffffffu); }
static int alives(void) { int n = 0; for (int i = 0; i < 4; i++) n += alive(i); return n; }
static void op(int k, int i) {
    switch (k) {
    case 0: {
        bool a = alive(i);
        mcp_http_session_t *h = mcp_session_manager_get_session(m, ids(i));
        VP_ASSERT((h != NULL) == a, "a session is found exactly while it is alive");
        VP_ASSERT(h == NULL || h == s[i].h, "the session found is the one asked for");
        if (!a && s[i].made) s[i].gone = true;
        break;
    }
    case 1: if (alive(i)) { mcp_session_touch(s[i].h); s[i].last = vp_now; } break;
    case 2: {
        bool a = alive(i), r = mcp_session_manager_terminate_session(m, ids(i));
        VP_ASSERT(!a || r, "an alive session can be terminated");
        VP_ASSERT(!a || events[i][MCP_SESSION_STATE_TERMINATED] == 1, "its termination is announced once");
        s[i].gone = true;
        break;
    }
    case 3: {
        mcp_session_manager_cleanup_expired(m);
        for (int j = 0; j < 4; j++) if (s[j].made && !alive(j)) s[j].gone = true;
        VP_ASSERT((int)mcp_session_manager_get_active_count(m) == alives(), "after a clean-up the count is that of the sessions alive");
        break;
    }
    }
    VP_ASSERT_UNLOCKED();
}
static void start(void) {
    for (int i = 0; i < 4; i++) for (int j = 0; j < 16; j++) rnd[i][j] = (uint8_t)(i * 61 + j * 17);
    vp_now = 1700000000;
    dflt = vp_u32();
    m = mcp_session_manager_create(dflt);
    VP_NONNULL(m, "created");
    mcp_session_manager_set_event_callback(m, on_event, &dflt);
}

#ifdef HIST
void vp_harness(void) {
    start();
    create(0, (int32_t)vp_u32());
    pass();
    create(1, (int32_t)vp_u32());
    VP_ASSERT(!vp_eq(ids(0), ids(1)), "identifiers differ");
    VP_ASSERT(mcp_session_manager_get_active_count(m) == 2, "both are counted");
    int u0, u1;
    mcp_session_set_user_data(s[0].h, &u0);
    mcp_session_set_user_data(s[1].h, &u1);
    pass();
    op(OP1, W1);
    pass();
    op(OP2, W2);
    pass();
    for (int i = 0; i < 2; i++) {
        bool a = alive(i);
        if (a) {
            VP_ASSERT(mcp_session_get_user_data(s[i].h) == (i ? &u1 : &u0), "a session keeps its data");
            VP_ASSERT(vp_eq(mcp_session_get_id(s[i].h), ids(i)), "and its identifier");
        }
        VP_ASSERT((mcp_session_get_state(s[i].h) == MCP_SESSION_STATE_ACTIVE) == a, "it is reported active exactly while alive");
        op(0, i);
    }
    op(0, 2);                                     /* an empty identifier */
    VP_ASSERT(mcp_session_manager_get_session(m, "000102030405060708090a0b0c0d0e0f") == NULL, "no other identifier is known");
    VP_REACH(OP1 == 2 || OP2 == 2 || alives() == 2, "both alive");
    op(3, 0);
    /* every freed slot can be used again */
    int n = alives();
    VP_REACH(n == 0, "none alive");
    mcp_session_manager_destroy(m);
    VP_ASSERT(vp_live == 0, "nothing is leaked");
}
#endif

#ifdef FULL
void vp_harness(void) {
    start();
    create(0, -1); create(1, 100); create(2, -1);
    char x[48];
    VP_ASSERT(mcp_session_manager_create_session(m, x, 5) == NULL, "no more sessions than slots");
    VP_ASSERT(mcp_session_manager_get_active_count(m) == 3, "refused sessions are not counted");
    VP_ASSERT_UNLOCKED();
    unsigned k = vp_range(0, 2);
    for (unsigned i = 0; i < 3; i++) if (k == i) {
        pass();
        bool a1 = alive(1);
        if (i == 2) op(3, 0); else op(2, i ? 2 : 0);
        if (i != 2 || !a1) {
            create(3, 50);
            VP_ASSERT(mcp_session_manager_get_session(m, ids(3)) == s[3].h, "the new session is found");
            VP_ASSERT(!vp_eq(ids(3), ids(0)) && !vp_eq(ids(3), ids(1)) && !vp_eq(ids(3), ids(2)), "under an identifier of its own");
            VP_ASSERT(mcp_session_get_user_data(s[3].h) == NULL, "without another's data");
        }
        for (int j = 0; j < 4; j++) if (s[j].made) op(0, j);
        VP_REACH(true, "slot reused");
        return;
    }
}
#endif

#ifdef IDS
void vp_harness(void) {
    start();
    for (int i = 0; i < 16; i++) rnd[1][i] = rnd[0][i];
    rnd[0][IDS] = vp_u8();
    rnd[1][IDS] = vp_u8();
    bool same = true;
    for (int i = 0; i < 16; i++) if (rnd[0][i] != rnd[1][i]) same = false;
    create(0, -1); create(1, -1);
    VP_ASSERT(vp_eq(ids(0), ids(1)) == same, "identifiers differ whenever the random bits do");
    for (int i = 0; i < 32; i++) VP_ASSERT((id0[i] >= '0' && id0[i] <= '9') || (id0[i] >= 'a' && id0[i] <= 'f'), "identifiers are hexadecimal");
    VP_ASSERT(id0[32] == 0 && mcp_session_id_is_valid(id0), "and well formed");
    VP_ASSERT(fds == 0, "no descriptor is leaked");
    VP_REACH(!same, "different");
}
#endif

#ifdef NORANDOM
void vp_harness(void) {
    start();
    fail_read = NORANDOM;
    char x[48];
    VP_ASSERT(mcp_session_manager_create_session(m, x, 5) == NULL, "no session without randomness");
    VP_ASSERT(mcp_session_manager_get_active_count(m) == 0 && fds == 0, "nothing is left behind");
    VP_ASSERT_UNLOCKED();
    fail_read = -1;
    create(0, 7);
    op(0, 0);
    VP_REACH(true, "end");
}
#endif

#ifdef VALID
void vp_harness(void) {
    static char t[VALID + 1];
    vp_str(t, VALID);
    bool ok = t[0] != 0;
    for (int i = 0; t[i]; i++) if ((unsigned char)t[i] <= 0x20 || (unsigned char)t[i] >= 0x7f) ok = false;
    VP_ASSERT(mcp_session_id_is_valid(t) == ok, "well formed means visible ASCII, not empty");
    static char big[140];
    unsigned n = vp_range(100, 135);
    for (unsigned i = 0; i < 139; i++) big[i] = i < n ? 'a' : 0;
    VP_ASSERT(mcp_session_id_is_valid(big) == (n < MCP_SESSION_ID_MAX_LENGTH), "and not too long");
    VP_REACH(ok, "valid");
    VP_REACH(!ok && t[0], "invalid");
}
#endif
