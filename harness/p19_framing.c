/* Length-prefixed framing over a stream socket that accepts and delivers
 * bytes in pieces of its own choosing, is interrupted, and fails. */
#include "vp.h"
#include "internal/transport_internal.h"
#include "internal/tcp_transport_internal.h"
#include "internal/tcp_client_transport_internal.h"
#include "mcp_framing.h"
#include "mcp_socket_utils.h"
#include "mcp_thread_local.h"

#define SOCK 7
#ifndef CAP
#define CAP 24
#endif

/* --- the socket --- */
static unsigned char in[CAP];      /* what the peer sends */
static size_t in_len, in_pos;
static unsigned char out[CAP];     /* what the peer gets */
static size_t out_len;
static bool failed;                /* the socket reported an error or closed */
static volatile bool stop;
static int closed, shut, wrong_socket;

/* How the stream is cut (bit i: a piece ends after byte i) and at which call
 * which trouble occurs. These are chosen by the solver, one branch for each
 * choice (see choose()). */
static unsigned cuts;
static int trouble_at = -1, calls_made;
#define NONE 0
#define INTR 1
#define AGAIN 2
#define RESET 3
#define BROKEN 4
#define STOP 5
#define CLOSE 6
#define NOMEM 7
#ifndef NTH
#define NTH 0
#endif
#ifndef KIND
#define KIND NONE
#endif
static bool trouble(ssize_t *ret)
{
    *ret = -1;
    if (calls_made++ != trouble_at) return false;
    if (KIND == STOP) { stop = true; return false; }
    failed = KIND == RESET || KIND == BROKEN;
    errno = KIND == INTR ? EINTR : KIND == AGAIN ? EAGAIN : KIND == RESET ? ECONNRESET : EIO;
    return true;
}
/* bytes up to the next cut */
static size_t piece(size_t from, size_t n)
{
    size_t k = 1;
    while (k < n && !((cuts >> (from + k - 1)) & 1)) k++;
    return k;
}

ssize_t vpx_recv(int s, void *b, size_t n)
{
    ssize_t r = 0;
    if (s != SOCK) wrong_socket++;
    /* there is room for all that may be delivered */
    if (n > 0) ((volatile unsigned char *)b)[n - 1] = ((volatile unsigned char *)b)[n - 1];
    if (trouble(&r)) return r;
    if (in_pos == in_len) { failed = true; return 0; }
    size_t avail = in_len - in_pos;
    if (avail > n) avail = n;
    size_t k = piece(in_pos, avail);
    for (size_t i = 0; i < k; i++) ((unsigned char *)b)[i] = in[in_pos + i];
    in_pos += k;
    return (ssize_t)k;
}

ssize_t vpx_send(int s, const void *b, size_t n)
{
    ssize_t r = 0;
    if (s != SOCK) wrong_socket++;
    if (trouble(&r)) return r;
    size_t k = piece(out_len, n);
    for (size_t i = 0; i < k; i++)
        if (out_len < CAP) out[out_len++] = ((const unsigned char *)b)[i];
    return (ssize_t)k;
}

ssize_t vpx_writev(int s, const struct iovec *v, int n)
{
    ssize_t r = 0;
    if (s != SOCK) wrong_socket++;
    if (trouble(&r)) return r;
    size_t total = 0, did = 0;
    for (int i = 0; i < n; i++) total += v[i].iov_len;
    if (total == 0) return 0;
    size_t k = piece(out_len, total);
    for (int i = 0; i < n; i++)
        for (size_t j = 0; j < v[i].iov_len; j++)
            if (did < k && out_len < CAP) {
                out[out_len++] = ((const unsigned char *)v[i].iov_base)[j];
                did++;
            }
    return (ssize_t)k;
}

static bool hangup;
int vpx_poll(struct pollfd *p, int timeout)
{
    (void)timeout;
    if (p->fd != SOCK) wrong_socket++;
    p->revents = POLLIN;
    if (in_pos == in_len && hangup) { p->revents = POLLHUP; failed = true; }
    return 1;
}
int vpx_select(int n, fd_set *r, struct timeval *tv) { (void)n; (void)r; (void)tv; return 1; }
int vpx_shutdown(int s) { if (s != SOCK) wrong_socket++; shut++; return 0; }
int vpx_close(int s) { if (s != SOCK) wrong_socket++; closed++; return 0; }

/* TOTAL: bytes on the stream; CUTS: where it may be cut. Without trouble all
 * subsets of the cuts are tried, with trouble the two extremes. */
#ifndef CUTS
#define CUTS ((1u << (TOTAL - 1)) - 1)
#endif
static void run(void);
void vp_harness(void)
{
    unsigned m = vp_u16(), f = vp_u8(), c = 0;
    const unsigned cutset = CUTS;
    do {
        if (KIND == NONE || c == 0 || c == cutset)
            for (unsigned a = 0; a < (KIND == NONE ? 1 : TOTAL); a++)
                if (m == c && f == a) {
                    cuts = c;
                    trouble_at = KIND == NONE || KIND == NOMEM || KIND == CLOSE ? -1 : (int)a;
                    in_len = KIND == CLOSE ? a : TOTAL;
                    run();
                    return;
                }
        c = (c - cutset) & cutset;
    } while (c != 0);
}

/* the frame a payload must become */
static unsigned char want[CAP];
static size_t want_len;
static void expect(const unsigned char *p, size_t n)
{
    want[want_len++] = 0; want[want_len++] = 0; want[want_len++] = 0;
    want[want_len++] = (unsigned char)n;
    for (size_t i = 0; i < n; i++) want[want_len++] = p[i];
}
static bool out_is_prefix(void)
{
    if (out_len > want_len) return false;
    for (size_t i = 0; i < out_len; i++)
        if (out[i] != want[i]) return false;
    return true;
}

#if defined(SEND) || defined(BATCH) || defined(SEXACT) || defined(SBATCH)
static void check_sent(int r, long live)
{
    VP_ASSERT(out_is_prefix(), "only the frames' own bytes are sent, in order");
    VP_ASSERT(r == 0 || r == -1, "sending succeeds or fails");
    if (r == 0) VP_ASSERT(out_len == want_len, "a frame reported as sent was sent whole");
    if (KIND == NONE || KIND == INTR || KIND == AGAIN) VP_ASSERT(r == 0, "sending succeeds on a working connection");
    VP_ASSERT(vp_live == live, "sending keeps no memory");
    VP_ASSERT(wrong_socket == 0, "only the given connection is written to");
#if KIND != NOMEM
    VP_REACH(r == 0, "sent");
#endif
#if KIND == RESET
    VP_REACH(r == -1 && out_len > 0, "failed half way");
#endif
}
#endif

#ifdef SEND
static void run(void)
{
    unsigned char p[SEND + 1];
    vp_bytes(p, SEND);
    expect(p, SEND);
    long live = vp_live;
    if (KIND == NOMEM) vp_oom_arm(1);
    int r = mcp_framing_send_message(SOCK, (char *)p, SEND, &stop);
    check_sent(r, live);
}
#endif

#ifdef BATCH
static void run(void)
{
    unsigned char a[BATCH + 1], b[L2 + 1];
    vp_bytes(a, BATCH);
    vp_bytes(b, L2);
    expect(a, BATCH);
    expect(b, L2);
    const char *m[2] = { (char *)a, (char *)b };
    uint32_t l[2] = { BATCH, L2 };
    long live = vp_live;
    if (KIND == NOMEM) vp_oom_arm(1u << NTH);
    int r = mcp_framing_send_batch(SOCK, m, l, 2, &stop);
    check_sent(r, live);
}
#endif

#ifdef SEXACT
static void run(void)
{
    unsigned char p[SEXACT];
    vp_bytes(p, SEXACT);
    for (size_t i = 0; i < SEXACT; i++) want[want_len++] = p[i];
    long live = vp_live;
    int r = mcp_socket_send_exact(SOCK, (char *)p, SEXACT, &stop);
    check_sent(r, live);
}
#endif

#ifdef SBATCH
/* SBATCH: which of the three buffers are there (bit set), empty or missing */
static void run(void)
{
    static mcp_socket_buffer_t b[3];
    const mcp_socket_buffer_t *v[3];
    char t[3][2];
    for (int i = 0; i < 3; i++) {
        vp_bytes(t[i], 2);
        b[i].buffer = t[i];
        b[i].size = 2;
        b[i].used = 2;
        v[i] = &b[i];
        if (!(SBATCH & (1 << i))) {
            if (MISSING) v[i] = NULL;
            else b[i].used = 0;
            continue;
        }
        for (int j = 0; j < 2; j++) want[want_len++] = (unsigned char)t[i][j];
    }
    long live = vp_live;
    int r = mcp_socket_send_batch(SOCK, v, 3, &stop);
    check_sent(r, live);
}
#endif

#ifdef RECV
/* RECV: length of the frame's payload; the peer may close anywhere */
static void run(void)
{
    vp_bytes(in, CAP);
    in[0] = in[1] = in[2] = 0;
    in[3] = RECV;
    char *m = (char *)"x";
    uint32_t n = 77, max = vp_u32();
    long live = vp_live;
    if (KIND == NOMEM) vp_oom_arm(1);
    int r = mcp_framing_recv_message(SOCK, &m, &n, max, &stop);
    if (r == 0) {
        VP_ASSERT(in_len >= 4 + RECV, "no message without all its bytes");
        VP_ASSERT(n == RECV && RECV <= max, "the length is the one sent and within the limit");
        VP_ASSERT(in_pos == 4 + RECV, "exactly one frame is taken off the stream");
        if (RECV > 0) {
            VP_NONNULL(m, "a message was delivered");
            for (size_t i = 0; i < RECV; i++)
                VP_ASSERT((unsigned char)m[i] == in[4 + i], "the message is what the peer sent");
            VP_ASSERT(m[RECV] == 0, "the message is terminated");
            free(m);
        }
    } else {
        VP_ASSERT(m == NULL && n == 0, "no partial message on failure");
        bool refusal = failed || stop || RECV > max || KIND == NOMEM;
        VP_ASSERT(refusal, "a frame within the limit arrives on a working connection");
        if (in_pos >= 4 && RECV > max) VP_ASSERT(in_pos == 4, "nothing of a message above the limit is read");
    }
    VP_ASSERT(vp_live == live, "receiving keeps no memory besides the message");
    VP_ASSERT(wrong_socket == 0, "only the given connection is read");
#if KIND == NONE || KIND == INTR || KIND == AGAIN
    VP_REACH(r == 0, "received");
#else
    VP_REACH(r != 0 && in_pos > 0, "failed half way");
#endif
}
#endif

#ifdef OVER
/* any length at all, with a peer that sends nothing after it */
static void run(void)
{
    uint32_t len = vp_u32(), max = vp_u32();
    in[0] = (unsigned char)(len >> 24); in[1] = (unsigned char)(len >> 16);
    in[2] = (unsigned char)(len >> 8); in[3] = (unsigned char)len;
    char *m = NULL;
    uint32_t n = 0;
    long live = vp_live;
#ifdef OVERMAX
    VP_ASSUME(len > max);
#else
    VP_ASSUME(len <= max && len > 0);
#endif
    int r = mcp_framing_recv_message(SOCK, &m, &n, max, NULL);
    VP_ASSERT(r == -1 && m == NULL && n == 0, "a message that is too long or never arrives is an error");
    VP_ASSERT(vp_live == live, "nothing is kept");
    VP_REACH(in_pos == 4, "length read");
}
#endif

#if defined(SERVER) || defined(CLIENT)
/* two frames of LEN1 and LEN2 bytes to a connection's receive loop */
static mcp_transport_t tr;
static unsigned char got[2][LEN1 + LEN2 + 1];
static size_t got_n[2];
static int calls;
static char *on_message(void *ud, const void *data, size_t size, int *err)
{
    (void)ud;
    *err = 0;
    VP_ASSERT(calls < 2, "no more messages than frames");
    if (calls >= 2) return NULL;
    VP_ASSERT(size <= LEN1 + LEN2, "a message is no longer than its frame");
    got_n[calls] = size;
    for (size_t i = 0; i < LEN1 + LEN2; i++)
        if (i < size) got[calls][i] = ((const unsigned char *)data)[i];
    if (size > 0) VP_ASSERT(((const char *)data)[size] == 0 || ((const char *)data)[size - 1] == 0, "messages are terminated");
    calls++;
    char *r = malloc(3);
    if (!r) return NULL;
    r[0] = 'r'; r[1] = (char)('0' + calls); r[2] = 0;
    return r;
}
static int errors;
static void on_error(void *ud, int code) { (void)ud; (void)code; errors++; }
int mcp_arena_init_current_thread(size_t n) { (void)n; return 0; }
void mcp_arena_destroy_current_thread(void) {}
bool reconnection_in_progress;

static bool blanked(unsigned char sent, unsigned char seen)
{
    return sent == seen || (sent < 32 && seen == ' ');
}
static void run(void)
{
    static unsigned char p1[LEN1 + 1], p2[LEN2 + 1];
    vp_bytes(p1, LEN1);
    vp_bytes(p2, LEN2);
#ifdef SERVER
    /* whether a message ends in a NUL decides its length: not left open */
    p1[LEN1 - 1] = p2[LEN2 - 1] = SERVER;
#endif
    in[3] = LEN1;
    for (size_t i = 0; i < LEN1; i++) in[4 + i] = p1[i];
    in[4 + LEN1 + 3] = LEN2;
    for (size_t i = 0; i < LEN2; i++) in[8 + LEN1 + i] = p2[i];
    hangup = TOTAL & 1;
    tr.message_callback = on_message;
    tr.error_callback = on_error;
    long live;
#ifdef SERVER
    static mcp_tcp_transport_data_t d;
    static tcp_client_connection_t c;
    d.client_mutex = mcp_mutex_create();
    VP_ASSUME(d.client_mutex != NULL);
    live = vp_live;
    tr.transport_data = &d;
    c.socket = SOCK;
    c.transport = &tr;
    c.state = CLIENT_STATE_ACTIVE;
    d.stats.active_connections = 1;
    unsigned char r1[2] = { 'r', '1' }, r2[2] = { 'r', '2' };
    expect(r1, 2);
    expect(r2, 2);
    tcp_client_handler_thread_func(&c);
    VP_ASSERT(closed == 1 && c.socket == MCP_INVALID_SOCKET && c.state == CLIENT_STATE_INACTIVE, "the connection is closed once and its slot freed");
    VP_ASSERT(d.stats.active_connections == 0, "a closed connection is counted once");
    VP_ASSERT(out_is_prefix() && out_len <= (size_t)calls * 6, "responses are framed, whole, and in the order of the messages");
    VP_ASSERT_UNLOCKED();
#else
    static mcp_tcp_client_transport_data_t d;
    tr.transport_data = &d;
    d.sock = SOCK;
    d.running = true;
    d.connected = true;
    reconnection_in_progress = true;
    live = vp_live;
    tcp_client_receive_thread_func(&tr);
    VP_ASSERT(!d.connected, "a receive loop that ended left the connection marked down");
    VP_ASSERT(errors == 1, "the loss of the connection is reported once");
    VP_ASSERT(out_len == 0, "nothing is sent");
#endif
    VP_ASSERT(calls == 0 || (got_n[0] == LEN1 && in_len >= 4 + LEN1), "a frame arrives whole or not at all");
    VP_ASSERT(calls < 2 || (got_n[1] == LEN2 && in_len == in_pos), "a frame arrives whole or not at all (second)");
    if (calls > 0) for (size_t i = 0; i < LEN1; i++) VP_ASSERT(blanked(p1[i], got[0][i]), "the first message is the first frame");
    if (calls > 1) for (size_t i = 0; i < LEN2; i++) VP_ASSERT(blanked(p2[i], got[1][i]), "the second message is the second frame");
    VP_ASSERT(vp_live == live, "a connection's receive loop leaves no memory behind");
    VP_ASSERT(wrong_socket == 0, "only the given connection is used");
#if KIND == NONE
    VP_REACH(calls == 2, "both messages");
#elif KIND == CLOSE
    VP_REACH(calls == 1 && in_pos > 4 + LEN1, "cut in the second frame");
#endif
}
#endif
