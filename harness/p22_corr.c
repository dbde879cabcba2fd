/* Client request/response correlation over an asynchronous transport: while a
 * caller waits, any sequence of responses, transport errors, spurious wakeups
 * and a timeout may occur. */
#include "p22_client.h"
#include "mcp_json_rpc.h"

mcp_transport_protocol_t mcp_transport_get_protocol(mcp_transport_t *t) { (void)t; return MCP_TRANSPORT_PROTOCOL_TCP; }
int mcp_transport_websocket_client_is_connected(mcp_transport_t *t) { (void)t; return 1; }

#ifndef EVENTS
#define EVENTS 2
#endif
static mcp_client_t *C;

/* the next message handed to the client, already parsed */
static struct { bool bad; uint64_t id; bool err; int code; char *msg, *res; } in;
int mcp_json_parse_response(const char *json, uint64_t *id, mcp_error_code_t *code, char **msg, char **res) {
    (void)json;
    *msg = NULL; *res = NULL;
    if (in.bad) return -1;
    *id = in.id;
    *code = in.err ? (mcp_error_code_t)in.code : MCP_ERROR_NONE;
    if (in.err) { in.msg = malloc(2); in.msg[0] = 'e'; in.msg[1] = 0; *msg = in.msg; }
    else { in.res = malloc(2); in.res[0] = 'r'; in.res[1] = 0; *res = in.res; }
    return 0;
}

/* what has happened to each of the two requests: 0 waiting, 1 result, 2 error response, 3 transport error */
#define A 0
#define B 1
static uint64_t ids[2];
static int state[2];
static char *want_res[2], *want_msg[2];
static int want_code[2];
static char *b_res, *b_msg;
static mcp_error_code_t b_code;
static bool b_active;
static bool a_waiting;               /* from registration until the caller gives up */
static int freed_strays;

static void deliver(uint64_t id, int who, bool bad) {
    in.bad = bad;
    in.id = id;
    in.msg = in.res = NULL;
    int ec = 77;
    long before = vp_live;
    char *reply = mcp_client_receive_callback(C, "x", 1, &ec);
    VP_ASSERT(reply == NULL, "a client never answers a response");
    if (who >= 0 && state[who] == 0 && (who == A ? a_waiting : b_active)) {
        state[who] = in.err ? 2 : 1;
        want_res[who] = in.res; want_msg[who] = in.msg; want_code[who] = in.err ? in.code : MCP_ERROR_NONE;
        VP_ASSERT(ec == 0, "a response to a waiting request is accepted");
    } else
        VP_ASSERT(vp_live == before, "a response nobody waits for is dropped without a trace");
    if (in.bad) VP_ASSERT(ec != 0, "an unparsable message is reported");
}
static void event(void) {
    uint8_t k = vp_u8();
    VP_ASSUME(k < 6);
    in.err = vp_bool();
    in.code = (int)vp_range(1, 3) * -1000;
    if (k == 0) deliver(ids[A], A, false);
    else if (k == 1) deliver(ids[B], B, false);
    else if (k == 2) {                  /* an id nobody uses */
        uint64_t id = OTHER;
        deliver(id, -1, false);
    } else if (k == 3) deliver(0, -1, true);
    else if (k == 4) {
        mcp_client_transport_error_callback(C, 1);
        for (int i = 0; i < 2; i++)
            if (state[i] == 0 && (i == A ? a_waiting : b_active)) state[i] = 3;
    }                                   /* 5: nothing, a spurious wakeup */
}

/* sending: the answer may arrive before the caller starts to wait */
static bool send_fails;
int mcp_transport_sendv(mcp_transport_t *t, const mcp_buffer_t *b, size_t n) {
    VP_ASSERT(t == TRANSPORT && n == 2 && b[0].size == 4, "a request is sent as length and body");
    VP_ASSERT(((const uint8_t *)b[0].data)[3] == 2 && b[1].size == 2, "the length prefix is the size of the body");
    a_waiting = true;
    if (send_fails) return -1;
#ifdef EARLY
    event();
#endif
    return 0;
}
int mcp_transport_receive(mcp_transport_t *t, char **d, size_t *n, uint32_t ms) { (void)t; (void)d; (void)n; (void)ms; return -1; }

static int waits;
static bool timed_out;
int vp_wait(mcp_cond_t *c, bool timed, uint32_t ms) {
    (void)c;
    VP_ASSERT(vp_locks_held == 0, "no lock is held while waiting");
    VP_ASSERT(!timed_out, "a timeout ends the wait");
    waits++;
    VP_ASSUME(waits <= EVENTS + 1);
#ifdef GROWTH
    /* other callers register requests meanwhile, the table grows */
    static char *r[8]; static char *m[8]; static mcp_error_code_t e[8];
    if (waits == 1)
        for (int i = 0; i < 6; i++) {
            pending_request_t p = { 0 };
            p.id = 20 + i; p.status = PENDING_REQUEST_WAITING; p.result_ptr = &r[i]; p.error_message_ptr = &m[i]; p.error_code_ptr = &e[i];
            mcp_mutex_lock(C->pending_requests_mutex);
            mcp_client_add_pending_request_entry(C, p.id, &p);
            mcp_mutex_unlock(C->pending_requests_mutex);
        }
#endif
    int n = waits > EVENTS ? 0 : 1;
    for (int i = 0; i < n; i++) event();
    if (state[A] != 0) return 0;
    if (timed && (waits > EVENTS || vp_bool())) { VP_ASSERT(ms == 500, "the configured timeout is used"); timed_out = true; return -2; }
    VP_ASSUME(waits <= EVENTS);          /* an untimed wait ends with an answer eventually */
    return 0;
}

void vp_harness(void) {
    C = calloc(1, sizeof *C);
    C->transport = TRANSPORT;
    C->config.request_timeout_ms = 500;
    C->pending_requests_mutex = mcp_mutex_create();
    C->pending_requests_capacity = 8;
    C->pending_requests_table = malloc(8 * sizeof(pending_request_entry_t));
    for (int i = 0; i < 8; i++) {
        C->pending_requests_table[i].id = 0;
        C->pending_requests_table[i].request.status = PENDING_REQUEST_INVALID;
        C->pending_requests_table[i].request.cv = NULL;
    }
    ids[A] = AID; ids[B] = BID;
    long base = vp_live;
    pending_request_t p = { 0 };
    p.id = ids[B]; p.status = PENDING_REQUEST_WAITING; p.result_ptr = &b_res; p.error_message_ptr = &b_msg; p.error_code_ptr = &b_code;
    p.cv = mcp_cond_create();
    VP_ASSERT(mcp_client_add_pending_request_entry(C, ids[B], &p) == 0, "a new request is accepted");
    b_active = true;

    char *res = (char *)1, *msg = (char *)1; mcp_error_code_t code = 12345;
#ifdef SENDFAIL
    send_fails = true;
#endif
    int rc = mcp_client_send_and_wait(C, "{}", ids[A], &res, &code, &msg);
    a_waiting = false;
    VP_ASSERT_UNLOCKED();
    VP_ASSERT(rc == 0 || rc == -1, "the outcome is success or failure");
    VP_ASSERT((rc == 0) == (state[A] == 1), "a call succeeds exactly if its own request was answered with a result");
    if (state[A] == 1) VP_ASSERT(res == want_res[A] && res[0] == 'r' && code == MCP_ERROR_NONE && msg == NULL, "the caller gets the result of its own request");
    if (state[A] == 2) VP_ASSERT(res == NULL && msg == want_msg[A] && (int)code == want_code[A], "the caller gets the error of its own request");
    if (state[A] == 3) VP_ASSERT(res == NULL && code == MCP_ERROR_TRANSPORT_ERROR && msg != NULL, "a transport error is reported");
    if (state[A] == 0 && !send_fails) VP_ASSERT(timed_out && res == NULL && code == MCP_ERROR_TRANSPORT_ERROR && msg != NULL, "an unanswered call ends with a timeout, and only then");
    VP_REACH(state[A] == 1 && state[B] == 1 || send_fails, "both answered");
#ifndef SENDFAIL
    VP_REACH(state[A] == 0, "timed out");
    VP_REACH(state[A] == 2, "error response");
    VP_REACH(state[A] == 1 && waits >= 2, "answered after an unrelated wakeup");
#endif
    /* a late answer must not reach the finished call */
    char *res0 = res, *msg0 = msg; mcp_error_code_t code0 = code;
    event();
    VP_ASSERT(res == res0 && msg == msg0 && code == code0, "a late answer does not touch a finished call");
    /* the other request saw exactly its own answer */
    if (state[B] == 0) VP_ASSERT(b_res == NULL && b_msg == NULL && b_code == MCP_ERROR_NONE, "an unanswered request stays untouched");
    if (state[B] == 1) VP_ASSERT(b_res == want_res[B] && b_msg == NULL, "another caller gets the result of its own request");
    if (state[B] == 2) VP_ASSERT(b_res == NULL && b_msg == want_msg[B] && (int)b_code == want_code[B], "another caller gets the error of its own request");
    if (state[B] == 3) VP_ASSERT(b_res == NULL && b_code == MCP_ERROR_TRANSPORT_ERROR, "another caller sees the transport error");
    mcp_client_remove_pending_request_entry(C, ids[B]);
    free(res); free(msg); free(b_res); free(b_msg);
#ifndef GROWTH
    VP_ASSERT(C->pending_requests_count == 0, "nothing stays pending");
    VP_ASSERT(vp_live == base, "nothing is leaked");
#endif
}
