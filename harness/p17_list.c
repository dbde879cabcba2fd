/* Doubly linked list against a sequence kept in an array. */
#include "vp.h"
#include "mcp_list.h"
#include "mcp_buffer_pool.h"
/* stand-in for the pool of nodes */
struct mcp_buffer_pool { size_t held; };
mcp_buffer_pool_t *mcp_buffer_pool_create(size_t size, size_t k) { (void)k; VP_ASSERT(size >= sizeof(mcp_list_node_t), "the pool's buffers hold a node"); mcp_buffer_pool_t *p = malloc(sizeof *p); if (p) p->held = 0; return p; }
void *mcp_buffer_pool_acquire(mcp_buffer_pool_t *p) { p->held++; return malloc(sizeof(mcp_list_node_t)); }
void mcp_buffer_pool_release(mcp_buffer_pool_t *p, void *d) { p->held--; free(d); }
void mcp_buffer_pool_destroy(mcp_buffer_pool_t *p) { free(p); }
#define MAXN 8
#ifndef TS
#define TS MCP_LIST_NOT_THREAD_SAFE
#endif
static mcp_list_t *l;
static int item[MAXN];
static int model[MAXN];                 /* indices of items, front first */
static mcp_list_node_t *node_of[MAXN];
static unsigned n, fresh;
static unsigned freed[MAXN];
static void on_free(void *d) { freed[(int *)d - item]++; }
static int same(const void *a, const void *b) { return a == b ? 0 : 1; }

static void check(void) {
    VP_ASSERT(mcp_list_size(l) == n && mcp_list_is_empty(l) == (n == 0), "the size is the number of elements");
    mcp_list_node_t *prev = NULL, *p = l->head;
    for (unsigned i = 0; i < n; i++) {
        VP_ASSERT(p != NULL, "forwards: no element is missing");
        if (!p) return;
        VP_ASSERT(p->data == &item[model[i]], "the elements are in order");
        VP_ASSERT(p == node_of[model[i]], "positions stay valid");
        VP_ASSERT(p->prev == prev, "backwards agrees with forwards");
        prev = p;
        p = p->next;
    }
    VP_ASSERT(p == NULL && l->tail == prev, "no further element");
    mcp_list_iterator_t it = mcp_list_iterator_begin(l);
    for (unsigned i = 0; i < n; i++) { VP_ASSERT(mcp_list_iterator_is_valid(&it) && mcp_list_iterator_get_data(&it) == &item[model[i]], "iteration visits the elements in order"); mcp_list_iterator_next(&it); }
    VP_ASSERT(!mcp_list_iterator_is_valid(&it), "iteration ends");
}
static void ins(unsigned at, int x) { for (unsigned i = n; i > at; i--) model[i] = model[i - 1]; model[at] = x; n++; }
static int del(unsigned at) { int x = model[at]; for (unsigned i = at; i + 1 < n; i++) model[i] = model[i + 1]; n--; return x; }

/* one operation; returns what the list gave back in *out (as item index, -1 none) */
static void op(unsigned k, unsigned pos) {
    int x = (int)fresh;
    switch (k) {
    case 0: fresh++; node_of[x] = mcp_list_push_front(l, &item[x]); VP_NONNULL(node_of[x], "inserted"); ins(0, x); break;
    case 1: fresh++; node_of[x] = mcp_list_push_back(l, &item[x]); VP_NONNULL(node_of[x], "inserted"); ins(n, x); break;
    case 2: { void *d = mcp_list_pop_front(l); VP_ASSERT(d == (n ? (void *)&item[model[0]] : NULL), "the front element is returned"); if (n) del(0); break; }
    case 3: { void *d = mcp_list_pop_back(l); VP_ASSERT(d == (n ? (void *)&item[model[n - 1]] : NULL), "the back element is returned"); if (n) del(n - 1); break; }
    case 4: {
        fresh++;
        bool at = pos < n;
        node_of[x] = mcp_list_insert_after(l, at ? node_of[model[pos]] : NULL, &item[x]);
        VP_NONNULL(node_of[x], "inserted");
        ins(at ? pos + 1 : 0, x);
        break;
    }
    case 5: if (pos < n) { int y = model[pos]; void *d = mcp_list_remove(l, node_of[y], NULL); VP_ASSERT(d == &item[y], "the removed element is returned"); del(pos); } break;
    case 6: if (pos < n) { int y = model[pos]; void *d = mcp_list_remove(l, node_of[y], on_free); VP_ASSERT(d == NULL && freed[y] == 1, "the removed element is handed to the destructor once"); freed[y] = 0; del(pos); } break;
    case 7: if (pos < n) { mcp_list_move_to_front(l, node_of[model[pos]]); int y = del(pos); ins(0, y); } break;
    case 8: {
        int y = pos < n ? model[pos] : MAXN - 1;
        mcp_list_node_t *f = mcp_list_find(l, &item[y], same);
        VP_ASSERT(f == (pos < n ? node_of[y] : NULL), "an element is found exactly when it is there");
        break;
    }
    case 9:
        mcp_list_clear(l, on_free);
        for (unsigned i = 0; i < n; i++) { VP_ASSERT(freed[model[i]] == 1, "clearing hands every element to the destructor once"); freed[model[i]] = 0; }
        n = 0;
        break;
    }
    VP_ASSERT_UNLOCKED();
}
static void build(void) {
    l = mcp_list_create(TS);
    VP_NONNULL(l, "created");
    for (unsigned i = 0; i < N0; i++) op(1, 0);
}
static void finish(void) {
    mcp_list_destroy(l, on_free);
    for (unsigned i = 0; i < MAXN; i++) {
        unsigned want = 0;
        for (unsigned j = 0; j < n; j++) if (model[j] == (int)i) want = 1;
        VP_ASSERT(freed[i] == want, "destruction hands every remaining element to the destructor once");
    }
    VP_ASSERT(vp_live == 0, "nothing is leaked");
}

#ifdef SEQ
/* every sequence OP1, any operation, any operation on a list of N0 elements */
void vp_harness(void) {
    build();
    check();
    op(OP1, POS1);
    check();
    unsigned k = vp_range(0, 9), pos = vp_range(0, 4);
    VP_REACH(k == 2, "a second operation");
    for (unsigned i = 0; i < 10; i++) for (unsigned j = 0; j < 5; j++) if (k == i && pos == j) {
        op(i, j);
        check();
#if SEQ > 1
        unsigned k3 = vp_range(0, 9), pos3 = vp_range(0, 4);
        for (unsigned a = 0; a < 10; a++) for (unsigned b = 0; b < 5; b++) if (k3 == a && pos3 == b) { op(a, b); check(); finish(); return; }
#endif
        finish();
        return;
    }
}
#endif

#ifdef RACE
/* two threads, one operation each, on a shared list: the second one may run at
 * any point where the first holds no lock; the outcome is that of one order */
static bool ran, racing;
static unsigned k2, p2;
static void *d2, *d1;
static mcp_list_node_t *nd2, *nd1;
static void *raw(unsigned k, unsigned pos, int x, mcp_list_node_t **nd) {
    switch (k) {
    case 0: *nd = mcp_list_push_front(l, &item[x]); return NULL;
    case 1: *nd = mcp_list_push_back(l, &item[x]); return NULL;
    case 2: return mcp_list_pop_front(l);
    case 3: return mcp_list_pop_back(l);
    case 7: if (pos < N0) mcp_list_move_to_front(l, node_of[pos]); return NULL;
    }
    return NULL;
}
void vp_yield(void) {
    if (racing && !ran && vp_bool()) { ran = true; d2 = raw(K2, P2, 5, &nd2); }
}
static int res[MAXN]; static unsigned rn;
static int m_op(unsigned k, unsigned pos, int x) {
    switch (k) {
    case 0: ins(0, x); return -1;
    case 1: ins(n, x); return -1;
    case 2: return n ? del(0) : -1;
    case 3: return n ? del(n - 1) : -1;
    case 7: for (unsigned i = 0; i < n; i++) if (pos < N0 && model[i] == (int)pos) { int y = del(i); ins(0, y); break; } return -1;
    }
    return -1;
}
static int idx(void *d) { return d ? (int)((int *)d - item) : -1; }
static bool matches(void) {
    if (n != rn) return false;
    for (unsigned i = 0; i < n; i++) if (model[i] != res[i]) return false;
    return true;
}
void vp_harness(void) {
    build();
    racing = true;
    d1 = raw(K1, P1, 4, &nd1);
    if (!ran) { ran = true; d2 = raw(K2, P2, 5, &nd2); }
    VP_ASSERT_UNLOCKED();
    mcp_list_node_t *prev = NULL, *p = l->head;
    for (rn = 0; p && rn < MAXN; rn++) { VP_ASSERT(p->prev == prev, "backwards agrees with forwards"); res[rn] = idx(p->data); prev = p; p = p->next; }
    VP_ASSERT(p == NULL, "the list ends");
    VP_ASSERT(l->tail == prev, "the back is the last element");
    VP_ASSERT(mcp_list_size(l) == rn, "the size is the number of elements");
    int keep[MAXN]; unsigned kn = n;
    for (unsigned i = 0; i < MAXN; i++) keep[i] = model[i];
    int a = m_op(K1, P1, 4), b = m_op(K2, P2, 5);
    bool one = matches() && a == idx(d1) && b == idx(d2);
    n = kn;
    for (unsigned i = 0; i < MAXN; i++) model[i] = keep[i];
    b = m_op(K2, P2, 5); a = m_op(K1, P1, 4);
    bool two = matches() && a == idx(d1) && b == idx(d2);
    VP_ASSERT(one || two, "the outcome is that of doing one after the other");
    mcp_list_destroy(l, NULL);
}
#endif

#ifdef FAULT
void vp_harness(void) {
    vp_oom_arm(1ull << FAULT);
    l = mcp_list_create(MCP_LIST_THREAD_SAFE);
    if (!l) { VP_ASSERT(vp_live == 0, "failed creation leaks nothing"); return; }
    for (int i = 0; i < 3; i++) {
        int x = (int)fresh++;
        mcp_list_node_t *p = i == 1 ? mcp_list_push_front(l, &item[x]) : i == 2 && n ? mcp_list_insert_after(l, node_of[model[0]], &item[x]) : mcp_list_push_back(l, &item[x]);
        if (p) { node_of[x] = p; ins(i == 1 ? 0 : i == 2 && n ? 1 : n, x); }
        VP_ASSERT_UNLOCKED();
        check();
    }
    vp_oom_off();
    finish();
#if FAULT != 2 && FAULT != 3
    VP_REACH(true, "end");
#endif
}
#endif
