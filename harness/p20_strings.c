/* Growable string buffers and string helpers. */
#include "vp.h"
#include <string.h>
#include "mcp_string_utils.h"

static char pre_at(unsigned i) { return (char)('a' + i % 26); }
static dyn_buf_t B;
static void check_pre(unsigned n) {
    for (unsigned i = 0; i < n; i++) VP_ASSERT(B.buffer[i] == pre_at(i), "what was appended earlier is kept");
}
#ifndef PRE
#define PRE 0
#endif
static bool prepare(void) {
    int r = dyn_buf_init(&B, 0);
    VP_ASSERT(r == 0, "a buffer can be made");
    if (r != 0) return false;
    VP_ASSERT(B.length == 0 && B.buffer[0] == 0, "a new buffer is empty");
    static char fill[40];
    for (unsigned i = 0; i < PRE; i++) fill[i] = pre_at(i);
    fill[PRE] = 0;
    r = dyn_buf_append(&B, fill);
    VP_ASSERT(r == 0 && B.length == PRE && B.capacity > PRE, "appending succeeds");
    return r == 0;
}
static void finish(void) {
#ifdef KEEP
    char *s = dyn_buf_finalize(&B);
    VP_NONNULL(s, "the finished text is handed over");
    VP_ASSERT(B.buffer == NULL && B.length == 0, "the buffer is empty after its text was handed over");
    free(s);
#endif
    dyn_buf_free(&B);
    VP_ASSERT(B.buffer == NULL && vp_live == 0, "a freed buffer leaves nothing behind");
    dyn_buf_free(&B);
}

#ifdef APPEND
/* appending LEN arbitrary characters after PRE known ones, in one of three ways */
void vp_harness(void) {
    if (!prepare()) return;
    char s[LEN + 1];
    for (unsigned i = 0; i < LEN; i++) { s[i] = (char)vp_u8(); VP_ASSUME(s[i] != 0); }
    s[LEN] = 0;
    size_t old = B.length;
#ifdef FAULT
    vp_oom_arm(1);
#endif
    int r = dyn_buf_append(&B, s);
    vp_oom_off();
    check_pre(PRE);
    if (r != 0) {
#ifndef FAULT
        VP_ASSERT(false, "appending succeeds");
#endif
        VP_ASSERT(B.length == old && B.buffer[old] == 0, "a failed append changes nothing");
#ifdef FAULT
        VP_REACH(r == -1, "append failed");
#endif
    } else {
        VP_ASSERT(B.length == old + LEN && B.length < B.capacity, "the length grows by what was appended");
        for (unsigned i = 0; i < LEN; i++) VP_ASSERT(B.buffer[old + i] == s[i], "exactly the text is appended");
        VP_ASSERT(B.buffer[old + LEN] == 0, "the text is terminated");
#if !defined FAULT
        VP_REACH(true, "appended");
#endif
        /* and one by one */
        for (unsigned i = 0; i < LEN; i++) {
            r = dyn_buf_append_char(&B, s[i]);
            VP_ASSERT(r == 0 && B.length == old + LEN + i + 1 && B.buffer[B.length - 1] == s[i] && B.buffer[B.length] == 0 && B.length < B.capacity, "a character is appended");
        }
        check_pre(PRE);
    }
    VP_ASSERT(dyn_buf_append(&B, NULL) == -1 && dyn_buf_append(NULL, s) == -1 && dyn_buf_append_char(NULL, 'x') == -1, "invalid arguments are refused");
    finish();
}
#endif

#ifdef JSON
/* the text appended is a JSON string literal for s */
static size_t literal(const char *t, const char *s, unsigned n) {
    size_t k = 0;
    VP_ASSERT(t[k] == '"', "a JSON string starts with a quote");
    k++;
    for (unsigned i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (t[k] == '\\') {
            char e = t[k + 1];
            unsigned v = 256;
            if (e == 'u') {
                v = 0;
                for (unsigned j = 0; j < 4; j++) {
                    char h = t[k + 2 + j];
                    unsigned d = h >= '0' && h <= '9' ? (unsigned)(h - '0') : h >= 'a' && h <= 'f' ? (unsigned)(h - 'a' + 10) : h >= 'A' && h <= 'F' ? (unsigned)(h - 'A' + 10) : 4096u;
                    v = v * 16 + d;
                }
                k += 6;
            } else {
                v = e == '"' ? '"' : e == '\\' ? '\\' : e == '/' ? '/' : e == 'b' ? 8 : e == 'f' ? 12 : e == 'n' ? 10 : e == 'r' ? 13 : e == 't' ? 9 : 256u;
                k += 2;
            }
            VP_ASSERT(v == c, "an escape denotes the character it stands for");
        } else {
            VP_ASSERT((unsigned char)t[k] == c, "a character stands for itself");
            VP_ASSERT(c >= 0x20 && c != '"' && c != '\\', "quotes, backslashes and control characters are escaped");
            k++;
        }
    }
    VP_ASSERT(t[k] == '"', "a JSON string ends with a quote");
    return k + 1;
}
void vp_harness(void) {
    if (!prepare()) return;
    char s[LEN + 1];
    for (unsigned i = 0; i < LEN; i++) {
        s[i] = (char)vp_u8(); VP_ASSUME(s[i] != 0);
#ifdef KEEP
        if (i != LEN / 2) s[i] = i & 1 ? '"' : 'k';
#endif
    }
    s[LEN] = 0;
    size_t old = B.length;
#ifdef FAULT
    vp_oom_arm(1);
#endif
    int r = dyn_buf_append_json_string(&B, s);
    vp_oom_off();
    check_pre(PRE);
    if (r != 0) {
#ifndef FAULT
        VP_ASSERT(false, "appending succeeds");
#endif
        VP_ASSERT(B.length == old && B.buffer[old] == 0, "a failed append changes nothing");
    } else {
        VP_ASSERT(B.length < B.capacity && B.buffer[B.length] == 0, "the text is terminated");
        size_t n = literal(B.buffer + old, s, LEN);
        VP_ASSERT(old + n == B.length, "nothing follows the literal");
        VP_REACH(true, "appended");
    }
    VP_ASSERT(dyn_buf_append_json_string(&B, NULL) == -1, "invalid arguments are refused");
    finish();
}
#endif

#ifdef HUGE
/* room for more than there can be */
void vp_harness(void) {
    if (!prepare()) return;
    uint64_t n = vp_u64();
    VP_ASSUME(n > 8);
    size_t cap = B.capacity;
    char *buf = B.buffer;
    vp_oom_arm(~0ull);
    int r = dyn_buf_ensure_capacity(&B, (size_t)n);
    vp_oom_off();
    VP_ASSERT(r == -1 || B.capacity > B.length + n, "room that was promised is there");
    VP_ASSERT(B.length == PRE && B.buffer[PRE] == 0 && (r == 0 || (B.buffer == buf && B.capacity == cap)), "asking for too much changes nothing");
    VP_REACH(n > (uint64_t)-4, "nearly the largest size");
    finish();
}
#endif

#ifdef COMPARE
static unsigned char low(char c) { return c >= 'A' && c <= 'Z' ? (unsigned char)(c + 32) : (unsigned char)c; }
void vp_harness(void) {
    char a[LEN + 1], b[LEN + 1];
    vp_str(a, LEN); vp_str(b, LEN);
    size_t la = vp_len(a), lb = vp_len(b);
    int want = 0;
    for (unsigned i = 0; i <= LEN && !want; i++) {
        unsigned char x = low(a[i]), y = low(b[i]);
        if (x != y) { want = x < y ? -1 : 1; }
        if (!x || !y) break;
    }
    int r = mcp_stricmp(a, b);
    VP_ASSERT((r < 0) == (want < 0) && (r > 0) == (want > 0), "comparison ignores the case of letters and nothing else");
    bool pre = la >= lb, suf = la >= lb;
    for (unsigned i = 0; i < LEN; i++) if (i < lb && la >= lb) { if (a[i] != b[i]) pre = false; if (a[la - lb + i] != b[i]) suf = false; }
    VP_ASSERT(mcp_str_starts_with(a, b) == pre, "the prefix test agrees with its definition");
    VP_ASSERT(mcp_str_ends_with(a, b) == suf, "the suffix test agrees with its definition");
    /* a trailing star stands for any rest */
    bool star = lb && b[lb - 1] == '*';
    bool w = true;
    for (unsigned i = 0; i <= LEN; i++) { if (i < (star ? lb - 1 : lb + 1) && w) { if (a[i] != b[i]) w = false; } if (!w) break; }
    VP_ASSERT(mcp_wildcard_match(b, a) == w, "a pattern matches exactly its text, or any text with its prefix if it ends in a star");
    VP_REACH(pre && lb == 2 && suf, "prefix and suffix");
    VP_REACH(w && star && la > lb, "wildcard");
    VP_ASSERT(mcp_stricmp(NULL, NULL) == 0 && mcp_stricmp(a, NULL) > 0 && mcp_stricmp(NULL, a) < 0, "nothing sorts before anything");
    VP_ASSERT(!mcp_str_starts_with(NULL, a) && !mcp_str_ends_with(a, NULL) && !mcp_wildcard_match(NULL, a), "nothing matches nothing");
}
#endif

#ifdef SPLIT
/* the string of LEN characters, with delimiters where MASK says */
static void go(unsigned mask) {
    char d = (char)vp_u8();
    VP_ASSUME(d != 0);
    char s[LEN + 1], t[LEN + 1];
    for (unsigned i = 0; i < LEN; i++) {
        s[i] = (char)vp_u8();
        VP_ASSUME(s[i] != 0);
        if (mask >> i & 1) s[i] = d; else VP_ASSUME(s[i] != d);
        t[i] = s[i];
    }
    s[LEN] = t[LEN] = 0;
    size_t n = 77, want = 1;
    for (unsigned i = 0; i < LEN; i++) want += mask >> i & 1;
#ifdef FAULT
    vp_oom_arm(1);
#endif
    char **tok = mcp_str_split(s, d, &n);
    vp_oom_off();
#ifdef FAULT
    VP_ASSERT(tok == NULL && n == 0, "lack of memory is reported");
    for (unsigned i = 0; i < LEN; i++) VP_ASSERT(s[i] == t[i], "a failed split leaves the text alone");
#else
    VP_NONNULL(tok, "a string can be split");
    VP_ASSERT(n == want, "there is one token more than there are delimiters");
    size_t k = 0, start = 0;
    for (unsigned i = 0; i <= LEN; i++) {
        if (i < LEN && !(mask >> i & 1)) continue;
        VP_ASSERT(tok[k] == s + start, "each token starts after a delimiter");
        for (size_t j = start; j < i; j++) VP_ASSERT(s[j] == t[j], "tokens are the text between the delimiters");
        VP_ASSERT(s[i] == 0, "each token is terminated");
        k++;
        start = i + 1;
    }
    free(tok);
#endif
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    VP_REACH(mask == (1u << LEN) - 1, "only delimiters");
    char *c = mcp_strdup(t);
    VP_NONNULL(c, "a string can be copied");
    for (unsigned i = 0; i <= LEN; i++) VP_ASSERT(c[i] == t[i], "a copy equals its original");
    free(c);
}
void vp_harness(void) {
    unsigned m = vp_range(0, (1u << LEN) - 1);
    for (unsigned i = 0; i < 1u << LEN; i++) if (m == i) { go(i); return; }
}
#endif
