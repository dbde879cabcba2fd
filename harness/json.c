/* JSON text and values: the real parser, value tree and serialiser.  The hash
 * table of objects and the arena are stand-ins (both have properties of their
 * own); the conversion between doubles and digits is the C library's and is
 * modelled as exact for 17 significant digits and inexact for fewer. */
#include "vp.h"
#include "mcp_json.h"
#include "mcp_json_utils.h"
#include "mcp_arena.h"
#include <stdarg.h>

/* ---- numbers ---- */
static double num_val;          /* the value last written as text */
static bool num_exact;
#define NUM_TEXT "-12.5e-3"
static bool num_written;
static int put_text(char *b, size_t n, bool finite) {
    char t[] = NUM_TEXT;
    if (!finite) { t[0] = 'i'; t[1] = 'n'; t[2] = 'f'; }
    size_t i = 0;
    for (; t[i] && i + 1 < n; i++) b[i] = t[i];
    if (n) b[i] = 0;
    return (int)i;
}
int vj_snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int prec = 6, k = 0;
    while (f[k] && f[k] != '.') k++;
    if (f[k] == '.' && f[k + 1] >= '0' && f[k + 1] <= '9') { prec = f[k + 1] - '0'; if (f[k + 2] >= '0' && f[k + 2] <= '9') { prec = prec * 10 + f[k + 2] - '0'; k++; } k += 2; }
    char c = 0;
    for (int i = 0; f[i]; i++) c = f[i];
    int r;
    if (c == 'g' || c == 'e' || c == 'G' || c == 'E') {
        num_val = va_arg(ap, double);
        num_exact = prec >= (c == 'g' || c == 'G' ? 17 : 16);
        num_written = true;
        r = put_text(b, n, isfinite(num_val));
    } else r = vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
static const char *text0;       /* the text being parsed */
static bool dig(char c) { return c >= '0' && c <= '9'; }
/* end of the number at s by the C library's rules (decimal), or s */
static const char *c_number(const char *s) {
    const char *p = s;
    if (*p == '-' || *p == '+') p++;
    bool any = false;
    for (; dig(*p); p++) any = true;
    if (*p == '.') { const char *q = p + 1; bool more = false; for (; dig(*q); q++) more = true; if (any || more) { p = q; any = true; } }
    if (!any) return s;
    if (*p == 'e' || *p == 'E') {
        const char *q = p + 1;
        if (*q == '+' || *q == '-') q++;
        if (dig(*q)) { while (dig(*q)) q++; p = q; }
    }
    return p;
}
double vj_strtod(const char *s, char **e) {
    const char *p = c_number(s);
    if (e) *e = (char *)p;
    if (num_written) return vp_eqn(s, NUM_TEXT, sizeof NUM_TEXT - 1) ? (num_exact ? num_val : num_val + 1 + num_val) : 4711;
    return (double)((s - text0) * 64 + (p - s));        /* which number it is */
}

/* ---- reference for strings ---- */
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hex4v(const char *s) {
    int v = 0;
    for (int i = 0; i < 4; i++) { int h = hexv(s[i]); if (h < 0) return -1; v = v * 16 + h; }
    return v;
}
/* the value of the string text s of n bytes between its quotes: length, or -1
 * if it is not well-formed, -2 if this is left open (raw control characters,
 * lone surrogates, U+0000) */
static int ref_string(const char *s, int n, char *out) {
    int o = 0, i = 0;
    bool open = false;
    while (i < n) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"') return -1;
        if (c == 0) return -1;
        if (c < 32) { open = true; out[o++] = (char)c; i++; continue; }
        if (c != '\\') { out[o++] = (char)c; i++; continue; }
        if (i + 1 >= n) return -1;
        char k = s[i + 1];
        i += 2;
        if (k == '"' || k == '\\' || k == '/') out[o++] = k;
        else if (k == 'b') out[o++] = '\b';
        else if (k == 'f') out[o++] = '\f';
        else if (k == 'n') out[o++] = '\n';
        else if (k == 'r') out[o++] = '\r';
        else if (k == 't') out[o++] = '\t';
        else if (k == 'u') {
            if (i + 4 > n) return -1;
            int v = hex4v(s + i);
            if (v < 0) return -1;
            i += 4;
            if (v >= 0xd800 && v <= 0xdbff && i + 6 <= n && s[i] == '\\' && s[i + 1] == 'u') {
                int w = hex4v(s + i + 2);
                if (w < 0) return -1;
                if (w >= 0xdc00 && w <= 0xdfff) { v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); i += 6; }
            }
            if (v == 0 || (v >= 0xd800 && v <= 0xdfff)) open = true;
            if (v < 0x80) out[o++] = (char)v;
            else if (v < 0x800) { out[o++] = (char)(0xc0 | v >> 6); out[o++] = (char)(0x80 | (v & 63)); }
            else if (v < 0x10000) { out[o++] = (char)(0xe0 | v >> 12); out[o++] = (char)(0x80 | (v >> 6 & 63)); out[o++] = (char)(0x80 | (v & 63)); }
            else { out[o++] = (char)(0xf0 | v >> 18); out[o++] = (char)(0x80 | (v >> 12 & 63)); out[o++] = (char)(0x80 | (v >> 6 & 63)); out[o++] = (char)(0x80 | (v & 63)); }
        } else return -1;
    }
    out[o] = 0;
    return open ? -2 : o;
}
/* characters that steer the parser, and neighbours of the limits */
static const char steer[] = "\"\\/bfnrtu09afgAFG [,\x01\x08\x0a\x1f\x7f\x80\xff";
#define NSTEER ((int)sizeof steer)       /* with the end of the text */
static long live0;
static mcp_json_t *parse(const char *t) {
    text0 = t;
    live0 = vp_live;
    mcp_json_t *j = mcp_json_parse(t);
    if (!j) { mcp_arena_reset_current_thread(); VP_ASSERT(vp_live == live0, "a refused text leaves no memory behind"); }
    return j;
}
static void done(mcp_json_t *j) {
    if (!j) return;
    mcp_json_destroy(j);
    mcp_arena_reset_current_thread();
    VP_ASSERT(vp_live == live0, "a destroyed value leaves no memory behind");
}

#if defined(STRING)
/* a string with STRING characters chosen by the solver, after LEAD */
#ifndef LEAD
#define LEAD ""
#endif
#ifndef TRAIL
#define TRAIL ""
#endif
static char text[48], want[48];
static void judge(int n) {
    for (const char *l = TRAIL; *l; l++) text[n++] = *l;
    text[n++] = '"';
    text[n] = 0;
    int len = 0;
    while (text[len]) len++;
    /* the string ends at the first quote that is not escaped */
    int end = 1;
    while (text[end] && text[end] != '"') end += text[end] == '\\' && text[end + 1] ? 2 : 1;
    bool whole = text[end] == '"' && end == len - 1;
    int r = whole ? ref_string(text + 1, end - 1, want) : -1;
    if (!whole) {       /* blanks after the string are fine */
        int k = end + 1;
        while (text[end] && (text[k] == ' ' || text[k] == '\n')) k++;
        if (text[end] && !text[k]) r = ref_string(text + 1, end - 1, want);
    }
    mcp_json_t *j = parse(text);
    VP_REACH(true, "decided");
    VP_ASSERT(r != -1 || !j, "a malformed string is refused");
    if (r >= 0) {
        const char *s = NULL;
        VP_ASSERT(j && mcp_json_get_type(j) == MCP_JSON_STRING && mcp_json_get_string(j, &s) == 0, "a well-formed string is accepted");
        if (!s) return;
        bool same = true;
        for (int i = 0; i <= r; i++) if (s[i] != want[i]) same = false;
        VP_ASSERT(same, "with the characters it denotes");
    }
    done(j);
}
static void chars(int n, int left) {
    if (left == 0) { judge(n); return; }
#ifdef ALL
    int k = (int)vp_range(FROM, TO);
    for (int i = FROM; i <= TO; i++) if (k == i) { text[n] = (char)i; chars(n + 1, left - 1); return; }
#else
    int k = (int)vp_range(0, NSTEER - 1);
    for (int i = 0; i < NSTEER; i++) if (k == i) {
        text[n] = steer[i];
        if (left == 2 && i != FIRST) return;
        chars(n + 1, left - 1);
        return;
    }
#endif
}
void vp_harness(void) {
    int n = 0;
    text[n++] = '"';
    for (const char *l = LEAD; *l; l++) text[n++] = *l;
    chars(n, STRING);
}
#elif defined(UNIT)
/* escaped code units, the digits marked ? chosen by the solver */
static char text[32], want[32];
static const char lead[] = LEAD, hexes[] = "0123456789abcdefABCDEF";
static void digits(int n) {
    if (lead[n] && lead[n] != '?') { text[n + 1] = lead[n]; digits(n + 1); return; }
    if (lead[n]) {
        int k = (int)vp_range(0, 21);
        for (int i = 0; i < 22; i++) if (k == i) { text[n + 1] = hexes[i]; digits(n + 1); return; }
        return;
    }
    text[0] = text[n + 1] = '"';
    text[n + 2] = 0;
    mcp_json_t *j = parse(text);
    const char *s = NULL;
    int r = ref_string(text + 1, n, want);
    VP_ASSERT(r != -1, "well-formed");
    if (r < 0) return;
    VP_ASSERT(j && mcp_json_get_string(j, &s) == 0, "an escaped character is accepted");
    if (!s) return;
    bool same = true;
    for (int i = 0; i <= r; i++) if (s[i] != want[i]) same = false;
    VP_ASSERT(same, "as the character it denotes");
    VP_REACH(true, "accepted");
}
void vp_harness(void) { digits(0); }
#elif defined(NUMBER)
/* numbers of up to NUMBER characters, up to the first that is wrong */
static char text[16];
static const char alpha[] = "0-1.eE+9";
/* the state after s: what may follow; 0 if it is wrong */
static char ref_number(const char *s) {
    char st = 's';
    for (; *s; s++) {
        bool d = dig(*s), e = *s == 'e' || *s == 'E';
        if ((st == 's' && *s == '-')) st = 'm';
        else if ((st == 's' || st == 'm') && *s == '0') st = 'z';
        else if ((st == 's' || st == 'm' || st == 'i') && d) st = 'i';
        else if ((st == 'z' || st == 'i') && *s == '.') st = 'p';
        else if ((st == 'p' || st == 'f') && d) st = 'f';
        else if ((st == 'z' || st == 'i' || st == 'f') && e) st = 'e';
        else if (st == 'e' && (*s == '+' || *s == '-')) st = 'g';
        else if ((st == 'e' || st == 'g' || st == 'x') && d) st = 'x';
        else return 0;
    }
    return st;
}
static void judge(int n) {
    char st = ref_number(text);
    bool fine = st == 'z' || st == 'i' || st == 'f' || st == 'x';
    mcp_json_t *j = parse(text);
    VP_REACH(true, "decided");
    VP_ASSERT((j != NULL) == fine, "exactly the well-formed numbers are accepted");
    double v = 0;
    if (j) VP_ASSERT(mcp_json_get_type(j) == MCP_JSON_NUMBER && mcp_json_get_number(j, &v) == 0 && v == (double)n, "the number is the whole text");
    done(j);
}
static void more(int n) {
    int k = n < NUMBER ? (int)vp_range(0, 8) : 8;
    for (int i = 0; i <= 8; i++) if (k == i) {
        if (n == 0 && i != FIRST) return;
        text[n] = alpha[i];
        text[n + 1] = 0;
        if (i == 8) { judge(n); return; }
        if (ref_number(text)) more(n + 1); else judge(n + 1);
        return;
    }
}
void vp_harness(void) { more(0); }
#elif defined(WORD)
/* the three words with one character changed, missing or added */
static char text[16];
static void run(const char *w, int kind, int at, char c) {
    int n = 0;
    for (; w[n]; n++) text[n] = n == at ? c : w[n];
    if (at == n) text[n++] = c;
    text[n] = 0;
    bool blank = c == ' ' || c == '\n';
    bool fine = at == (int)vp_len(w) ? blank || c == 0 : c == w[at];
    mcp_json_t *j = parse(text);
    VP_REACH(fine && j, "accepted"); VP_REACH(!j, "refused");
    VP_ASSERT((j != NULL) == fine, "exactly the three words are accepted");
    bool b = kind != 1;
    if (j) VP_ASSERT(kind == 0 ? mcp_json_get_type(j) == MCP_JSON_NULL : mcp_json_get_boolean(j, &b) == 0 && b == (kind == 1), "with their value");
    done(j);
}
void vp_harness(void) {
    static const char *ws[] = { "null", "true", "false" };
    static const char cs[] = { 0, ' ', '\n', 'n', 'u', 'l', 't', 'r', 'e', 'f', 'a', 's', 'N', 'x', ',' };
    int at = (int)vp_range(0, 5), ch = (int)vp_range(0, 14);
    for (int a = 0; a < 6; a++) if (at == a) for (int c = 0; c < 15; c++) if (ch == c) {
        if (a <= (int)vp_len(ws[WORD]) && !(a == 0 && (cs[c] == ' ' || cs[c] == '\n'))) run(ws[WORD], WORD, a, cs[c]);
        return;
    }
}
#elif defined(TOKENS)
/* documents of up to TOKENS tokens, up to the first token that is wrong */
static const char *const tok[] = { "[", "]", "{", "}", ",", ":", "1", "\"a\"", "true", "\"b\"" };
#define NTOK 10
#ifndef SEP
#define SEP ""
#endif
static char text[64];
static int tlen, last_tok;
/* reference: nodes in order of appearance */
#define MAXN 12
static struct { int kind, first, next, name, pos; } nd[MAXN];     /* kind: token index of the value, [ for arrays, { for objects */
static int nn;
static struct { int node, last, name; char what; } st[MAXN];
static int sp;
/* what may come: v value, w value or ], k key or }, K key, c colon, a , or ], o , or }, e end */
static char expect;
static void add(int kind, int pos) {
    nd[nn].kind = kind; nd[nn].first = nd[nn].next = -1; nd[nn].pos = pos; nd[nn].name = -1;
    if (sp > 0) {
        nd[nn].name = st[sp - 1].name;
        if (st[sp - 1].last < 0) nd[st[sp - 1].node].first = nn; else nd[st[sp - 1].last].next = nn;
        st[sp - 1].last = nn;
    }
    nn++;
}
static void after(void) { expect = sp == 0 ? 'e' : st[sp - 1].what == '[' ? 'a' : 'o'; }
static void open_(int kind, char what) { st[sp].node = nn - 1; st[sp].last = -1; st[sp].what = what; st[sp].name = -1; sp++; (void)kind; }
/* takes one more token; false if it cannot follow */
static bool feed(int t, int pos) {
    bool value = t == 0 || t == 2 || t >= 6;
    if (expect == 'v' || (expect == 'w' && t != 1)) {
        if (!value) return false;
        add(t, pos);
        if (t == 0) { open_(t, '['); expect = 'w'; }
        else if (t == 2) { open_(t, '{'); expect = 'k'; }
        else after();
        return true;
    }
    if ((expect == 'w' || expect == 'a') && t == 1) { sp--; after(); return true; }
    if ((expect == 'k' || expect == 'o') && t == 3) { sp--; after(); return true; }
    if ((expect == 'k' || expect == 'K') && (t == 7 || t == 9)) { st[sp - 1].name = t; expect = 'c'; return true; }
    if (expect == 'c' && t == 5) { expect = 'v'; return true; }
    if (expect == 'a' && t == 4) { expect = 'v'; return true; }
    if (expect == 'o' && t == 4) { expect = 'K'; return true; }
    return false;
}
static bool agree(const mcp_json_t *j, int n) {
    if (!j) return false;
    double v; bool b; const char *s;
    switch (nd[n].kind) {
    case 6: return mcp_json_get_number(j, &v) == 0 && v == (double)(nd[n].pos * 64 + 1);
    case 7: return mcp_json_get_string(j, &s) == 0 && vp_eq(s, "a");
    case 9: return mcp_json_get_string(j, &s) == 0 && vp_eq(s, "b");
    case 8: return mcp_json_get_boolean(j, &b) == 0 && b;
    case 0: {
        if (mcp_json_get_type(j) != MCP_JSON_ARRAY) return false;
        int i = 0;
        for (int k = nd[n].first; k >= 0; k = nd[k].next) { if (!agree(mcp_json_array_get_item(j, i), k)) return false; i++; }
        return mcp_json_array_get_size(j) == i && mcp_json_array_get_item(j, i) == NULL;
    }
    case 2: {
        if (mcp_json_get_type(j) != MCP_JSON_OBJECT) return false;
        int a = -1, bb = -1;
        for (int k = nd[n].first; k >= 0; k = nd[k].next) if (nd[k].name == 7) a = k; else bb = k;
        if (mcp_json_object_has_property(j, "a") != (a >= 0) || mcp_json_object_has_property(j, "b") != (bb >= 0)) return false;
        if (mcp_json_object_has_property(j, "c") || mcp_json_object_get_property(j, "c")) return false;
        if (a >= 0 && !agree(mcp_json_object_get_property(j, "a"), a)) return false;
        if (bb >= 0 && !agree(mcp_json_object_get_property(j, "b"), bb)) return false;
        return true;
    }
    }
    return false;
}
static void judge(bool fine) {
    mcp_json_t *j = parse(text);
    VP_REACH(fine && expect == 'e', "a document"); VP_REACH(!fine, "not a document");
    VP_ASSERT((j != NULL) == (fine && expect == 'e'), "exactly the well-formed documents are accepted");
    if (j) VP_ASSERT(agree(j, 0), "with the value they denote");
    done(j);
}
static void put(const char *s) { while (*s) text[tlen++] = *s++; text[tlen] = 0; }
static void doc(int left) {
    int k = left > 0 ? (int)vp_range(0, NTOK) : NTOK;
    for (int i = 0; i <= NTOK; i++) if (k == i) {
        if (i == NTOK) { judge(true); return; }
        if (i >= 6 && last_tok == 6) put(" ");       /* two words need a space between them */
        int pos = tlen;
        bool ok = feed(i, pos);
        put(tok[i]); put(SEP);
        last_tok = i == 6 || i == 8 ? 6 : i;
        if (!ok) { judge(false); return; }
        doc(left - 1);
        return;
    }
}
void vp_harness(void) {
    expect = 'v'; last_tok = -1;
    put(SEP);
    static const int fixed[] = { FIXED };
    for (int i = 0; i < (int)(sizeof fixed / sizeof fixed[0]) - 1; i++) { VP_ASSERT(feed(fixed[i], tlen), "start"); put(tok[fixed[i]]); put(SEP); last_tok = fixed[i] == 6 || fixed[i] == 8 ? 6 : fixed[i]; }
    doc(TOKENS);
}
#elif defined(DEEP)
/* arrays nested n deep */
static char text[300];
void vp_harness(void) {
    int n = DEEP;
    for (int i = 0; i < n; i++) { text[i] = '['; text[n + i] = ']'; }
    text[2 * n] = 0;
    mcp_json_t *j = mcp_json_parse(text);
    VP_ASSERT(n > 100 || j, "100 levels are accepted");
    VP_ASSERT(n < 102 || !j, "deeper nesting is refused");
    VP_REACH(true, "decided");
}
#elif defined(BYTES)
/* arbitrary bytes: no memory error, and nothing but a value or a refusal */
static char text[8];
void vp_harness(void) {
    vp_str(text, BYTES);
    mcp_json_t *j = parse(text);
    VP_REACH(j == NULL, "refused"); VP_REACH(j != NULL, "accepted");
    done(j);
}
#elif defined(WRITE_STRING)
/* a string with arbitrary bytes, as a value or as a member name, after PRE other characters */
static char s[8], back[64];
static void run(void) {
    long before = vp_live;
    mcp_json_t *v = mcp_json_string_create(s), *j = v;
    VP_NONNULL(v, "a string value is made");
    const char *g = NULL;
    VP_ASSERT(mcp_json_get_string(v, &g) == 0 && vp_eq(g, s), "a string value holds the string");
    int off = 0;
#if WHERE == 1
    j = mcp_json_array_create();
    for (int i = 0; i < PRE; i++) mcp_json_array_add_item(j, mcp_json_boolean_create(true));
    mcp_json_array_add_item(j, v);
    off = 1 + 5 * PRE;
#elif WHERE == 2
    mcp_json_destroy(v);
    j = mcp_json_object_create();
    mcp_json_object_set_property(j, s, mcp_json_null_create());
    off = 1;
#endif
    char *t = mcp_json_stringify(j);
    VP_NONNULL(t, "the value is written");
    int end = off + 1;
    bool esc = false;
    for (; t[end]; end++) {
        if (t[end] == '"' && !esc) break;
        VP_ASSERT((unsigned char)t[end] >= 32, "no control character is written into a string");
        esc = t[end] == '\\' && !esc;
    }
    VP_ASSERT(t[off] == '"' && t[end] == '"', "the string is quoted");
    int r = ref_string(t + off + 1, end - off - 1, back);
    VP_ASSERT(r == WRITE_STRING && vp_eq(back, s), "the text denotes the string");
#if WHERE == 0
    VP_ASSERT(t[end + 1] == 0, "nothing else is written");
#elif WHERE == 1
    VP_ASSERT(t[0] == '[' && t[end + 1] == ']' && t[end + 2] == 0, "nothing else is written");
#else
    VP_ASSERT(t[0] == '{' && vp_eq(t + end + 1, ":null}"), "nothing else is written");
#endif
    VP_REACH(true, "written");
#ifdef BACK
    mcp_json_t *b = mcp_json_parse(t);
    VP_NONNULL(b, "the text parses");
#if WHERE == 0
    g = NULL;
    VP_ASSERT(mcp_json_get_string(b, &g) == 0 && g && vp_eq(g, s), "the text parses back to the string");
#elif WHERE == 2
    VP_ASSERT(mcp_json_object_has_property(b, s), "the text parses back to the member");
#endif
    mcp_json_destroy(b);
#endif
    free(t);
    mcp_json_destroy(j);
    mcp_arena_reset_current_thread();
    VP_ASSERT(vp_live == before, "no memory is lost");
}
static void chars(int n) {
    if (n == WRITE_STRING) { run(); return; }
#ifdef ALL
    int k = (int)vp_range(FROM, TO);
    for (int i = FROM; i <= TO; i++) if (k == i) { s[n] = (char)i; chars(n + 1); return; }
#else
    int k = (int)vp_range(0, NSTEER - 2);
    for (int i = 0; i < NSTEER - 1; i++) if (k == i) {
        if (n == 0 && i != FIRST) return;
        s[n] = steer[i];
        chars(n + 1);
        return;
    }
#endif
}
void vp_harness(void) { chars(0); }
#elif defined(WRITE_NUMBER)
void vp_harness(void) {
    uint64_t u = vp_u64(); struct { double d; } x; memcpy(&x.d, &u, sizeof u);
    VP_ASSUME(!isnan(x.d));
    mcp_json_t *v = mcp_json_number_create(x.d);
    VP_NONNULL(v, "a number is made");
    char *t = mcp_json_stringify(v);
    VP_NONNULL(t, "a number is written");
    num_written = true;
    mcp_json_t *b = parse(t);
    VP_NONNULL(b, "the text parses");
    VP_REACH(!isfinite(x.d), "infinite"); VP_REACH(x.d == 0.5, "a fraction");
    if (isfinite(x.d)) {
        double d = 0;
        VP_ASSERT(mcp_json_get_number(b, &d) == 0 && d == x.d, "the text parses back to the number");
    } else VP_ASSERT(mcp_json_get_type(b) == MCP_JSON_NULL, "what JSON cannot express becomes null");
    free(t);
}
#elif defined(WRITE_TREE)
/* trees: shapes chosen by the solver, written and parsed back */
static mcp_json_t *leaf(int k) {
    switch (k) {
    case 0: return mcp_json_null_create();
    case 1: return mcp_json_boolean_create(true);
    case 2: return mcp_json_boolean_create(false);
    case 3: return mcp_json_string_create("a\"b");
    case 4: return mcp_json_string_create("");
    case 5: return mcp_json_array_create();
    default: return mcp_json_object_create();
    }
}
static bool leaf_is(const mcp_json_t *j, int k) {
    bool b; const char *s; char **names; size_t n = 9;
    if (!j) return false;
    switch (k) {
    case 0: return mcp_json_get_type(j) == MCP_JSON_NULL;
    case 1: case 2: return mcp_json_get_boolean(j, &b) == 0 && b == (k == 1);
    case 3: return mcp_json_get_string(j, &s) == 0 && vp_eq(s, "a\"b");
    case 4: return mcp_json_get_string(j, &s) == 0 && vp_eq(s, "");
    case 5: return mcp_json_array_get_size(j) == 0;
    default: return mcp_json_get_type(j) == MCP_JSON_OBJECT && mcp_json_object_get_property_names(j, &names, &n) == 0 && n == 0;
    }
}
static void run(int a, int b) {
    long before = vp_live;
    mcp_json_t *x = leaf(a), *y = leaf(b), *z = leaf(a), *arr = mcp_json_array_create(), *obj = mcp_json_object_create();
    VP_ASSERT(mcp_json_array_add_item(arr, x) == 0 && mcp_json_array_add_item(arr, y) == 0, "added");
    int r1 = mcp_json_object_set_property(obj, "k", leaf(6)), r2 = mcp_json_object_set_property(obj, "k", arr), r3 = mcp_json_object_set_property(obj, "", z);
    VP_ASSERT(r1 == 0 && r2 == 0 && r3 == 0, "set");
    char *t = mcp_json_stringify(obj);
    VP_NONNULL(t, "written");
    mcp_json_t *p = mcp_json_parse(t);
    VP_NONNULL(p, "the text parses");
    mcp_json_t *pa = mcp_json_object_get_property(p, "k");
    VP_ASSERT(mcp_json_array_get_size(pa) == 2 && leaf_is(mcp_json_array_get_item(pa, 0), a) && leaf_is(mcp_json_array_get_item(pa, 1), b), "arrays keep their elements in order");
    VP_ASSERT(leaf_is(mcp_json_object_get_property(p, ""), a), "objects keep their members");
    char **names = NULL; size_t n = 0;
    VP_ASSERT(mcp_json_object_get_property_names(p, &names, &n) == 0 && n == 2, "and no others");
    if (names) { for (size_t i = 0; i < n; i++) free(names[i]); free(names); }
    VP_ASSERT(mcp_json_object_delete_property(obj, "k") == 0 && !mcp_json_object_has_property(obj, "k") && mcp_json_object_has_property(obj, ""), "a member can be deleted");
    free(t);
    mcp_json_destroy(p); mcp_json_destroy(obj);
    mcp_arena_reset_current_thread();
    VP_REACH(b == 6, "a tree");
    VP_ASSERT(vp_live == before, "no memory is lost");
}
void vp_harness(void) {
    int b = (int)vp_range(0, 6);
    for (int k = 0; k < 7; k++) if (b == k) { run(WRITE_TREE, k); return; }
}
#elif defined(WRITE_MANY)
/* n elements: every growth of the text */
static void run(int n) {
    long before = vp_live;
    mcp_json_t *arr = mcp_json_array_create();
    for (int i = 0; i < n; i++) VP_ASSERT(mcp_json_array_add_item(arr, mcp_json_boolean_create(i & 1)) == 0, "added");
    char *t = CAP ? mcp_json_stringify_with_capacity(arr, CAP) : mcp_json_stringify(arr);
    VP_NONNULL(t, "written");
    int k = 0;
    bool ok = t[k++] == '[';
    for (int i = 0; i < n; i++) {
        if (i) ok = ok && t[k++] == ',';
        const char *w = i & 1 ? "true" : "false";
        for (; *w; w++) ok = ok && t[k++] == *w;
    }
    VP_ASSERT(ok && t[k] == ']' && t[k + 1] == 0, "every element is written");
    VP_REACH(n == N, "all");
    free(t);
    mcp_json_destroy(arr);
    mcp_arena_reset_current_thread();
    VP_ASSERT(vp_live == before, "no memory is lost");
}
void vp_harness(void) {
    int at = (int)vp_range(0, N);
    for (int i = 0; i <= N; i++) if (at == i) { run(i); return; }
}
#elif defined(WRITE_FAULT)
/* allocations fail */
void vp_harness(void) {
    int at = (int)vp_range(0, 24);
    for (int i = 0; i <= 24; i++) if (at == i) {
        long before = vp_live;
#if WRITE_FAULT == 0
        vp_oom_arm(1ull << i);
        mcp_json_t *j = mcp_json_parse(text0 = "{\"a\":[1,\"x\",{\"b\":true}],\"c\":\"y\"}");
        vp_oom_off();
        if (j) { VP_ASSERT(mcp_json_array_get_size(mcp_json_object_get_property(j, "a")) == 3 && mcp_json_object_has_property(j, "c"), "a value is complete"); mcp_json_destroy(j); }
        VP_REACH(i == 0 && !j, "fails"); VP_REACH(i == 24 && j, "every allocation covered");
        mcp_arena_reset_current_thread();
#else
        mcp_json_t *j = mcp_json_array_create();
        mcp_json_array_add_item(j, mcp_json_string_create("abc"));
        mcp_json_array_add_item(j, mcp_json_boolean_create(true));
        vp_oom_arm(1ull << i);
        char *t = mcp_json_stringify(j);
        vp_oom_off();
        VP_ASSERT(!t || vp_eq(t, "[\"abc\",true]"), "the text is complete");
        VP_REACH(i == 0 && !t, "fails");
        free(t);
        mcp_json_destroy(j);
        mcp_arena_reset_current_thread();
#endif
        VP_ASSERT(vp_live == before, "no memory is lost");
        return;
    }
}
#endif
