/* Models, for the solver only, of libc functions CBMC has no (exact) body for.
 * The native replay uses the real ones. */
#include "vp.h"
#ifdef VP_CBMC

char *strstr(const char *h, const char *n) {
    size_t nl = 0;
    while (n[nl]) nl++;
    for (size_t i = 0;; i++) {
        size_t j = 0;
        while (j < nl && h[i + j] == n[j]) j++;
        if (j == nl) return (char *)(h + i);
        if (!h[i]) return NULL;
    }
}
char *strcasestr(const char *h, const char *n) {
    size_t nl = 0;
    while (n[nl]) nl++;
    for (size_t i = 0;; i++) {
        size_t j = 0;
        while (j < nl && tolower((unsigned char)h[i + j]) == tolower((unsigned char)n[j])) j++;
        if (j == nl) return (char *)(h + i);
        if (!h[i]) return NULL;
    }
}
void *memmem(const void *hv, size_t hl, const void *nv, size_t nl) {
    const unsigned char *h = hv, *n = nv;
    if (nl == 0) return (void *)h;
    for (size_t i = 0; i + nl <= hl; i++) {
        size_t j = 0;
        while (j < nl && h[i + j] == n[j]) j++;
        if (j == nl) return (void *)(h + i);
    }
    return NULL;
}
size_t strspn(const char *s, const char *a) {
    size_t n = 0;
    for (; s[n]; n++) {
        size_t k = 0;
        while (a[k] && a[k] != s[n]) k++;
        if (!a[k]) break;
    }
    return n;
}
size_t strcspn(const char *s, const char *a) {
    size_t n = 0;
    for (; s[n]; n++) {
        size_t k = 0;
        while (a[k] && a[k] != s[n]) k++;
        if (a[k]) break;
    }
    return n;
}
char *strpbrk(const char *s, const char *a) {
    for (; *s; s++)
        for (size_t k = 0; a[k]; k++)
            if (a[k] == *s) return (char *)s;
    return NULL;
}
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *memchr(const void *v, int c, size_t n) {
    const unsigned char *s = v;
    for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
    return NULL;
}
void *memrchr(const void *v, int c, size_t n) {
    const unsigned char *s = v;
    while (n-- > 0) if (s[n] == (unsigned char)c) return (void *)(s + n);
    return NULL;
}
char *strtok_r(char *s, const char *d, char **save) {
    if (!s) s = *save;
    if (!s) return NULL;
    s += strspn(s, d);
    if (!*s) { *save = s; return NULL; }
    char *e = s + strcspn(s, d);
    if (*e) { *e = 0; *save = e + 1; } else *save = e;
    return s;
}
static char *vp_tok;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &vp_tok); }
char *strsep(char **sp, const char *d) {
    char *s = *sp;
    if (!s) return NULL;
    char *e = s + strcspn(s, d);
    if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL;
    return s;
}
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
size_t strlcpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i + 1 < n && s[i]; i++) d[i] = s[i];
    if (n) d[i] = 0;
    while (s[i]) i++;
    return i;
}
char *strrchr(const char *s, int c) {
    const char *r = NULL;
    for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
int strcasecmp(const char *a, const char *b) {
    for (;; a++, b++) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y || !x) return x - y;
    }
}
int strncasecmp(const char *a, const char *b, size_t n) {
    for (; n > 0; a++, b++, n--) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y || !x) return x - y;
    }
    return 0;
}
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }

static int vp_digit(int c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
static unsigned long long vp_strtoull(const char *s, char **e, int base, bool *neg, bool *over) {
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    *neg = false; *over = false;
    if (*p == '+' || *p == '-') { *neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vp_digit(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    bool any = false;
    while (vp_digit(*p) < base) {
        unsigned d = (unsigned)vp_digit(*p);
        if (v > (ULLONG_MAX - d) / (unsigned)base) *over = true;
        v = v * (unsigned)base + d;
        any = true;
        p++;
    }
    if (e) *e = (char *)(any ? p : s);
    return v;
}
unsigned long long strtoull(const char *s, char **e, int b) {
    bool n, o; unsigned long long v = vp_strtoull(s, e, b, &n, &o);
    if (o) { errno = ERANGE; return ULLONG_MAX; }
    return n ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) {
    bool n, o; unsigned long long v = vp_strtoull(s, e, b, &n, &o);
    if (o || v > (unsigned long long)LLONG_MAX + n) { errno = ERANGE; return n ? LLONG_MIN : LLONG_MAX; }
    return n ? (long long)(-v) : (long long)v;
}
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
uintmax_t strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long atoll(const char *s) { return strtoll(s, NULL, 10); }
/* exact for decimal literals with at most 15 significant digits and |exponent| <= 22;
 * hexadecimal floats, inf and nan are recognised as in C */
static bool vp_ci(const char *p, const char *w) {
    size_t i = 0;
    while (w[i] && tolower((unsigned char)p[i]) == w[i]) i++;
    return !w[i];
}
double strtod(const char *s, char **e) {
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    if (vp_ci(p, "inf")) {
        p += 3;
        if (vp_ci(p, "inity")) p += 5;
        if (e) *e = (char *)p;
        double inf = __builtin_inf();
        return neg ? -inf : inf;
    }
    if (vp_ci(p, "nan")) { p += 3; if (e) *e = (char *)p; return __builtin_nan(""); }
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && (isxdigit((unsigned char)p[2]))) {
        p += 2;
        unsigned long long hv = 0;
        while (isxdigit((unsigned char)*p)) { hv = hv * 16 + (unsigned)vp_digit(*p); p++; }
        if (e) *e = (char *)p;
        return neg ? -(double)hv : (double)hv;
    }
    unsigned long long m = 0;
    int scale = 0;
    bool any = false;
    while (isdigit((unsigned char)*p)) { m = m * 10 + (unsigned)(*p - '0'); any = true; p++; }
    if (*p == '.' && (any || isdigit((unsigned char)p[1]))) {
        p++;
        while (isdigit((unsigned char)*p)) { m = m * 10 + (unsigned)(*p - '0'); scale--; any = true; p++; }
    }
    if (!any) { if (e) *e = (char *)s; return 0; }
    if ((*p == 'e' || *p == 'E') &&
        (isdigit((unsigned char)p[1]) || ((p[1] == '+' || p[1] == '-') && isdigit((unsigned char)p[2])))) {
        p++;
        bool en = false;
        if (*p == '+' || *p == '-') { en = *p == '-'; p++; }
        int x = 0;
        while (isdigit((unsigned char)*p)) { if (x < 100000) x = x * 10 + (*p - '0'); p++; }
        scale += en ? -x : x;
    }
    if (e) *e = (char *)p;
    double v = (double)m;
    if (scale > 400 && m) v = __builtin_inf();
    else if (scale < -400) v = 0;
    else {
        double f = 1;
        int k = scale < 0 ? -scale : scale;
        for (int i = 0; i < k; i++) f *= 10;
        if (scale < 0) v /= f; else if (scale > 0) v *= f;
    }
    return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, NULL); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }

/* printf family */
typedef struct { char *b; size_t n; size_t pos; } vp_out;
static void vp_putc(vp_out *o, char c) {
    if (o->pos + 1 < o->n) o->b[o->pos] = c;
    o->pos++;
}
static void vp_putpad(vp_out *o, const char *s, size_t l, int width, bool left, char pad) {
    int w = width;
    if (!left) for (; w > (int)l; w--) vp_putc(o, pad);
    for (size_t i = 0; i < l; i++) vp_putc(o, s[i]);
    if (left) for (; w > (int)l; w--) vp_putc(o, ' ');
}
static void vp_putnum(vp_out *o, unsigned long long v, bool neg, unsigned base, bool upper, int width, bool left, bool zero, int prec, bool plus) {
    char t[24];
    size_t l = 0;
    char r[28];
    do {
        unsigned d = (unsigned)(v % base);
        t[l++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v /= base;
    } while (v && l < 24);
    size_t k = 0;
    if (neg) r[k++] = '-'; else if (plus) r[k++] = '+';
    if (zero && !left && prec < 0) while (k + l < (size_t)width && k + l < 26) r[k++] = '0';
    while (prec > (int)l && k + l < 26) { r[k++] = '0'; prec--; }
    while (l > 0) r[k++] = t[--l];
    vp_putpad(o, r, k, width, left, ' ');
}
static void vp_putdbl(vp_out *o, double d, int width, bool left) {
    /* only integral values below 1e15 are modelled; others are outside the bound */
    bool neg = d < 0;
    if (neg) d = -d;
    __CPROVER_assume(d < 1e15);
    unsigned long long v = (unsigned long long)d;
    __CPROVER_assume((double)v == d);
    vp_putnum(o, v, neg, 10, false, width, left, false, -1, false);
}
/* variadic arguments narrower than int are not promoted by the front end */
#define VP_NARROW(ap) __CPROVER_OBJECT_SIZE(*(void **)(ap))
#define VP_UARG(ap) (VP_NARROW(ap) == 1 ? va_arg(ap, unsigned char) : VP_NARROW(ap) == 2 ? va_arg(ap, unsigned short) : va_arg(ap, unsigned int))
#define VP_IARG(ap) (VP_NARROW(ap) == 1 ? va_arg(ap, signed char) : VP_NARROW(ap) == 2 ? va_arg(ap, short) : va_arg(ap, int))
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    vp_out o = { b, n, 0 };
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') { vp_putc(&o, f[i]); continue; }
        i++;
        bool left = false, zero = false, plus = false, alt = false;
        for (;; i++) {
            if (f[i] == '-') left = true; else if (f[i] == '0') zero = true;
            else if (f[i] == '+') plus = true; else if (f[i] == '#') alt = true;
            else if (f[i] == ' ') ; else break;
        }
        int width = 0, prec = -1;
        if (f[i] == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } i++; }
        else while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
        if (f[i] == '.') {
            i++; prec = 0;
            if (f[i] == '*') { prec = va_arg(ap, int); i++; }
            else while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; }
        }
        int lng = 0;
        while (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j' || f[i] == 't') {
            if (f[i] == 'h') lng--; else lng++;
            if (f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng = 2;
            i++;
        }
        char c = f[i];
        if (c == 's') {
            const char *s = va_arg(ap, const char *);
            if (!s) s = "(null)";
            size_t l = 0;
            while ((prec < 0 || l < (size_t)prec) && s[l]) l++;
            vp_putpad(&o, s, l, width, left, ' ');
        } else if (c == 'c') {
            char ch = (char)VP_IARG(ap);
            vp_putpad(&o, &ch, 1, width, left, ' ');
        } else if (c == 'd' || c == 'i') {
            long long v = lng > 0 ? va_arg(ap, long long) : VP_IARG(ap);
            bool neg = v < 0;
            unsigned long long u = neg ? -(unsigned long long)v : (unsigned long long)v;
            vp_putnum(&o, u, neg, 10, false, width, left, zero, prec, plus);
        } else if (c == 'u' || c == 'x' || c == 'X' || c == 'o') {
            unsigned long long v = lng > 0 ? va_arg(ap, unsigned long long) : VP_UARG(ap);
            if (lng == -1) v &= 0xffff;
            if (lng == -2) v &= 0xff;
            if (alt && c == 'x' && v) { vp_putc(&o, '0'); vp_putc(&o, 'x'); }
            vp_putnum(&o, v, false, c == 'u' ? 10 : c == 'o' ? 8 : 16, c == 'X', width, left, zero, prec, false);
        } else if (c == 'p') {
            (void)va_arg(ap, void *);
            vp_putc(&o, '0'); vp_putc(&o, 'x'); vp_putc(&o, '1');
        } else if (c == 'g' || c == 'f' || c == 'e' || c == 'G') {
            double d = va_arg(ap, double);
            vp_putdbl(&o, d, width, left);
            if (c == 'f') {
                if (prec < 0) prec = 6;
                if (prec > 0) vp_putc(&o, '.');
                for (int k = 0; k < prec; k++) vp_putc(&o, '0');
            }
        } else if (c == '%') vp_putc(&o, '%');
        else if (c == 0) break;
    }
    if (n > 0) b[o.pos < n ? o.pos : n - 1] = 0;
    return (int)o.pos;
}
int snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char *b, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, (size_t)1 << 30, f, ap);
    va_end(ap);
    return r;
}
int printf(const char *f, ...) { (void)f; return 0; }
int fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; return 0; }
int vfprintf(FILE *s, const char *f, va_list a) { (void)s; (void)f; (void)a; return 0; }
int puts(const char *s) { (void)s; return 0; }
int fputs(const char *s, FILE *f) { (void)s; (void)f; return 0; }
int fflush(FILE *f) { (void)f; return 0; }
#endif

#ifdef VP_CBMC
#undef htonl
#undef htons
#undef ntohl
#undef ntohs
uint32_t htonl(uint32_t v) { return __builtin_bswap32(v); }
uint32_t ntohl(uint32_t v) { return __builtin_bswap32(v); }
uint16_t htons(uint16_t v) { return __builtin_bswap16(v); }
uint16_t ntohs(uint16_t v) { return __builtin_bswap16(v); }
#endif
