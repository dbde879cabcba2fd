/* Core of the harness environment: symbolic inputs, allocation, clock. */
#include "vp.h"

uint64_t vp_oom_mask;
unsigned vp_alloc_no;
long vp_live;
int64_t vp_now = 1000000;
int64_t vp_now_us;

#ifdef VP_CBMC
/* Every symbolic input passes through this variable; the sequence of its
 * values in a trace is the input vector for the native replay. */
uint64_t vp_nd;
uint8_t nondet_vp_u8(void);
uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void);
_Bool nondet_vp_bool(void);
uint8_t vp_u8(void) { uint8_t v = nondet_vp_u8(); vp_nd = v; return v; }
uint16_t vp_u16(void) { uint16_t v = nondet_vp_u16(); vp_nd = v; return v; }
uint32_t vp_u32(void) { uint32_t v = nondet_vp_u32(); vp_nd = v; return v; }
uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); vp_nd = v; return v; }
bool vp_bool(void) { _Bool v = nondet_vp_bool(); vp_nd = v; return v; }
#else
#include <sys/resource.h>
static uint64_t *vp_in;
static size_t vp_in_n, vp_in_pos;
static int vp_fill = 0xA5;
static uint64_t vp_next(void) {
    if (vp_in_pos < vp_in_n) return vp_in[vp_in_pos++];
    vp_in_pos++;
    return 0;
}
uint8_t vp_u8(void) { return (uint8_t)vp_next(); }
uint16_t vp_u16(void) { return (uint16_t)vp_next(); }
uint32_t vp_u32(void) { return (uint32_t)vp_next(); }
uint64_t vp_u64(void) { return vp_next(); }
bool vp_bool(void) { return vp_next() != 0; }
void vp_fail(const char *msg, const char *file, int line) {
    printf("VP-FAIL %s (%s:%d)\n", msg, file, line);
    fflush(stdout);
    _exit(42);
}
void vp_reached(const char *label) { printf("VP-REACH %s\n", label); fflush(stdout); }
void vp_assume_failed(void) { printf("VP-ASSUME\n"); fflush(stdout); _exit(77); }
#endif

uint32_t vp_range(uint32_t lo, uint32_t hi) {
    if (lo == hi) return lo;
    uint32_t v = vp_u32();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
void vp_bytes(void *buf, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = vp_u8();
}
void vp_str(char *buf, size_t max) {
    bool end = false;
    for (size_t i = 0; i < max; i++) {
        uint8_t c = vp_u8();
        if (end) c = 0;
        if (c == 0) end = true;
        buf[i] = (char)c;
    }
    buf[max] = 0;
}
void vp_str_of(char *buf, size_t max, const char *alphabet) {
    bool end = false;
    size_t n = vp_len(alphabet);
    for (size_t i = 0; i < max; i++) {
        uint8_t k = vp_u8();
        VP_ASSUME(k <= n);
        char c = alphabet[k];
        if (end) c = 0;
        if (c == 0) end = true;
        buf[i] = c;
    }
    buf[max] = 0;
}

void vp_oom_arm(uint64_t mask) { vp_alloc_no = 0; vp_oom_mask = mask; }
void vp_oom_off(void) { vp_oom_mask = 0; }
static bool vp_alloc_fails(void) {
    if (vp_oom_mask == 0) return false;
    unsigned k = vp_alloc_no++;
    return k < 64 && ((vp_oom_mask >> k) & 1);
}

#if defined(VP_CBMC) && defined(VP_SIZES)
/* Allocation sizes that are symbolic would make unbounded arrays.  A harness
 * can list the sizes that occur (VP_SIZES is a header with X(type) lines);
 * anything else gets a block of VP_MAX_BLOCK bytes, so for those blocks
 * overruns below that size are not seen in this query. */
#ifndef VP_MAX_BLOCK
#define VP_MAX_BLOCK 256
#endif
#include "vp_sizes_pre.h"
static void *vp_classed_malloc(size_t n) {
#define X(T) if (n == sizeof(T)) return malloc(sizeof(T));
#include VP_SIZES
#undef X
    __CPROVER_assert(n <= VP_MAX_BLOCK, "MODEL: block size within the modelled maximum");
    __CPROVER_assume(n <= VP_MAX_BLOCK);
    return malloc(VP_MAX_BLOCK);
}
#endif

#ifndef VP_OWN_MALLOC
void *vp_malloc(size_t n) {
    if (vp_alloc_fails()) return NULL;
#ifdef VP_MALLOC_LIMIT
    if (n > VP_MALLOC_LIMIT) return NULL;
#else
    if (n > (size_t)1 << 40) return NULL;
#endif
#if defined(VP_CBMC) && defined(VP_SIZES)
    void *p = vp_classed_malloc(n);
#elif defined(VP_CBMC) && defined(VP_PTR_BLOCK)     /* blocks of this size hold pointers */
    void *p = n == VP_PTR_BLOCK ? malloc(sizeof(void *) * (VP_PTR_BLOCK / sizeof(void *))) : malloc(n);
#else
    void *p = malloc(n);
#endif
#ifndef VP_CBMC
    if (!p) { vp_assume_failed(); }
    memset(p, vp_fill, n);
#endif
    vp_live++;
    return p;
}
void *vp_calloc(size_t n, size_t m) {
    if (vp_alloc_fails()) return NULL;
    if (m != 0 && n > SIZE_MAX / m) return NULL;
#ifdef VP_MALLOC_LIMIT
    if (n * m > VP_MALLOC_LIMIT) return NULL;
#else
    if (n * m > (size_t)1 << 40) return NULL;
#endif
    void *p = calloc(n, m);
#ifndef VP_CBMC
    if (!p) { vp_assume_failed(); }
#endif
    vp_live++;
    return p;
}
void *vp_realloc(void *q, size_t n) {
    if (!q) return vp_malloc(n);
    if (vp_alloc_fails()) return NULL;
#ifdef VP_MALLOC_LIMIT
    if (n > VP_MALLOC_LIMIT) return NULL;
#else
    if (n > (size_t)1 << 40) return NULL;
#endif
    return realloc(q, n);
}
void vp_free(void *p) {
    if (p) vp_live--;
    free(p);
}
void *vp_aligned_alloc(size_t a, size_t n) { (void)a; return vp_malloc(n); }
int vp_posix_memalign(void **p, size_t a, size_t n) {
    (void)a;
    void *q = vp_malloc(n);
    if (!q) return 12;
    *p = q;
    return 0;
}
#endif

char *vp_strdup(const char *s) {
    size_t n = vp_len(s) + 1;
    char *p = vp_malloc(n);
    if (p) for (size_t i = 0; i < n; i++) p[i] = s[i];
    return p;
}
char *vp_strndup(const char *s, size_t n) {
    size_t l = 0;
    while (l < n && s[l]) l++;
    char *p = vp_malloc(l + 1);
    if (p) { for (size_t i = 0; i < l; i++) p[i] = s[i]; p[l] = 0; }
    return p;
}

#ifndef VP_OWN_TIME
time_t vp_time(time_t *t) { if (t) *t = (time_t)vp_now; return (time_t)vp_now; }
#endif
int vp_usleep(unsigned us) { (void)us; return 0; }

size_t vp_len(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
bool vp_eq(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return a[i] == b[i];
}
bool vp_eqn(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false;
    return true;
}

#ifndef VP_CBMC
int main(int argc, char **argv) {
    /* usage: replay INPUT-FILE [FILL] */
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (argc > 2) vp_fill = (int)strtol(argv[2], NULL, 0);
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r");
        unsigned long long v;
        size_t cap = 0;
        while (f && fscanf(f, "%llu", &v) == 1) {
            if (vp_in_n == cap) { cap = cap ? cap * 2 : 64; vp_in = realloc(vp_in, cap * sizeof *vp_in); }
            vp_in[vp_in_n++] = v;
        }
        if (f) fclose(f);
    }
    vp_harness();
    printf("VP-DONE inputs=%zu used=%zu\n", vp_in_n, vp_in_pos);
    fflush(stdout);
    _exit(0);
}
#else
int main(void) { vp_harness(); return 0; }
#endif
