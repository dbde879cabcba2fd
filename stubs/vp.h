/* Harness interface. */
#ifndef VP_H
#define VP_H
#include "vp_pre.h"

uint8_t vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
bool vp_bool(void);
/* any value in [lo, hi] */
uint32_t vp_range(uint32_t lo, uint32_t hi);
/* n arbitrary bytes */
void vp_bytes(void *buf, size_t n);
/* arbitrary NUL-terminated string of length <= max (buf has max+1 bytes) */
void vp_str(char *buf, size_t max);
/* the same over an alphabet */
void vp_str_of(char *buf, size_t max, const char *alphabet);

/* allocation faults: bit k set = the k-th allocation from now on fails */
extern uint64_t vp_oom_mask;
extern unsigned vp_alloc_no;
extern long vp_live;              /* blocks allocated and not freed */
void vp_oom_arm(uint64_t mask);   /* start numbering allocations from 0 */
void vp_oom_off(void);

/* clock */
extern int64_t vp_now;            /* seconds returned by time() */
extern int64_t vp_now_us;         /* sub-second part, for finer clocks */

/* locks */
extern int vp_locks_held;
extern int vp_lock_errors;        /* relock, unlock without lock, ... */

#ifdef VP_CBMC
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_REACH(c, label) __CPROVER_assert(!(c), "REACH: " label)
#define VP_NOTE(...) ((void)0)
#else
void vp_fail(const char *msg, const char *file, int line);
void vp_reached(const char *label);
void vp_assume_failed(void);
#define VP_ASSERT(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(); } while (0)
#define VP_REACH(c, label) do { if (c) vp_reached(label); } while (0)
#define VP_NOTE(...) fprintf(stderr, "VP-NOTE " __VA_ARGS__)
#endif
/* assert that a pointer is not NULL and go on only if it is not; the branch
 * lets symbolic execution drop NULL from the values it tracks for it */
#define VP_NONNULL(p, msg) do { VP_ASSERT((p) != NULL, msg); if ((p) == NULL) return; } while (0)
#define VP_ASSERT_UNLOCKED() do { \
    VP_ASSERT(vp_locks_held == 0, "every lock taken is released"); \
    VP_ASSERT(vp_lock_errors == 0, "locks are neither re-acquired nor released twice"); } while (0)

/* reference string helpers for oracles (no libc) */
size_t vp_len(const char *s);
bool vp_eq(const char *a, const char *b);
bool vp_eqn(const char *a, const char *b, size_t n);

void vp_harness(void);
#endif
