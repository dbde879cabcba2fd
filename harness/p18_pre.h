/* atomic operations: points at which another thread may run */
#include <stddef.h>
#include <stdbool.h>
#include <sched.h>
#include <stdlib.h>
void vpx_point(void);
void vpx_spin(void);
int vpx_rand(void);
#define __sync_synchronize() vpx_point()
#define __sync_fetch_and_add(p, v) ({ vpx_point(); __typeof__(*(p) + 0) vpx_o = *(p); *(p) = vpx_o + (v); vpx_point(); vpx_o; })
#define __sync_bool_compare_and_swap(p, e, d) ({ vpx_point(); bool vpx_r = *(p) == (e); if (vpx_r) *(p) = (d); vpx_r; })
#define __sync_lock_test_and_set(p, v) ({ vpx_point(); __typeof__(*(p) + 0) vpx_o = *(p); *(p) = (v); vpx_o; })
#define sched_yield() (vpx_spin(), 0)
#define rand() vpx_rand()
