/* atomic operations: points at which a shutdown may run */
void vpx_point(void);
#define __sync_synchronize() vpx_point()
#define __sync_fetch_and_add(p, v) ({ vpx_point(); __typeof__(*(p) + 0) vpx_o = *(p); *(p) = vpx_o + (v); vpx_point(); vpx_o; })
#define __sync_fetch_and_sub(p, v) ({ vpx_point(); __typeof__(*(p) + 0) vpx_o = *(p); *(p) = vpx_o - (v); vpx_point(); vpx_o; })
#define __sync_add_and_fetch(p, v) ({ vpx_point(); __typeof__(*(p) + 0) vpx_o = *(p) + (v); *(p) = vpx_o; vpx_point(); vpx_o; })
#define __sync_sub_and_fetch(p, v) ({ vpx_point(); __typeof__(*(p) + 0) vpx_o = *(p) - (v); *(p) = vpx_o; vpx_point(); vpx_o; })
#define __atomic_fetch_add(p, v, o) __sync_fetch_and_add(p, v)
#define __atomic_fetch_sub(p, v, o) __sync_fetch_and_sub(p, v)
#define __atomic_add_fetch(p, v, o) __sync_add_and_fetch(p, v)
#define __atomic_sub_fetch(p, v, o) __sync_sub_and_fetch(p, v)
#define __atomic_load_n(p, o) ({ vpx_point(); *(p); })
#define __atomic_store_n(p, v, o) ({ vpx_point(); *(p) = (v); vpx_point(); })
