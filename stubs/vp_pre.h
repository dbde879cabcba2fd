/* Forced into every repository source, harness and stand-in, for goto-cc and
 * for gcc alike.  System headers come first; afterwards allocation, the clock
 * and (on request) other calls into the environment are redirected to
 * functions the solver controls. */
#ifndef VP_PRE_H
#define VP_PRE_H
#define __NO_CTYPE 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#include <sys/time.h>
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <dirent.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/uio.h>

void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_realloc(void *p, size_t n);
void vp_free(void *p);
char *vp_strdup(const char *s);
char *vp_strndup(const char *s, size_t n);
time_t vp_time(time_t *t);
void *vp_aligned_alloc(size_t a, size_t n);
int vp_posix_memalign(void **p, size_t a, size_t n);

#ifndef VP_NO_REDIRECT
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#undef strdup
#undef strndup
#define strdup vp_strdup
#define strndup vp_strndup
#define aligned_alloc vp_aligned_alloc
#define posix_memalign vp_posix_memalign
#define time(x) vp_time(x)
#define usleep(x) vp_usleep(x)
int vp_usleep(unsigned us);
#ifdef VP_EXTRA_PRE
#include VP_EXTRA_PRE
#endif
#endif
#endif
