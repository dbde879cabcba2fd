/* POSIX threading calls of the synchronisation layer go to a clocked model. */
#include <sched.h>
int vpx_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int vpx_mutex_destroy(pthread_mutex_t *m);
int vpx_mutex_lock(pthread_mutex_t *m);
int vpx_mutex_unlock(pthread_mutex_t *m);
int vpx_mutexattr_init(pthread_mutexattr_t *a);
int vpx_mutexattr_settype(pthread_mutexattr_t *a, int t);
int vpx_mutexattr_destroy(pthread_mutexattr_t *a);
int vpx_condattr_init(pthread_condattr_t *a);
int vpx_condattr_destroy(pthread_condattr_t *a);
int vpx_condattr_setclock(pthread_condattr_t *a, clockid_t c);
int vpx_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int vpx_cond_destroy(pthread_cond_t *c);
int vpx_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int vpx_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
int vpx_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts);
int vpx_cond_signal(pthread_cond_t *c);
int vpx_cond_broadcast(pthread_cond_t *c);
int vpx_clock_gettime(clockid_t c, struct timespec *ts);
int vpx_gettimeofday(struct timeval *tv, void *z);
#define pthread_mutex_init vpx_mutex_init
#define pthread_mutex_destroy vpx_mutex_destroy
#define pthread_mutex_lock vpx_mutex_lock
#define pthread_mutex_unlock vpx_mutex_unlock
#define pthread_mutexattr_init vpx_mutexattr_init
#define pthread_mutexattr_settype vpx_mutexattr_settype
#define pthread_mutexattr_destroy vpx_mutexattr_destroy
#define pthread_condattr_init vpx_condattr_init
#define pthread_condattr_destroy vpx_condattr_destroy
#define pthread_condattr_setclock vpx_condattr_setclock
#define pthread_cond_init vpx_cond_init
#define pthread_cond_destroy vpx_cond_destroy
#define pthread_cond_wait vpx_cond_wait
#define pthread_cond_timedwait vpx_cond_timedwait
#define pthread_cond_clockwait vpx_cond_clockwait
#define pthread_cond_signal vpx_cond_signal
#define pthread_cond_broadcast vpx_cond_broadcast
#define clock_gettime vpx_clock_gettime
#define gettimeofday vpx_gettimeofday
