/* the socket calls */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <poll.h>
#include <unistd.h>
#include <errno.h>
ssize_t vpx_recv(int s, void *b, size_t n);
ssize_t vpx_send(int s, const void *b, size_t n);
ssize_t vpx_writev(int s, const struct iovec *v, int n);
int vpx_poll(struct pollfd *p, int timeout);
int vpx_select(int n, fd_set *r, struct timeval *tv);
int vpx_shutdown(int s);
int vpx_close(int s);
#define recv(s, b, n, f) vpx_recv(s, b, n)
#define send(s, b, n, f) ((void)(f), vpx_send(s, b, n))
#define writev(s, v, n) vpx_writev(s, v, n)
#define poll(p, n, t) vpx_poll(p, t)
#define select(n, r, w, e, t) vpx_select(n, r, t)
#define shutdown(s, h) vpx_shutdown(s)
#define close(s) vpx_close(s)
/* whole seconds: no need for floating point */
#include <time.h>
#define difftime(a, b) ((long)((a) - (b)))
