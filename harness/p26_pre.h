#include <sys/types.h>
#include <sys/socket.h>
#include <netdb.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
struct addrinfo;
int vpx_getaddrinfo(const char *h, const char *p, struct addrinfo **r);
void vpx_freeaddrinfo(struct addrinfo *a);
#define getaddrinfo(h, p, hints, r) vpx_getaddrinfo(h, p, r)
#define freeaddrinfo(a) vpx_freeaddrinfo(a)
#define gai_strerror(e) "error"
