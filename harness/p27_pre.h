/* the random device */
int vpx_open(const char *p, int f);
long vpx_read(int fd, void *b, size_t n);
int vpx_close(int fd);
#define open(p, ...) vpx_open(p, 0)
#define read(f, b, n) vpx_read(f, b, n)
#define close(f) vpx_close(f)
