#include <stdio.h>
#include <regex.h>
int vp21_regexec(const regex_t *r, const char *s);
int vp21_regcomp(regex_t *r, const char *p);
void vp21_regfree(regex_t *r);
FILE *vp21_fopen(const char *p);
size_t vp21_fread(void *b, size_t n);
#undef regexec
#define regexec(r, s, n, m, f) vp21_regexec(r, s)
#define regcomp(r, p, f) vp21_regcomp(r, p)
#define regfree(r) vp21_regfree(r)
#define regerror(e, r, b, n) ((b)[0] = 0, (size_t)1)
#define fopen(p, m) vp21_fopen(p)
#define fread(b, s, n, f) vp21_fread(b, (s) * (n))
#define ferror(f) 0
#define fclose(f) 0
