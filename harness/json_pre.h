/* numbers: the conversions between doubles and text go to the harness */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
int vj_snprintf(char *b, size_t n, const char *f, ...);
double vj_strtod(const char *s, char **e);
#define snprintf vj_snprintf
#define strtod vj_strtod
/* the fields of a JSON node are laid out side by side instead of overlaid */
#include <string.h>
#include <assert.h>
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <math.h>
#include <float.h>
#undef isfinite
#define isfinite(x) ((x) <= DBL_MAX && (x) >= -DBL_MAX)
#define union struct
