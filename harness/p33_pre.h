/* text formatted for headers and logs plays no part in this property */
#include <stdio.h>
#define snprintf(b, n, ...) ((void)(n), (b)[0] = 0, 0)
