#include <time.h>
#include "mcp_sync.h"
#define difftime(a, b) ((double)((a) - (b)))
/* wake-ups are counted */
extern int vp25_signals;
#define mcp_cond_signal(c) (vp25_signals++, (mcp_cond_signal)(c))
#define mcp_cond_broadcast(c) (vp25_signals++, (mcp_cond_broadcast)(c))
