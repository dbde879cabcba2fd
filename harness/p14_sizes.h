#include "mcp_hashtable.h"
X(mcp_hashtable_t)
X(mcp_hashtable_entry_t)
X(vp_p[2])
X(vp_p[4])
X(vp_p[8])
X(vp_p[16])
