from vp.engine import Q
from props.server_common import *
LEVEL_NOTE = ("Bounded: lists of up to 3 grants (patterns of up to 3 bytes; 5 bytes for single grants), names of the same lengths, every expiry and clock value; "
              "the tool and resource handlers with any 3-byte grant and name.")
A = ["src/server/mcp_auth.c", SU]
QUERIES = []
for t in (0, 1):
    k = "tool" if t else "resource"
    QUERIES += [Q("check2-" + k, "p06_access.c", A, {"CHECK": 3, "GRANTS": 2, "TOOL": t}, unwind=20, bounds="two grants and a name of up to 3 bytes, any clock"),
                Q("check3-" + k, "p06_access.c", A, {"CHECK": 2, "GRANTS": 3, "TOOL": t}, unwind=20, bounds="three grants of up to 2 bytes"),
                Q("check-long-" + k, "p06_access.c", A, {"CHECK": 6, "GRANTS": 1, "TOOL": t}, unwind=20, bounds="a grant and a name of up to 6 bytes")]
def h(name, k):
    return Q(name, "p06_access.c", S, {"HANDLERS": k}, unwind=24, drop=DROP, no_auto=("mcp_hashtable_get", "mcp_hashtable_foreach", "mcp_object_pool_release", "mcp_thread_cache_free"), flags=["--max-field-sensitivity-array-size", "256"],
             bounds="any grant and name of 3 bytes, expiry and clock within 11 seconds")
QUERIES += [h("call-tool", 0), h("read-resource", 1)]
