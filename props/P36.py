from vp.engine import Q
from props.server_common import *
LEVEL_NOTE = ("Bounded: 1 to 3 content items of every kind with and without type and data, 1 arbitrary byte in each text and type, names of up to 3 arbitrary bytes; listings of 2 entries, tools with 2 and with no parameters. "
              "Allocation failures are not covered; the JSON tree is a stand-in with the same interface.")
T = "src/common/mcp_types.c"
def q(name, d, b):
    dd = dict(VP_JSON_STR=12, HASD=1, HASM=1, TYPES=0, SRC=0, TOOL=0); dd.update(d)
    return Q(name, "p36_content.c", ["src/server/mcp_server_handlers.c", "vp_jsontree.c", SU, T, "vp_mempool_off.c"], dd, unwind=24, drop=[T + ":mcp_content_item_free"],
             no_auto=("mcp_hashtable_get", "mcp_hashtable_foreach", "mcp_object_pool_release", "mcp_thread_cache_free"), flags=["--max-field-sensitivity-array-size", "256"], bounds=b)
QUERIES = []
for t in (0, 1):
    k = "call" if t else "read"
    QUERIES += [q("%s%d" % (k, n), dict(TOOL=t, ITEMS=n), "%d text items" % n) for n in (1, 2, 3)]
    QUERIES += [q(k + "-kinds", dict(TOOL=t, ITEMS=3, TYPES=0b100100 if not t else 0b001001), "items of different kinds"),
                q(k + "-nomime", dict(TOOL=t, ITEMS=2, HASM=0), "items without type"),
                q(k + "-nodata", dict(TOOL=t, ITEMS=2, HASD=0), "items without data")]
QUERIES += [q("read-cached", dict(SRC=1, ITEMS=2), "from the cache"), q("read-routed", dict(SRC=2, ITEMS=2), "from a template route")]
for l, n in enumerate(("tools", "resources", "templates")):
    QUERIES += [q("list-%s%d%d" % (n, d, m), dict(LIST=l, HASD=d, HASM=m), "two entries") for d, m in ([(1, 0), (0, 1), (1, 2), (1, 3)] if l == 0 else [(0, 0), (1, 0)])]
