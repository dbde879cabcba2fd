from vp.engine import Q, BASE_STUBS
SU = "src/common/mcp_string_utils.c"
DROP = [SU + ":" + f for f in ("dyn_buf_init", "dyn_buf_ensure_capacity", "dyn_buf_append", "dyn_buf_append_char", "dyn_buf_finalize", "dyn_buf_free")]
S = ["src/server/mcp_server_dispatch.c", "src/server/mcp_server_handlers.c", "src/server/mcp_auth.c", "src/server/mcp_performance_metrics_handlers.c", "src/server/mcp_server_response.c",
     "vp_jsontree.c", SU, "src/common/mcp_types.c", "vp_mempool_off.c", "vp_arena.c", "vp_dynbuf.c"]
NOAUTO = ("mcp_hashtable_foreach", "mcp_hashtable_get", "mcp_thread_cache_free", "find_backend_for_request", "gateway_forward_request", "mcp_server_handle_template_resource", "mcp_cache_get", "mcp_cache_put",
          "mcp_object_pool_release")
def gate(name, d, b, **k):
    return Q(name, "server_gate.c", S, d, unwind=34, bounds=b, drop=DROP, no_auto=NOAUTO, flags=["--max-field-sensitivity-array-size", "256"], **k)

PING, CALL, READ, LTOOLS, LRES, LTMPL, METRICS, RESET, UNKNOWN, NOTIF, RESP = range(11)
STR, ABSENT, NUMBER, BOOL, NONE, ARRAY = range(6)
SN = ["key", "nokey", "number", "bool", "noparams", "array"]
KN = ["ping", "call", "read", "tools", "resources", "templates", "metrics", "reset", "unknown", "notification", "response"]
