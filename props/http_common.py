from vp.engine import Q
T = "src/transport/mcp_sthttp_"
S = [T + "callbacks.c", T + "threads.c", T + "utils.c", "src/transport/mcp_http_sse_common.c", "src/common/mcp_string_utils.c"]
NO = ("sse_stream_context_replay_events", "add_optimized_cors_headers", "lws_service", "lws_cancel_service", "mcp_session_manager_cleanup_expired", "dynamic_sse_clients_cleanup", "dynamic_sse_clients_broadcast_heartbeat", "event_hash_map_put", "event_hash_map_get", "event_hash_map_remove")
def q(name, d, b, **k):
    return Q(name, "p33_http.c", S, d, unwind=k.pop("unwind", 42), bounds=b, no_auto=NO, **k)
