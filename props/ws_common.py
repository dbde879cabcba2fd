from vp.engine import Q
T = "src/transport/mcp_websocket_server_"
S = [T + "bitmap.c", T + "client.c", T + "callback.c"]
def q(name, d, b, **k):
    return Q(name, "p31_slots.c", S, d, unwind=k.pop("unwind", 42), bounds=b, no_auto=k.pop("no_auto", ("mcp_buffer_pool_acquire", "mcp_buffer_pool_release", "mcp_arena_reset_current_thread")), **k)
