from vp.engine import Q
LEVEL_NOTE = ("Bounded: two concurrent requests on an asynchronous transport; up to 4 events (any outcome for either request or a stray id, unparsable message, "
              "transport error, spurious wakeup) before, during and after the wait, timeout at any point, growth of the table during the wait. "
              "Response parsing is replaced by its result (decided under P03/P04).")
S = ["src/client/mcp_client_request.c", "src/client/mcp_client_hash_table.c", "src/client/mcp_client_core.c", "src/common/mcp_string_utils.c", "vp_mempool_off.c"]
def q(n, d, b, **k):
    return Q(n, "p22_corr.c", S, dict({"VP_WAIT": None, "AID": 1, "BID": 2, "OTHER": 3}, **d), unwind=12, unwindset={"strlen.0": 50}, bounds=b, no_auto=("mcp_json_format_request_direct", "mcp_json_format_request"), **k)
QUERIES = [
  q("wait", {"EVENTS": 4}, "four waits with any event, then timeout; one late event"),
  q("early", {"EVENTS": 3, "EARLY": None}, "any event while sending, three while waiting, one late"),
  q("collide", {"EVENTS": 3, "BID": 9, "OTHER": 17, "EARLY": None}, "the same with ids sharing a hash slot"),
  q("growth", {"EVENTS": 2, "GROWTH": None}, "the table grows while the caller waits"),
  q("sendfail", {"EVENTS": 1, "SENDFAIL": None}, "sending fails"),
]
