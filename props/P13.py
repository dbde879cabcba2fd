from vp.engine import Q, BASE_STUBS
LEVEL_NOTE = ("Bounded: one message of up to 3 arbitrary bytes with every size limit, limiter verdict, failing allocation and number of other messages in flight; a shutdown at any atomic operation, limiter call or point of the handler of a message; "
              "a shutdown with up to 2 messages in flight, each finishing, not finishing, or the wait ending for no reason, up to 4 waits. The message handler, limiters, transport, worker pool and clock are stand-ins. Outside: a shutdown that gives up after its time limit.")
S = ["src/server/mcp_server_task.c", "src/server/mcp_server.c", "src/common/mcp_types.c"]
def q(n, d, b, **k): return Q(n, "p13_drain.c", S, dict(d, VP_WAIT=None), unwind=20, extra_pre="p13_pre.h", bounds=b, **k)
QUERIES = [q("account", {"ACCOUNT": None}, "one message, every way it can be refused")]
QUERIES += [q("race%d" % i, {"RACE": i}, "a shutdown at any point of a message") for i in range(3)]
QUERIES += [q("drain0", {"DRAIN": 0}, "up to 2 messages in flight, 4 waits")]
