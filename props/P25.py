from vp.engine import Q
LEVEL_NOTE = "Bounded: two backends with a maximum of 2 connections each, in two queries 4 (scaled from 5); histories of five takings, returns, failing health checks and idle periods of 61 seconds, the connection attempt after the first failing early or late; taking or returning a connection with another taking, return or waiting caller at any of three points where the lock is given up, over seven fillings of the pool; any one of 14 allocations failing; ten addresses. Transports, clients, health checks and the clock are stand-ins. Outside: ports above 65535, destroying the manager while connections are held, and what a health check says to the backend."
S = ["src/gateway/mcp_gateway_pool.c", "src/common/mcp_hashtable.c", "src/common/mcp_string_utils.c"]
def q(n, d, b, max=2, **k): return Q(n, "p25_pool.c", S, dict(d, VP_WAIT=None, MAX=max), unwind=20, extra_pre="p25_pre.h", scale={"5": str(max), "256": "16"}, bounds=b, **k)
QUERIES = [q("history%d%d" % (a, f), {"HISTORY": a, "FAILS": f}, "five operations") for a in range(5) for f in range(3)]
QUERIES += [q("race%d-%d-%d" % (op, o, f), {"RACE": op, "OTHER": o, "FAILS": f}, "two callers") for op in (0, 1, 4) for o in range(3) for f in range(3) if op == 0 and (o < 2 or f) or op and o < 2 and not f]
QUERIES += [q("stale%d" % o, {"RACE": 0, "OTHER": o, "FAILS": 0}, "two callers, up to two idle connections", max=4) for o in range(2)]
QUERIES += [q("fault", {"FAULT": None}, "any one allocation fails"), q("address", {"ADDRESS": None}, "ten addresses")]
