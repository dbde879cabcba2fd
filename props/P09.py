from vp.engine import Q
LEVEL_NOTE = "Bounded: four rules for each of the four algorithms (rates in quarters per second, exact in doubles), four checks (thorough: five) by two clients with the clock moving 0 to 4 seconds in between; each rule replaced by any other of its algorithm or of another between six checks; patterns of up to 4 arbitrary bytes with a star at either end and keys of up to 3, five priorities; a second check wherever a check asks for memory without holding the lock exclusively; any one allocation failing. One key per request; patterns of stars only, clocks running backwards and requests carrying several keys are outside. The alternatives of a client's data lie side by side instead of overlaid."
S = ["src/server/mcp_advanced_rate_limiter.c", "src/common/mcp_string_utils.c"]
A = ("fixed window", "sliding window", "token bucket", "leaky bucket")
def q(n, d, b, **k): return Q(n, "p09_adv.c", S, d, unwind=20, extra_pre="p09_pre.h", bounds=b, flags=["--max-field-sensitivity-array-size", "256"], **k)
QUERIES = [q("history%d%d" % (a, r), {"HISTORY": r, "ALG": a, "STEPS": 4}, "%s, rule %d, 4 checks" % (A[a], r), thorough=dict(defines={"STEPS": 5})) for a in range(4) for r in range(4)]
QUERIES += [q("change%d%d-%d" % (a, r, s), {"CHANGE": a, "RULE": r, "SAME": s}, "%s replaced" % A[a]) for a in range(4) for r in (0, 2) for s in (0, 1)]
QUERIES += [q("match%d" % m, {"MATCH": m}, "patterns and keys") for m in range(3)]
QUERIES += [q("readers%d" % a, {"VP_READERS": None, "ALG": a}, "another check inside a check") for a in (0, 1)]
QUERIES += [q("fault%d" % a, {"FAULT": None, "ALG": a}, "any one allocation fails") for a in range(4)]
