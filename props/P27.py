from vp.engine import Q
LEVEL_NOTE = ("Bounded: two sessions with arbitrary 32-bit timeouts (default, none, explicit), arbitrary advances of the clock between all steps, two operations (look-up, use, termination, clean-up) on either, then look-ups of both; a full table (10000 slots scaled to 3, identifier buffers of 128 bytes to 40) and its re-use; "
              "identifiers whose random bits differ in one arbitrary byte; failing randomness; arbitrary identifiers of up to 6 bytes for the format check.")
S = ["src/transport/mcp_http_session_manager.c", "src/common/mcp_string_utils.c"]
SC = {"10000": "3", "128": "40"}
def q(n, d, b, **k): return Q(n, "p27_session.c", S, d, unwind=k.pop("unwind", 42), bounds=b, extra_pre="p27_pre.h", flags=["--max-field-sensitivity-array-size", "128"], **k)
OPS = ["get", "touch", "end", "clean"]
QUERIES = []
for a in range(4):
    for wa in ((0, 1) if a < 3 else (0,)):
        for b in range(4):
            for wb in ((0, 1) if b < 3 else (0,)):
                if (a, wa) == (b, wb) and a != 1: continue
                if wa == 1 and wb == 1: continue
                QUERIES.append(q("%s%d-%s%d" % (OPS[a], wa, OPS[b], wb), {"HIST": None, "OP1": a, "W1": wa, "OP2": b, "W2": wb}, "two sessions, %s then %s" % (OPS[a], OPS[b]), scale=SC))
QUERIES += [q("full", {"FULL": None}, "a full table", scale=SC)]
QUERIES += [q("ids%d" % k, {"IDS": k}, "identifiers whose random byte %d is arbitrary" % k, scale=SC) for k in range(16)]
QUERIES += [q("norandom%d" % k, {"NORANDOM": k}, "randomness fails", scale=SC) for k in (0, 1)]
QUERIES += [q("format", {"VALID": 6}, "identifiers of up to 6 bytes", unwind=142)]
