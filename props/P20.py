from vp.engine import Q
LEVEL_NOTE = ("Bounded: texts of up to 3 arbitrary bytes (as JSON strings: 2) appended to buffers holding 0 to 18 characters, with the smallest capacity scaled from 64 to 8, so that every growth boundary is met; requests for any room up to the largest size; comparisons of strings of up to 4 bytes, splits of up to 4. Formatting through printf is outside.")
S = ["src/common/mcp_string_utils.c"]
def q(n, d, b, **k): return Q(n, "p20_strings.c", S, d, unwind=k.pop("unwind", 34), bounds=b, scale={"64": "8"}, flags=["--max-field-sensitivity-array-size", "512"], **k)
QUERIES = []
M = 8        # the smallest capacity, scaled down from 64
for ln in (0, 1, 2, 3):
    for pre in sorted({0, M - 1, M, 2 * M + 2} | {x for d in range(3) for x in (M - d * ln, M - 1 - d * ln, 2 * M - 1 - ln, 2 * M - ln)}):
        QUERIES.append(q("append%d-%d" % (ln, pre), {"APPEND": None, "LEN": ln, "PRE": pre}, "up to %d characters after %d" % (ln, pre)))
QUERIES += [q("append-fault%d" % pre, {"APPEND": None, "LEN": 3, "PRE": pre, "FAULT": None}, "growth fails") for pre in (M - 3, M - 1)]
for ln, pres in ((0, (0, M - 3, M - 2)), (1, range(0, M)), (2, (0, 3, M - 1, M + 1))):
    for pre in pres: QUERIES.append(q("json%d-%d" % (ln, pre), {"JSON": None, "LEN": ln, "PRE": pre}, "%d characters as a JSON string after %d" % (ln, pre)))
QUERIES += [q("json-long", {"JSON": None, "LEN": 5, "KEEP": None}, "5 characters, one of them any, as a JSON string"), q("json-fault", {"JSON": None, "LEN": 1, "PRE": 4, "FAULT": None}, "growth fails")]
QUERIES += [q("huge%d" % p, {"HUGE": None, "PRE": p}, "any size") for p in (0, 5)]
QUERIES += [q("compare", {"COMPARE": None, "LEN": 4}, "two strings of up to 4 bytes", unwind=8)]
QUERIES += [q("split%d" % n, {"SPLIT": None, "LEN": n}, "%d bytes" % n, unwind=66) for n in (1, 3, 4)] + [q("split-fault", {"SPLIT": None, "LEN": 3, "FAULT": None}, "no memory", unwind=66)]
