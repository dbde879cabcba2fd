from vp.engine import Q
LEVEL_NOTE = ("Bounded: sessions of up to 2 subscriptions and 2 messages in flight with arbitrary contents (topics of up to 2 bytes, payloads of up to 3), on a file system in memory of 4 files; any one file operation of a save fails, or the process stops at any one, with the buffered data kept or half of it lost; files cut at every length; arbitrary bytes in each field of a file, lengths and counts up to 47 and at the limits; identifiers with any one character in 6 contexts; another thread's save at any one point of a load or clean-up of an expired session. A clock running backwards, loss of completed writes in a power failure and two threads racing to record an access are outside; for arbitrary times a second is scaled to 8 ms.")
S = ["src/transport/mqtt_session_persistence.c"]
def q(n, d, b, **k): return Q(n, "p30_session.c", S, d, unwind=k.pop("unwind", 60), extra_pre="p30_pre.h", bounds=b, flags=["--max-field-sensitivity-array-size", "512"], **k)
QUERIES = [q("round-%d%d%d" % (s, i, p), {"ROUND": None, "NSUB": s, "NIN": i, "PLEN": p}, "%d subscriptions, %d messages in flight, payload of %d bytes" % (s, i, p)) for s, i, p in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 1, 2), (1, 1, 3), (2, 2, 2))]
QUERIES += [q("expire%d" % m, {"EXPIRE": m, "SECOND": 1000}, "any interval, any time up to 65 s later") for m in (1, 2)]
QUERIES += [q("expire%d-any" % m, {"EXPIRE": m, "SECOND": 8, "WIDE": None}, "any interval and time, a second scaled to 8 ms", scale={"1000": "8"}) for m in (1, 2)]
QUERIES += [q("touch", {"TOUCH": None, "PLAIN": None}, "accesses before the session expires")]
for m, t in enumerate(("an operation fails", "the process stops", "the process stops, half of the open file lost", "an operation of the first save fails")):
    for f in range(0, 30, 5): QUERIES.append(q("fault%d-%d" % (m, f), {"FAULT": m, "FROM": f, "TO": f + 4, "LAST": 25}, "%s: operations %d to %d" % (t, f, f + 4), **({"tier": "thorough"} if m == 1 and f % 2 else {})))
for f in range(0, 73, 8): QUERIES.append(q("trunc-%d" % f, {"TRUNC": None, "FROM": f, "TO": f + 7, "LAST": 80}, "%d to %d bytes" % (f, f + 7)))
QUERIES += [q("nomem%d" % m, {"NOMEM": m}, "any one allocation fails") for m in (0, 1)]
QUERIES += [q("race%d" % m, {"RACE": m, "VP_YIELD": None}, "another save at any point") for m in (0, 1)]
for k, (a, b) in enumerate((("c", "_"), ("", "/"), ("c", "%"), ("c", "c1"), ("x", "%2F"), ("a/", "b"))):
    for f in (1, 64, 128, 192): QUERIES.append(q("ids%d-%d" % (k, f), {"IDS": None, "PREFIX": '"%s"' % a, "TAIL": '"%s"' % b, "FROM": f, "TO": max(63, f + 63) if f > 1 else 63}, "identifiers %s followed by any character against %s" % (a, a + b), unwind=70, **({"tier": "thorough"} if k and f > 100 else {})))
for f, n in ((0, 6), (6, 20), (28, 1), (33, 2), (35, 8), (45, 2), (49, 1), (54, 19)): QUERIES.append(q("junk-%d" % f, {"JUNK": n, "FROM": f, "REFUSED": 0 if f < 30 else 3}, "any bytes at %d to %d of the file" % (f, f + n - 1)))
for f, n in ((26, 2), (29, 2), (31, 2), (43, 2), (47, 2), (50, 4)):
    for first in range(0, 60, 12): QUERIES.append(q("length-%d-%d" % (f, first), {"LENGTH": n, "FROM": f, "FIRST": first, "PLAIN": None, "VP_MALLOC_LIMIT": 300}, "lengths and counts up to 47 and at the limits, at %d" % f, unwind=75, **({"tier": "thorough"} if first in (24, 36) else {})))
