from vp.engine import Q
LEVEL_NOTE = ("Bounded: a cache of 2 entries (scaled from 16) for names of up to 9 characters (key buffer scaled from 256 to 9), three host/port pairs, histories of up to 6 operations and the passing of time, one operation of a second thread at every point where the first holds no lock, failing allocations and resolver. The resolver is a stand-in.")
S = ["src/connection_pool/mcp_connection_pool_dns_cache.c"]
def q(n, d, b, **k): return Q(n, "p26_dns.c", S, d, unwind=k.pop("unwind", 26), bounds=b, extra_pre="p26_pre.h", scale={"16": "2", "256": "9"}, **k)
QUERIES = []
for p in ("0", "01", "012", "013", "0130", "06", "064", "016", "0142", "0063", "0127", "00", "0174", "0133"):
    QUERIES.append(q("hist" + p, {"HIST": '"%s"' % p, "TAIL": 2}, "history %s and two more operations" % p, tier="quick" if p in ("0", "012", "0130", "064", "0127", "0133") else "thorough"))
QUERIES += [q("long" + p, {"HIST": '"%s"' % p, "TAIL": 1, "LONGNAMES": None}, "names longer than their key") for p in ("0", "01", "031")]
QUERIES += [q("late" + p, {"HIST": '"%s"' % p, "TAIL": 0, "FINAL": None}, "times around every expiry") for p in ("0", "03", "013", "0133", "07", "0730", "0127")]
for p in ("", "03", "01", "013", "0133", "0634"):
    for mine in (0, 2):
        for other in (0, 1, 2, 4, 5):
            if p == "" and other == 4: continue
            QUERIES.append(q("race%s-%d%d" % (p, mine, other), {"RACE": '"%s"' % p, "MINE": mine, "OTHER": other, "VP_YIELD": None}, "two threads", tier="quick" if p in ("", "03", "0133") or (p, mine) in (("01", 2), ("0634", 0)) else "thorough"))
QUERIES += [q("fault%d" % f, {"FAULT": f}, "allocation %d fails" % f) for f in range(5)]
