from vp.engine import Q
LEVEL_NOTE = ("Bounded: lists of 0 to 3 elements, every first operation at every position followed by every second operation (thorough: two more) at every position; pairs of operations of two threads on a shared list, the second at every point where the first holds no lock; every single allocation failure. "
              "The node pool is a stand-in (decided under P16).")
S = ["src/common/mcp_list.c"]
def q(name, d, b, **k): return Q(name, "p17_list.c", S, d, unwind=12, bounds=b, **k)
OPS = ["push_front", "push_back", "pop_front", "pop_back", "insert_after", "remove", "remove_free", "move_front", "find", "clear"]
QUERIES = []
for n in range(4):
    for o in range(10):
        for pos in (range(n + 1) if o in (4, 8) else range(n) if o in (5, 6, 7) else (0,)):
            QUERIES.append(q("seq%d-%s%d" % (n, OPS[o], pos), {"N0": n, "OP1": o, "POS1": pos, "SEQ": 1}, "%d elements, %s at %d, then any operation" % (n, OPS[o], pos), thorough=dict(defines={"SEQ": 2})))
R = [(0, 0), (1, 0), (2, 0), (3, 0), (7, 0), (7, 1)]
for n in range(3):
    for i, (k1, p1) in enumerate(R):
        for k2, p2 in R:
            if (k1 == 7 and p1 >= n) or (k2 == 7 and p2 >= n): continue
            # an element must not be removed by one thread while the other moves it
            if 7 in (k1, k2) and ({k1, k2} & {2, 3}): continue
            QUERIES.append(q("race%d-%s%d-%s%d" % (n, OPS[k1], p1, OPS[k2], p2), {"N0": n, "K1": k1, "P1": p1, "K2": k2, "P2": p2, "RACE": None, "TS": "MCP_LIST_THREAD_SAFE", "VP_YIELD": None}, "%d elements, %s with %s interleaved" % (n, OPS[k1], OPS[k2])))
QUERIES += [q("fault%d" % k, {"N0": 0, "FAULT": k}, "allocation %d fails" % k) for k in range(7)]
