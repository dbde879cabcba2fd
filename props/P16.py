from vp.engine import Q
LEVEL_NOTE = ("Bounded: buffer, memory and object pools made with 0 to 3 blocks, up to 5 held at once, any two given back and taken again, maxima of 2 and 3; misuse (NULL, a buffer given back twice or to another pool); failing allocations; "
              "one operation of a second thread at every lock operation of the first.")
S = ["src/common/mcp_buffer_pool.c", "src/common/mcp_memory_pool.c", "src/common/mcp_object_pool.c"]
def q(n, d, b, **k): return Q(n, "p16_pools.c", S, d, unwind=k.pop("unwind", 11), bounds=b, flags=["--max-field-sensitivity-array-size", "256"], **k)
QUERIES = []
for kind in ("BUF", "MEM", "OBJ"):
    for i, a, m in ((1, 2, 0), (3, 3, 0), (2, 3, 3), (2, 2, 2), (0, 2, 0)):
        if kind == "BUF" and (m or not i): continue
        QUERIES.append(q("%s-hist%d%d%d" % (kind.lower(), i, a, m), {kind: None, "HIST": None, "INIT": i, "A": a, **({"MAX": m} if kind != "BUF" else {})}, "%d blocks in advance, %d taken, maximum %d" % (i, a, m)))
    for i in (1, 3): QUERIES.append(q("%s-misuse%d" % (kind.lower(), i), {kind: None, "TWICE": None, "INIT": i}, "misuse"))
    for f in (1, 2, 4, 8, 12): QUERIES.append(q("%s-fault%d" % (kind.lower(), f), {kind: None, "FAULT": f, "INIT": 2}, "allocation failures %d" % f))
    for mine in (0, 1) if kind != "OBJ" else (0,):
        for other in (0, 1):
            QUERIES.append(q("%s-race%d%d" % (kind.lower(), mine, other), {kind: None, "RACE": other, "MINE": mine, "INIT": 2, "VP_YIELD": None}, "two threads"))
    if kind != "BUF": QUERIES.append(q("%s-racemax" % kind.lower(), {kind: None, "RACE": 0, "MINE": 0, "INIT": 1, "MAX": 2, "VP_YIELD": None}, "two threads and one place left"))
