from vp.engine import Q
LEVEL_NOTE = ("Bounded: three allocations of which one has any 64-bit size and the others up to 48 bytes, arenas of three block sizes and of any 64-bit block size, up to 10 blocks and two rounds of resets, each allocation failing; the size classes 256, 1024 and 4096 are scaled to 32, 64 and 128 and the memory there is to 1024 bytes. "
              "The thread cache is a stand-in (it is part of P16).")
S = ["src/common/mcp_arena.c"]
SC = {"256": "32", "1024": "64", "4096": "128", "32": "2"}
def q(n, d, b, **k): return Q(n, "p15_arena.c", S, dict(d, VP_MALLOC_LIMIT=1024), unwind=k.pop("unwind", 46), bounds=b, scale=SC, **k)
QUERIES = []
for init in (16, 40, 200):
    for big in (0, 1, 2): QUERIES.append(q("seq%d-%d" % (init, big), {"SEQ": 3, "NB": 8, "INIT": init, "BIG": big, "MAXSZ": 24 if init < 200 else 80}, "three allocations in blocks of %d, number %d of any size" % (init, big + 1), unwind=9))
QUERIES += [q("sizes", {"SIZES": None, "NB": 4}, "any block size and any request", unwind=5)]
QUERIES += [q("reset%d-%d" % (n, a), {"RESET": n, "AGAIN": a, "INIT": i, "BLK": b}, "%d rounds of %d blocks" % (a, n)) for n, a, i, b in ((1, 1, 32, 32), (4, 1, 32, 32), (5, 2, 32, 32), (8, 1, 32, 32), (9, 1, 32, 32), (10, 2, 32, 32), (3, 3, 136, 136), (5, 2, 64, 64))]
QUERIES += [q("fault%d-%d" % (m, z), {"FAULT": m, "SZ": z}, "allocation failure %d for %d bytes" % (m, z)) for m in (1, 2, 3, 5) for z in (20, 200)]
QUERIES += [q("current", {"CURRENT": None, "NB": 6}, "the current thread's arena", unwind=7)]
