from vp.engine import Q
LEVEL_NOTE = ("Bounded: queues of capacity 1, 2 and 4 at every fill level and two positions of the ring; one operation of a thread with one or two operations of others at any of its atomic operations (sequentially consistent, properly nested); "
              "pools of 1 to 3 threads that run one after the other, up to 7 tasks, made smaller, failing allocations and threads that cannot be started, and a waiting thread at any moment of a worker.")
S = ["src/common/mcp_thread_pool.c", "src/common/mcp_thread_pool_deque.c", "src/common/mcp_thread_pool_tasks.c", "src/common/mcp_thread_pool_atomic.c", "src/common/mcp_thread_pool_worker.c", "src/common/mcp_thread_pool_stats.c", "src/common/mcp_thread_pool_system.c"]
def q(n, d, b, **k):
    d.update({"VP_OWN_COND": None, "VP_OWN_THREAD": None})
    return Q(n, "p18_threadpool.c", S, d, unwind=k.pop("unwind", 14), bounds=b, extra_pre="p18_pre.h", flags=["--max-field-sensitivity-array-size", "512"], **k)
OP = ("push", "pop", "steal")
QUERIES = []
for cap in (1, 2, 4):
    for fill in range(cap + 1):
        for shift in (0, 3):
            for mine in range(3):
                for other in range(3):
                    if mine == 1 and other == 1: continue     # one owner
                    for others in (2,):
                        if cap == 4 and (fill == 2 or not shift): continue
                        QUERIES.append(q("deque%d-%d%d-%s-%s%d" % (cap, fill, shift, OP[mine], OP[other], others), {"DEQUE": None, "CAP": cap, "FILL": fill, "SHIFT": shift, "MINE": mine, "OTHER": other, "OTHERS": others, "END": 1 + (fill & 1)},
                                         "capacity %d, %d queued, %s with %d %s interleaved" % (cap, fill, OP[mine], others, OP[other])))
for cap in (1, 2):
    for fill in range(cap + 1):
        for mine in range(3):
            for other in range(3):
                if mine == 1 and other == 1 or 0 in (mine, other) and 2 not in (mine, other): continue
                for shift in (1, 2):
                    QUERIES.append(q("cross%d-%d%d-%s-%s" % (cap, fill, shift, OP[mine], OP[other]), {"CROSS": None, "CAP": cap, "FILL": fill, "SHIFT": shift, "MINE": mine, "OTHER": other}, "capacity %d, %d queued, %s and %s interrupting each other" % (cap, fill, OP[mine], OP[other])))
for t, cap, n, sh in ((1, 1, 2, 0), (1, 2, 3, 0), (2, 1, 3, 0), (2, 2, 5, 0), (3, 2, 7, 0), (3, 1, 4, 2), (3, 2, 7, 2)):
    QUERIES.append(q("pool%d%d%d%d" % (t, cap, n, sh), {"POOL": None, "T": t, "CAP": cap, "MOST": n, **({"SHRINK": sh} if sh else {})}, "%d threads, capacity %d, %d tasks" % (t, cap, n), unwind=40))
for f in range(13): QUERIES.append(q("fault%d" % f, {"POOL": None, "T": 2, "CAP": 2, "MOST": 0, "FAULT": 1 << f}, "allocation %d fails" % f, unwind=40))
for f in range(2): QUERIES.append(q("nothread%d" % f, {"POOL": None, "T": 2, "CAP": 2, "MOST": 0, "NOTHREAD": f}, "thread %d cannot be started" % f, unwind=40))
QUERIES.append(q("eager", {"POOL": None, "T": 2, "CAP": 2, "MOST": 0, "EAGER": None}, "a worker that runs before its creator goes on", unwind=40))
for n in range(0, 112, 8): QUERIES.append(q("watch%d" % n, {"POOL": None, "T": 3, "CAP": 2, "MOST": 2, "FROM": n, "SPAN": 8, "WATCH": None}, "a thread waits at atomic operations %d to %d of a worker" % (n, n + 7), unwind=40))
