from vp.engine import Q
LEVEL_NOTE = ("Bounded: every history of 2 operations (thorough: 3) on three keys in four collision patterns followed by a lookup with a "
              "symbolic key, puts/removals of a key with an arbitrary 64-bit hash, the real string hash against arbitrary short probe strings, "
              "the real integer hash against every 32-bit probe, batches, growth, and every single allocation failure.")
S = ["src/common/mcp_hashtable.c", "src/common/mcp_string_utils.c", "vp_mempool_off.c"]
PATS = ["equal hashes", "apart once grown", "two of three collide", "distinct"]
QUERIES = [
  Q("history%d%d" % (p, h), "p14_hash.c", S, {"CAP": 2, "HIST": 2, "PROBE": None, "PAT": p, "PART": h}, unwind=60,
    bounds="histories of 2 operations (put/remove of 3 keys, clear; half %d), capacity 2, %s, then a lookup with a symbolic key and hash" % (h, PATS[p]))
  for p in range(4) for h in range(2)] + [
  Q("last_put", "p14_hash.c", S, {"CAP": 4, "LAST": 0}, unwind=20, bounds="16 built tables, then a put of a key with any 64-bit hash"),
  Q("last_remove", "p14_hash.c", S, {"CAP": 4, "LAST": 1}, unwind=20, bounds="16 built tables, then a removal of a symbolic key with any 64-bit hash"),
  Q("chain", "p14_hash.c", S, {"CHAIN": 5, "CAP": 16}, unwind=20, bounds="5 keys in one bucket, removal at every position, then of a symbolic key"),
  Q("strings", "p14_hash.c", S, {"CAP": 4, "STRKEYS": 5}, unwind=20, thorough=dict(defines={"STRKEYS": 9}), bounds="8 stored string keys, probe string of up to 5 arbitrary bytes"),
  Q("ints", "p14_hash.c", S, {"CAP": 4, "INTKEYS": None}, unwind=20, bounds="6 stored integer keys, any 32-bit probe"),
  Q("growth", "p14_hash.c", S, {"CAP": 2, "GROW": 30}, unwind=70, bounds="30 keys, capacity grows from 2"),
] + [Q("batch%d%d" % (p, h), "p14_hash.c", S, {"CAP": 2, "BATCH": None, "PAT": p, "PART": h}, unwind=40, bounds="all batches of 3 keys (half %d), %s" % (h, PATS[p]))
     for p in (0, 1) for h in range(2)
] + [Q("faults%d" % p, "p14_hash.c", S, {"CAP": 2, "FAULT": None, "PAT": p}, unwind=20, bounds="allocation k fails, k=0..9, during 5 puts, %s" % PATS[p])
     for p in (0, 1, 3)]
