from vp.engine import Q, BASE_STUBS
LEVEL_NOTE = ("Bounded: three fixed histories of up to three operations on three URIs (two of which share a prefix), then one of 16 and one of 10 operations chosen by the solver (puts with default, short and no lifetime and arbitrary content bytes, lookups, invalidations, pruning, the clock moving), then every lookup, with room for two entries; lifetimes of 7 kinds looked up and pruned at 5 times around their end; another operation at any lock operation of a lookup or a put; any one allocation failing in each operation, with the array of pruned keys growing (16 scaled to 1). The pools of content items and of list nodes are stand-ins. Outside: longer histories, other races than one operation inside another.")
S = ["src/server/mcp_cache.c", "src/common/mcp_hashtable.c", "src/common/mcp_list.c", "vp_mempool_off.c"]
def q(n, d, b, **k): return Q(n, "p10_cache.c", S, d, unwind=k.pop("unwind", 30), bounds=b, flags=["--max-field-sensitivity-array-size", "256"] + k.pop("flags", []), **k)
FIRST = ["1,4", "2,5,9", "4,1,15", "0"]
QUERIES = [q("history%d-%d" % (i, f), {"HIST": h, "FROM": f}, "operations %s, then one of %d to %d, then one of 10 (thorough: 16)" % (h, f, f + 3), object_bits=13, thorough=dict(defines={"FULL": None}), **({"tier": "thorough"} if i == 3 else {})) for i, h in enumerate(FIRST) for f in (0, 4, 8, 12)]
QUERIES += [q("never-%d" % f, {"HIST": "0,3,15", "DEFTTL": 0, "FROM": f}, "no default lifetime", object_bits=13) for f in (0, 12)]
QUERIES += [q("one-%d" % f, {"HIST": "2", "CAP": 1, "FROM": f}, "room for one entry", object_bits=13) for f in (4, 12)]
QUERIES += [q("time%d" % t, {"TIME": t}, "lifetimes of 7 kinds, 5 times around their end") for t in (0, 1)]
QUERIES += [q("race%d%s" % (r, "p" if p else ""), dict({"RACE": r, "VP_YIELD": None}, **({"VIA_PUT": None} if p else {})), "another operation at any lock operation") for r in range(5) for p in (0, 1)]
QUERIES += [q("fault%d" % f, dict({"FAULT": f}, **({"CAP": 3} if f > 3 else {})), "any one allocation fails", **({"scale": {"16": "1"}} if f == 5 else {})) for f in range(6)]
QUERIES += [q("args", {"ARGS": None}, "malformed content")]
