from vp.engine import Q
LEVEL_NOTE = ("Bounded: every history of 1+2 operations (thorough 1+3) on three ids (four id sets incl. colliding slots) in an 8-slot table followed by "
              "lookup, add and removal of an arbitrary 64-bit id; growth of the real 64-slot table with 60 requests; refused growth.")
S = ["src/client/mcp_client_hash_table.c", "src/client/mcp_client_core.c", "src/common/mcp_string_utils.c", "vp_mempool_off.c"]
QUERIES = [
  Q("table%d%d" % (s, b), "p23_pending.c", S, {"BUILD": b, "SET": s, "BITS": 9 if s < 3 else 64}, unwind=20,
    bounds="8-slot table after history %d on id set %d, then %s" % (b, s, "add, lookup and removal of any id up to 511" if s < 3 else "lookup of any 64-bit id"))
  for s, bs in ((0, (0, 1, 2, 3, 5, 6, 7)), (1, (4, 8, 9)), (2, (1, 2)), (3, (1, 7))) for b in bs] + [
  Q("growth%d" % i, "p23_pending.c", S, {"GROW": 20, "BASE": b}, unwind=70, bounds="20 ids from %s, table grows from 8, arbitrary other id" % b)
  for i, b in enumerate(["0", "5000ULL"])] + [
  Q("create", "p23_pending.c", S, {"GROW": 5, "BASE": "0", "CTOR": None}, unwind=70, flags=["--max-field-sensitivity-array-size","128"], bounds="client made and destroyed by the real functions, 5 ids"),
  Q("faults", "p23_pending.c", S, {"FAULT": None}, unwind=20, bounds="8-slot table with 4 pending requests, growth refused, arbitrary further ids"),
]
