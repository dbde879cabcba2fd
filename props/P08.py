from vp.engine import Q
LEVEL_NOTE = ("Bounded: for every window length and quota and all (32-bit) time steps, all orders of 5 checks by two clients "
              "(five identifier pairs incl. colliding hashes), table growth with 14 clients, and every single allocation failure. "
              "Longer histories and non-monotonic clocks are outside the bound.")
S = ["src/server/mcp_rate_limiter.c", "src/common/mcp_string_utils.c"]
QUERIES = [Q("orders%d" % i, "p08_rate.c", S, {"PATTERNS": i, "STEPS": 4 if i else 5}, unwind=40, thorough=dict(defines={"STEPS": 6}),
             bounds="2 clients (pair %d), all orders of %d checks, window 1..2^31-1, quota 1..2^32-1, arbitrary 32-bit time steps" % (i, 4 if i else 5))
           for i in range(5)] + [
  Q("growth", "p08_rate.c", S, {"GROWTH": 14}, unwind=70, bounds="14 clients twice, table grows from 16, 16-bit time steps, quota 1..5"),
  Q("faults", "p08_rate.c", S, {"OOM": None}, unwind=40, timeout=60, bounds="window 10, quota 2, allocation k fails, k=0..9, 4 checks by 2 clients"),
]
