from vp.engine import Q
LEVEL_NOTE = ("The synchronisation layer itself, over a model of POSIX mutexes and condition variables with separate monotonic and real-time clocks: "
              "nine timeouts for every state of both clocks, every timeout below 1000 s for three clock states, every outcome of the wait, every creation failure.")
S = ["src/common/mcp_sync.c", "vp_mempool_off.c"]
ST = ["vp_core.c", "vp_log.c", "vp_libc.c"]
QUERIES = [
  Q("ms%d" % i, "p35_sync.c", S, {"MS": i}, stubs=ST, extra_pre="p35_pre.h", unwind=4, bounds="timeout %s ms, any clock state, any outcome" % v)
  for i, v in enumerate([1, 999, 1000, 1001, 1500, 59999, 60000, 3600000, 4294967295])] + [
  Q("ns%d" % i, "p35_sync.c", S, {"NS": v, "MSMAX": m}, stubs=ST, extra_pre="p35_pre.h", unwind=4, bounds="any timeout below %s ms, sub-second clock part %s" % (m, v))
  for i, (v, m) in enumerate([("0", 1000000), ("999999999", 1000000), ("500000000", 1000000)])] + [
  Q("faults", "p35_sync.c", S, {"FAULT": None, "MSMAX": 5}, stubs=ST, extra_pre="p35_pre.h", unwind=6, bounds="allocation or initialisation fails at every point"),
]
