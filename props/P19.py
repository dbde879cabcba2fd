from vp.engine import Q
LEVEL_NOTE = ("Bounded: payloads of up to 3 arbitrary bytes (batches of two messages, three buffers), every way the socket can split them, an interrupted or refused call, a failure, a close or a stop request at any call, each allocation failing; any 32-bit length and limit for the refusal of long frames; "
              "two frames through the receive loops of the TCP server and of the TCP client, cut at any of four places. The socket calls are stand-ins that accept or deliver bytes in pieces of their own choosing.")
S = ["src/common/mcp_framing.c", "src/common/mcp_socket_utils.c", "vp_mempool_off.c"]
KINDS = ["ok", "intr", "again", "reset", "broken", "stop", "close", "nomem"]
def q(n, d, total, what, kind=0, more=(), **k):
    return Q("%s-%s" % (n, KINDS[kind]), "p19_framing.c", S + list(more), dict(d, CAP=max(total, k.pop("cap", 0)) + 1, TOTAL=total, KIND=kind), unwind=max(20, 2 ** (total - 1) + 2 if not kind and "CUTS" not in d else 20),
             bounds="%s, %s" % (what, KINDS[kind]), extra_pre="p19_pre.h", **k)
QUERIES = []
for n in range(4): QUERIES += [q("send%d" % n, {"SEND": n}, 4 + n, "sending %d arbitrary bytes" % n, k) for k in range(8) if k != 6 and (k != 7 or n)]
QUERIES += [q("exact4", {"SEXACT": 4}, 4, "sending 4 raw bytes", k) for k in range(6)]
for n in ((1, 2), (0, 2), (2, 0)): QUERIES += [q("batch%d%d" % n, {"BATCH": n[0], "L2": n[1], "CUTS": "0x11A"}, 8 + sum(n), "a batch of %d and %d bytes" % n, k) for k in (0, 1, 3, 5)]
QUERIES += [q("batch%d" % n, {"BATCH": 1, "L2": 1, "NTH": n, "CUTS": 0}, 10, "a batch without memory", 7) for n in range(3)]
for m in (7, 5, 6, 3, 2): QUERIES += [q("buffers%d%s" % (m, "em"[x]), {"SBATCH": m, "MISSING": x}, 2 * bin(m).count("1"), "three buffers, those of mask %d filled" % m) for x in (0, 1)]
for n in range(4): QUERIES += [q("recv%d" % n, {"RECV": n}, 4 + n, "receiving %d arbitrary bytes" % n, k) for k in range(8) if k != 7 or n]
QUERIES += [q("length-over", {"OVER": None, "OVERMAX": None, "CUTS": 0}, 4, "any length above any limit"), q("length-any", {"OVER": None, "CUTS": 0}, 4, "any length within any limit")]
for n in ((1, 2), (2, 2)):
    for nm, src in (("server", "src/transport/mcp_tcp_client_handler.c"), ("client", "src/transport/mcp_tcp_client_receiver.c")):
        QUERIES += [q("%s%d%d" % ((nm,) + n), {nm.upper(): "'z'" if n[0] == 1 else 0, "LEN1": n[0], "LEN2": n[1], "CUTS": "0x13A"}, 8 + sum(n), "two frames of %d and %d bytes to the %s" % (n + (nm,)), k, cap=12, more=[src]) for k in (0, 1, 2, 3, 4, 6)]
