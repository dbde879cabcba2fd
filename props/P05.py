from vp.engine import Q
from props.server_common import *
LEVEL_NOTE = ("Bounded: verification for all keys and credentials of up to 3 arbitrary bytes and all types, one arbitrary byte anywhere in keys of 70 bytes, lengths one apart; "
              "single messages of every kind with a key of 2 and credentials of up to 3 arbitrary bytes and of every other JSON kind; batches of 2 and 3 with the right and a wrong key. "
              "The JSON text layer is replaced by its results.")
G = {"GATE": None, "DENIED": None}
A = ["src/server/mcp_auth.c", "src/common/mcp_string_utils.c"]
QUERIES = [Q("verify", "p05_verify.c", A, {"SHORT": 3}, unwind=30, bounds="keys and credentials of up to 3 arbitrary bytes or absent, any type"),
           Q("verify-long", "p05_verify.c", A, {"LONG": 70, "LDIFF": 0}, unwind=90, flags=["--max-field-sensitivity-array-size", "256"], bounds="70-byte keys differing in one byte"),
           Q("verify-longer", "p05_verify.c", A, {"LONG": 70, "LDIFF": 2}, unwind=90, flags=["--max-field-sensitivity-array-size", "256"], drop=(), bounds="credential longer than a 70-byte key"),
           Q("verify-oom", "p05_verify.c", A, {"OOM": None}, unwind=30, bounds="any single allocation fails")]
QUERIES += [gate("single-key%d" % lo, dict(G, N=1, SHAPE=STR, KLO=lo, KHI=lo + 4 if lo < 8 else 11, **({"GRANTED": None} if lo == 0 else {})), "one message, any key and credential bytes") for lo in (0, 4, 8)]
QUERIES += [gate("single-" + SN[s], dict(G, N=1, SHAPE=s), "one message of any of 11 kinds, parameters: " + SN[s]) for s in range(1, 6)]
def parts(name, d, b):
    return [gate("%s%d" % (name, lo), dict(d, KLO=lo, KHI=lo + 4 if lo < 8 else 11), b) for lo in (0, 4, 8)]
for f in (PING, CALL, NOTIF):
    g = {"GRANTED": None} if f == CALL else {}
    QUERIES += parts("batch-" + KN[f], dict(G, N=2, FIRST=f, FSHAPE=STR, SHAPE=STR, CREDS=None, HOK=1, **g), "batch: %s, then any kind, each with the key or a wrong one" % KN[f])
QUERIES += parts("batch3-", dict(G, N=3, FIRST=PING, MIDDLE=CALL, FSHAPE=STR, SHAPE=STR, CREDS=None, HOK=1, GRANTED=None), "batch: ping, call, any kind")
QUERIES += parts("open", dict(GATE=None, GRANTED=None, N=2, FIRST=CALL, FSHAPE=STR, SHAPE=STR, CREDS=None, HOK=1, NOKEY=0), "no key configured")
QUERIES += [
  gate("batch-response", dict(G, N=2, FIRST=RESP, FSHAPE=STR, SHAPE=STR, CREDS=None, HOK=1), "batch: response, then any kind"),
  gate("batch-ping-noparams", dict(G, N=2, FIRST=PING, FSHAPE=NONE, SHAPE=STR, CREDS=None, HOK=1), "batch: ping without parameters, then any kind"),
  gate("open-empty", dict(GATE=None, GRANTED=None, N=1, SHAPE=STR, NOKEY=1, HOK=1), "empty key configured"),
  Q("access", "p05_verify.c", A, {"ACCESS": None}, unwind=30, bounds="any 3-byte name, any time"),
]
