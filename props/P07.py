from vp.engine import Q
from props.server_common import *
LEVEL_NOTE = ("Bounded: single messages of every kind and every shape of parameters, batches of 2 and 3 messages, ids arbitrary 64-bit values, handlers succeeding or failing; "
              "method kinds enumerated, one unknown method name.  The JSON text layer is replaced by its results.")
A = {"ANSWERS": None}
QUERIES = [gate("single-%s-%s" % (SN[s], "ok" if h else "fail"), dict(A, N=1, SHAPE=s, NOKEY=0, HOK=h, GRANTED=None), "one message of any kind, parameters: " + SN[s]) for s in (STR, NONE, ARRAY) for h in (0, 1)]
QUERIES += [gate("denied", dict(A, N=1, SHAPE=ABSENT, HOK=1), "one message without the key")]
def parts(name, d, b):
    return [gate("%s%d" % (name, lo), dict(d, KLO=lo, KHI=lo + 4 if lo < 8 else 11), b) for lo in (0, 4, 8)]
for f in (CALL, NOTIF, UNKNOWN, RESP):
    QUERIES += parts("batch-" + KN[f], dict(A, N=2, FIRST=f, FSHAPE=STR, SHAPE=STR, HOK=int(f != CALL), NOKEY=0), "batch: %s, then any kind" % KN[f])
for f, m in ((CALL, NOTIF), (UNKNOWN, CALL), (NOTIF, PING)):
    QUERIES += parts("batch3-%s-" % KN[f], dict(A, N=3, FIRST=f, MIDDLE=m, FSHAPE=STR, SHAPE=STR, HOK=1, NOKEY=0), "batch: %s, %s, any kind" % (KN[f], KN[m]))
QUERIES += [gate("batch-denied", dict(A, N=2, FIRST=CALL, FSHAPE=ABSENT, SHAPE=ABSENT, HOK=1, KLO=0, KHI=4), "batch without the key")]
