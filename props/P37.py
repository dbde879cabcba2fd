from props.ws_common import *
LEVEL_NOTE = ("Bounded: two messages of 1 to 3 fragments whose sizes lie around the buffer sizes (1 byte to two buffers), all bytes arbitrary except that fragments of 4 or more bytes start with the text {\"me; no pool, a pool of default-size buffers, a pool of buffers twice that size. "
              "The 4096-byte buffer constants are scaled to 16 bytes. Fragments starting with a small length prefix, which the server strips, and allocation failures are outside.")
SCALE = {"4096": "16", "4095": "15"}
def r(name, lens, pool, bsize):
    return Q("recv-" + name, "p31_slots.c", S + ["vp_bufpool.c", "vp_arena.c"], {"RECV": len(lens), "LENS": ",".join(map(str, lens)), "POOL": pool, "BSIZE": bsize, "MAX": 2, "VP_BUF": bsize or 16},
             unwind=34, bounds="fragments of %s bytes" % (lens,), scale=SCALE, flags=["--max-field-sensitivity-array-size", "128"])
QUERIES = []
for nm, pool, bs in (("heap", 0, 0), ("pool", 2, 0), ("pool8k", 2, 32)):
    for lens in ([3], [16], [2, 3], [15, 1], [16, 1], [5, 16, 2], [1, 32], [15, 3, 35]):
        QUERIES.append(r("%s-%s" % (nm, "-".join(map(str, lens))), lens, pool, bs))
