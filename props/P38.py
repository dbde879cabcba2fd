from props.http_common import *
LEVEL_NOTE = ("Bounded: bodies of up to 50 bytes other than NUL in 1 to 4 pieces around the buffer's growth steps (initial capacity 1024 scaled to 16), every single allocation failure. libwebsockets is a stand-in.")
def b(lens, **d):
    dd = {"BODY": len(lens), "LENS": ",".join(map(str, lens))}
    dd.update(d)
    return q("body-" + "-".join(map(str, lens)) + "".join("-f%d" % v for k, v in d.items()), dd, "pieces of %s bytes" % lens, scale={"1024": "16"}, unwind=60, flags=["--max-field-sensitivity-array-size", "128"])
QUERIES = [b(l) for l in ([1], [16], [15], [17], [8, 8], [10, 6, 1], [16, 1, 40], [5, 30, 3, 12])] + [b(l, FAULT=k) for l, n in (([16], 2), ([10, 6, 1], 2), ([8, 10], 2)) for k in range(n)]
