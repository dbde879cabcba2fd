from props.http_common import *
LEVEL_NOTE = ("Bounded: GET, POST and DELETE on the endpoint through the libwebsockets callback, five allow-lists (exact, wildcard, blanks, several, '*'), every origin of up to 4 arbitrary bytes, no origin, and origins longer than the server's buffer (buffer constant 256 scaled to 24). "
              "libwebsockets, the event store and the session table are stand-ins.")
LISTS = ["ab", "ab*", "a, b*\t,cd ", " ,ab,,b ", "*"]
M = ["get", "post", "delete"]
def g(n, l, m, **d):
    dd = {"GATE": None, "LIST": '"%s"' % l.replace("\t", "\\t"), "METHOD": m}
    dd.update(d)
    if l == "*": dd["ALL"] = None
    return q(n, dd, "%s, allow-list %r" % (M[m], l), scale={"256": "24"}, extra_pre="p33_pre.h",
             drop=[T + "utils.c:" + f for f in ("send_sse_event", "sse_stream_context_create", "sse_stream_context_destroy")])
QUERIES = [g("%s%d" % (M[m], i), l, m) for m in range(3) for i, l in enumerate(LISTS)]
QUERIES += [g("long-%s" % M[m], "ab*" if m else "cde", m, OVERLONG=30) for m in range(3)]
