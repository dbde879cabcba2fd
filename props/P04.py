from props.rpc_common import q
F = ("request", "direct request", "created request", "request message", "error response", "created error response", "error message", "response", "created response", "response message", "notification", "resource parameters", "tool parameters")
QUERIES = [q("ids%d" % f, {"FORMAT": f, "DIGITS": None}, "%s: five ids, three payloads" % n) for f, n in enumerate(F)]
QUERIES += [q("text%d" % f, {"FORMAT": f, "DIGITS": None, "CHAR": None, "PART": 0}, "%s: any of 11 characters" % n, thorough=dict(defines={"FULL": None}), tier="thorough" if f in (2, 5) else "quick") for f, n in enumerate(F) if f not in (7, 8, 9)]
QUERIES += [q("more%d" % f, {"FORMAT": f, "DIGITS": None, "CHAR": None, "PART": 1}, "%s: any of 11 other characters" % n, tier="thorough") for f, n in enumerate(F) if f not in (7, 8, 9)]
QUERIES += [q("nomem%d-%d" % (f, s), {"FORMAT": f, "DIGITS": None, "NOMEM": None, "FROM": s}, "%s: any one allocation fails" % F[f]) for f in (1, 3, 4, 12) for s in ((0, 10) if f not in (1, 3) else (0,))]
LEVEL_NOTE = "The real parser, tree, serialiser and message layer run; stand-ins: the object member table, the thread arena, and the conversion of numbers to and from text (whole numbers exactly; fractions and huge values stand for themselves). 13 formatting entry points; five ids from 0 to 2^53, three payloads, empty and non-empty strings; any of 11 (thorough: 22) steering characters in the caller's string; any one of the first 10/20 allocations failing for four of them. Outside: payloads that are not JSON (announced as omitted), payloads lost to memory exhaustion in the same way, strings longer than two characters."
