from props.rpc_common import q
I = ("no id", "a number as id", "a string as id", "null as id")
M = ("no method", "a method", "a number as method")
W = ("message", "batch", "response")
QUERIES = [q("%s%d%d" % (W[w], i, m), {"SINGLE": None, "WAY": w, "ID": i, "METHOD": m}, "%s, %s, other members of every kind" % (I[i], M[m])) for w in (0, 1) for m in (0, 1, 2) for i in range(4)]
QUERIES += [q("response%d" % i, {"SINGLE": None, "WAY": 2, "ID": i, "METHOD": 0}, "a response as clients read it") for i in range(4)]
QUERIES += [q("number%d%d" % (n, w), {"NUMBERS": n, "WAY": w}, "13 ids or codes") for n in (0, 1, 2) for w in (0, 1, 2)]
QUERIES += [q("batch-%d" % f, {"BATCH": None, "FIRST": f}, "batches of 2 and 3 elements", thorough=dict(defines={"FULL": None})) for f in range(7)]
QUERIES += [q("fault%d-%d" % (f, s), {"FAULT": f, "FROM": s}, "any one allocation fails") for f, ss in ((0, (0, 10)), (1, (0, 10, 20))) for s in ss]
LEVEL_NOTE = 'The real parser, tree, serialiser and message layer run; stand-ins: the object member table, the thread arena, and the conversion of numbers to and from text (whole numbers exactly; fractions and huge values stand for themselves). Every combination of: id absent, number, string, null; method absent, string, wrong type; five parameters, four results, seven errors (members that cannot matter are not varied); 13 ids and codes of every kind and at the limits; batches of two elements of seven kinds each and of three; any one of the first 20/30 allocations failing. Left open: a method that is not a string, an error member of another type next to a result, ids above 2^53.'
