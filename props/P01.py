from props.json_common import q
LEVEL_NOTE = ("Bounded: strings of any one character and of any two out of 26 that steer the serialiser or sit at its limits, as values and as member names; any double; trees of three leaves of 7 kinds in an array inside an object; up to 12 elements with the buffer sizes 256 and 1024 scaled to 16 and 48; any one allocation failing. The solver chooses among the cases; the hash table of objects and the arena are stand-ins (both have checks of their own), the alternatives of a node lie side by side instead of overlaid, and the C library's conversion between doubles and digits is modelled as exact from 17 significant digits and inexact below. Outside: longer strings and deeper trees.")
NS = 27
QUERIES = [q("char%d-%d" % (w, f), {"WRITE_STRING": 1, "WHERE": w, "PRE": 1, "BACK": None, "ALL": None, "FROM": f, "TO": min(255, f + 31)}, "strings of any one character") for w, fs in ((0, [1] + list(range(32, 256, 32))), (2, (1, 32, 96))) for f in fs]
QUERIES += [q("chars%d-%d" % (w, f), {"WRITE_STRING": 2, "WHERE": w, "PRE": 1, "BACK": None, "FIRST": f}, "strings of two characters, the first %d" % f) for f in range(NS - 1) for w in (0,)]
QUERIES += [q("number", {"WRITE_NUMBER": None}, "any number", paths=True)]
QUERIES += [q("tree%d" % a, {"WRITE_TREE": a}, "trees of three leaves of 7 kinds") for a in range(7)]
QUERIES += [q("many-%d" % c, {"WRITE_MANY": None, "N": 12, "CAP": c}, "up to 12 elements", scale={"256": "16", "1024": "48"}) for c in (0, 1, 40)]
QUERIES += [q("fault%d" % c, {"WRITE_FAULT": c}, "any one allocation fails") for c in (0, 1)]
