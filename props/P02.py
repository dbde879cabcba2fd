from props.json_common import q
LEVEL_NOTE = ("Bounded: arbitrary texts of up to 2 bytes with every byte symbolic (path by path); strings of any one character, any two out of 27 that steer the parser or sit at its limits, alone and after an escape; escaped code units and pairs with any one digit open at 14 places; numbers of up to 4 characters (5 in the thorough tier); each word with any one character changed; documents of up to 3 tokens after each opening token; nesting of 100, 102 and 120 levels. The solver chooses among the cases; the hash table of objects and the arena are stand-ins (both have checks of their own), the alternatives of a node lie side by side instead of overlaid, and the C library's conversion between doubles and digits is modelled as exact from 17 significant digits and inexact below. Left open by the statement: unescaped control characters and lone surrogates. Outside: longer texts.")
NS = 27      # characters that steer the parser, with the end of the text
QUERIES = [q("char-%d" % f, {"STRING": 1, "ALL": None, "FROM": f, "TO": min(f + 31, 255)}, "strings of any one character") for f in range(0, 256, 32)]
QUERIES += [q("chars-%d" % f, {"STRING": 2, "FIRST": f}, "strings of two characters, the first %d" % f) for f in range(NS)]
QUERIES += [q("esc-%d" % f, {"STRING": 2, "FIRST": f, "LEAD": '"x\\\\"'}, "an escape and one more character") for f in range(NS)]
QUERIES += [q("unit-%d" % k, {"UNIT": None, "LEAD": '"' + l.replace("\\", "\\\\") + '"'}, "escaped code units") for k, l in enumerate(("\\u00?f", "\\u007?", "\\u008?", "\\u07f?", "\\u080?", "\\u0?41", "\\u?041", "\\ud7f?", "\\ue00?", "\\uff?f", "\\ud8?0\\udc00", "\\udb?f\\udfff", "\\ud83d\\ud?00", "\\ud83d\\ude0?"))]
QUERIES += [q("number-%d" % f, {"NUMBER": 4, "FIRST": f}, "numbers of up to 4 characters", thorough=dict(defines={"NUMBER": 5})) for f in range(8)]
QUERIES += [q("word%d" % w, {"WORD": w}, "a word with any one character changed") for w in (0, 1, 2)]
QUERIES += [q("deep%d" % n, {"DEEP": n}, "%d levels" % n, unwind=320) for n in (100, 102, 120)]
QUERIES += [q("tokens-%d" % f, {"TOKENS": 2, "FIXED": "%d,-1" % f}, "documents of up to 4 tokens") for f in (0, 2, 6, 7, 8)]
QUERIES += [q("bytes2", {"BYTES": 2}, "arbitrary texts of up to 2 bytes", unwind=5, paths=True)]
