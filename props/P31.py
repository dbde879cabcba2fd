from props.ws_common import *
LEVEL_NOTE = ("Bounded: one connection coming and going at every occupancy of tables of 1, 5, 32, 33 and 40 slots; all histories of 4 events of 3 connections on tables of 1 to 3 slots; the bit helpers for every index. "
              "Connections are stand-ins for libwebsockets ones.")
QUERIES = [q("one%d" % n, {"ONE": None, "MAX": n}, "table of %d slots, any occupancy" % n) for n in (1, 5, 32, 33, 40)]
QUERIES += [q("hist%d" % n, {"HIST": 4, "CONNS": 3, "MAX": n}, "4 events of 3 connections, %d slots" % n, unwind=34) for n in (1, 2, 3)]
QUERIES += [q("bits", {"BITS": None, "MAX": 7}, "every index")]
