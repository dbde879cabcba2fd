from vp.engine import Q, BASE_STUBS
LEVEL_NOTE = "Bounded: two backends with up to 2 prefixes, 2 tools and a regular expression each (arbitrary names of up to 2 bytes, arbitrary verdicts), requested names of up to 3 bytes, five methods, parameters of six shapes; histories of three requests and reloads, one of which may fail, over three configurations; configuration files of two backends, good and with one of seven faults, any one of 17 allocations failing. JSON texts are replaced by the values they denote, regular expressions by arbitrary verdicts. Outside: a reload while the caller still uses the backend it was given, and forwarding itself."
R = "src/gateway/mcp_gateway_routing.c"
def q(n, d, b, s, **k): return Q(n, "p21_route.c", s + ["vp_jsontree.c", "src/common/mcp_string_utils.c"], dict(d, VP_JSON_KIDS=5, VP_JSON_FREE=None, VP_JSON_STR=4), unwind=24, drop=["src/common/mcp_string_utils.c:mcp_strdup"], extra_pre="p21_pre.h", bounds=b, scale={"4096": "16", "1024": "8"}, flags=["--max-field-sensitivity-array-size", "256"], **k)
QUERIES = [q("find%d" % f, {"FIND": f}, "two backends, arbitrary entries and names of up to 3 bytes", [R]) for f in (0, 1)]
QUERIES += [q("manager%d" % m, {"MANAGER": m}, "three requests or reloads", [R, "src/gateway/mcp_gateway_config_manager.c"]) for m in range(5)]
QUERIES += [q("load%d" % l, {"LOAD": l}, "configurations of two backends", ["src/gateway/mcp_gateway_config.c"]) for l in (0, 1)]
