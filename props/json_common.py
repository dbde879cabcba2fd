from vp.engine import Q, BASE_STUBS
S = ["src/json/mcp_json_parser.c", "src/json/mcp_json_stringifier.c", "src/json/mcp_json.c", "src/json/mcp_json_utils.c"]
def q(n, d, b, **k):
    fl = ["--max-field-sensitivity-array-size", "512"] + (["--paths", "lifo"] if k.pop("paths", False) else [])
    return Q(n, "json.c", S, dict(d, VP_ARENA_NODE="struct mcp_json", VP_PTR_BLOCK=64), unwind=k.pop("unwind", 40), extra_pre="json_pre.h", stubs=BASE_STUBS + ["vp_arena.c", "vp_hashtable.c"], bounds=b, flags=fl, **k)
