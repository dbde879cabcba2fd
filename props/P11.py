from vp.engine import Q
LEVEL_NOTE = ("Bounded: 20 registration histories of 2 to 10 steps over two templates, four roles (one a wildcard) and three validators with arbitrary verdicts, including repeated registrations, growth of the table and a failing allocation anywhere; "
              "callers' roles: all registered ones and arbitrary strings of up to 2 bytes.  Callers without a role and templates never registered are outside the statement.")
S = ["src/server/mcp_template_security.c", "src/common/mcp_string_utils.c"]
# add(template, role bits), setv(template, validator), setd(validator)
H = ["add(0,1);", "add(0,3); add(1,4);", "add(0,1); add(0,2);", "add(0,1); add(0,1);", "setv(0,0); add(0,1);", "add(0,1); setv(0,0);", "setv(0,0); setv(0,1); add(0,2);",
     "add(1,4); setv(0,0); add(0,1); add(1,1);", "setd(0); add(0,1);", "add(0,1); setd(0); setv(1,1);", "setd(0); setv(0,1); add(0,5); setd(2);", "add(0,8); setv(1,0); add(1,2);",
     "setv(0,0); add(0,1); add(0,2); add(0,4);", "add(0,0); add(0,1);", "setv(1,2); add(0,1); setv(0,1); add(1,6); setd(0);", "add(0,7); add(1,7);"]
GROW = "add(0,1); add(1,2); for (int i = 0; i < 8; i++) { const char *r = \"u\"; char n[3] = { 'g', (char)('0' + i), 0 }; VP_ASSERT(mcp_template_security_add_acl(sec, n, &r, 1) == 0, \"more templates\"); } add(0,2);"
def q(n, h, b, **k):
    d = {"HISTORY": h}; d.update(k)
    return Q(n, "p11_security.c", S, d, unwind=14, bounds=b)
QUERIES = [q("order%d" % i, h, h) for i, h in enumerate(H)]
QUERIES += [q("free%d" % i, H[k], "any role string of 2 bytes; " + H[k], FREE=None) for i, k in enumerate((1, 4, 11))]
QUERIES += [q("grow", GROW, "ten templates"),
            q("oom-new", "add(1,2); add_failing(0,3);", "any allocation of a registration fails", ADDFAIL=None),
            q("oom-extend", "setv(0,0); add(0,1); add_failing(0,6);", "any allocation of a repeated registration fails", ADDFAIL=None)]
