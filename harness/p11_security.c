/* Template access control: roles and validators in any registration order. */
#include "vp.h"
#include "mcp_template_security.h"

static const char *const tpl[2] = { "a{x}", "b{x}" };
static const char *const role[4] = { "u", "v", "w", "*" };
/* the model */
static bool listed[2][4], any_roles[2];
static int val[2], defval;          /* 0: none, else 1 + index of the validator */
static bool verdict[3];             /* what each validator says */
static int mark[3];
static unsigned calls;
static const mcp_json_t *pj;
static bool v_any(const char *t, const mcp_json_t *p, void *u) {
    calls++;
    VP_ASSERT(p == pj, "validators get the parameters");
    VP_ASSERT(vp_eq(t, tpl[0]) || vp_eq(t, tpl[1]), "validators get the template");
    for (int i = 0; i < 3; i++) if (u == &mark[i]) return verdict[i];
    VP_ASSERT(false, "validators get their own data");
    return true;
}
static mcp_template_security_t *sec;
/* operations: 1..: add list of roles given by bits m to template t; set validator; set default */
static void add(int t, unsigned m) {
    const char *r[4];
    size_t n = 0;
    for (int i = 0; i < 4; i++) if (m >> i & 1) r[n++] = role[i];
    int rc = mcp_template_security_add_acl(sec, tpl[t], r, n);
    VP_ASSERT(rc == 0, "registering roles succeeds");
    for (int i = 0; i < 4; i++) if (m >> i & 1) { listed[t][i] = true; any_roles[t] = true; }
}
static void setv(int t, int k) {
    VP_ASSERT(mcp_template_security_set_validator(sec, tpl[t], v_any, &mark[k]) == 0, "registering a validator succeeds");
    val[t] = 1 + k;
}
static void setd(int k) {
    VP_ASSERT(mcp_template_security_set_default_validator(sec, v_any, &mark[k]) == 0, "registering a default validator succeeds");
    defval = 1 + k;
}
#ifdef ADDFAIL
static void add_failing(int t, unsigned m) {
    const char *r[4];
    size_t n = 0;
    for (int i = 0; i < 4; i++) if (m >> i & 1) r[n++] = role[i];
    vp_oom_arm(1ull << vp_range(0, 5));
    int rc = mcp_template_security_add_acl(sec, tpl[t], r, n);
    vp_oom_off();
    VP_REACH(rc != 0, "registration fails for lack of memory");
    if (rc == 0) for (int i = 0; i < 4; i++) if (m >> i & 1) { listed[t][i] = true; any_roles[t] = true; }
}
#endif
static bool params_ok(int t) {
    int k = val[t] ? val[t] : defval;
    return k == 0 || verdict[k - 1];
}
static bool known[2];
void vp_harness(void) {
    int dummy;
    pj = (const mcp_json_t *)&dummy;
    sec = mcp_template_security_create();
    VP_NONNULL(sec, "created");
    for (int i = 0; i < 3; i++) verdict[i] = vp_bool();
    HISTORY
    for (int t = 0; t < 2; t++) {
        known[t] = any_roles[t] || val[t];
        for (int r = 0; r < 3; r++) {
            char name[3] = { role[r][0], 0, 0 };
#ifdef FREE
            vp_str(name, 2);
#endif
            bool mine = listed[t][3];
            for (int i = 0; i < 3; i++) if (listed[t][i] && vp_eq(role[i], name)) mine = true;
            bool got = mcp_template_security_check_access(sec, tpl[t], name, pj);
            if (any_roles[t] && !mine && !(name[0] == '*' && name[1] == 0 && listed[t][3])) VP_ASSERT(!got, "a role that is not listed is not admitted");
            if (known[t] && !params_ok(t)) VP_ASSERT(!got, "rejected parameters are not admitted");
            if (any_roles[t] && mine && params_ok(t)) VP_ASSERT(got, "a listed role with accepted parameters is admitted");
        }
        VP_ASSERT(mcp_template_security_validate_params(sec, tpl[t], pj) == params_ok(t), "parameters are judged by the template's validator, else by the default one");
        if (known[t] && !params_ok(t)) VP_ASSERT(!mcp_template_security_check_access(sec, tpl[t], NULL, pj), "rejected parameters are refused to everyone");
    }
    VP_REACH(verdict[0] && !verdict[1], "validators disagree");
    mcp_template_security_destroy(sec);
    VP_ASSERT(vp_live == 0, "nothing is leaked");
}
