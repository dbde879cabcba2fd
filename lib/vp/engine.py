"""Compile /repo sources with goto-cc, decide harness assertions with CBMC,
replay models natively."""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
STUBS = os.path.join(ROOT, "stubs")
HARNESS = os.path.join(ROOT, "harness")
COMPAT = "/opt/vp/compat/supamcp_linux.h"
INC = ["include"] + ["src/" + d for d in (
    "common", "common/internal", "json", "json/internal", "transport", "transport/internal",
    "server", "server/internal", "client", "client/internal", "connection_pool",
    "connection_pool/internal", "gateway")]
BASE_STUBS = ["vp_core.c", "vp_sync.c", "vp_log.c", "vp_libc.c"]
MEM_GB = int(os.environ.get("VP_MEM_GB", "8"))
RAW = {"vp_core.c", "vp_libc.c", "vp_fs.c"}
NEVER_AUTO = {"src/common/mcp_sync.c", "src/common/mcp_rwlock.c", "src/common/mcp_log.c"}


class CheckError(Exception):
    pass


class Q:
    """One solver query: a harness, the repository sources it executes, bounds."""
    def __init__(self, name, harness, sources, defines=None, unwind=8, unwindset=None,
                 stubs=None, flags=None, timeout=int(os.environ.get("VP_TIMEOUT", "600")), tier="quick", reach=None,
                 bounds="", drop=(), replay=True, checks=True, object_bits=None,
                 solver=None, note="", extra_pre=None, native_cflags=(), thorough=None,
                 max_unwind=None, no_auto=(), threads=False, replay_defines=None, mem=None, sizes=None, scale=None):
        self.sizes = sizes
        self.scale = dict(scale or {})     # integer constants of the repository replaced by smaller ones
        self.name, self.harness, self.sources = name, harness, list(sources)
        self.defines = dict(defines or {})
        self.unwind, self.unwindset = unwind, dict(unwindset or {})
        self.stubs = list(BASE_STUBS if stubs is None else stubs)
        self.flags = list(flags or [])
        self.timeout, self.tier = timeout, tier
        self.bounds, self.drop, self.replay, self.checks = bounds, list(drop), replay, checks
        self.object_bits, self.solver, self.note = object_bits, solver, note
        self.extra_pre, self.native_cflags = extra_pre, list(native_cflags)
        self.thorough = thorough or {}
        self.max_unwind = max_unwind
        self.no_auto = set(no_auto)
        self.threads = threads
        self.replay_defines = replay_defines or {}
        self.mem = mem or MEM_GB


def run(cmd, timeout, mem_gb=None, cwd=None, env=None, stdout=subprocess.PIPE):
    def lim():
        os.setsid()
        if mem_gb:
            b = mem_gb << 30
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=stdout, stderr=subprocess.PIPE, preexec_fn=lim, cwd=cwd,
                         env=env, stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = -999
    return rc, out or b"", err or b"", time.time() - t


_index = None
_index_lock = threading.Lock()


def repo_index():
    """function name -> repository sources that define it (by text)."""
    global _index
    with _index_lock:
        if _index is None:
            ix = {}
            for f in sorted(glob.glob(REPO + "/src/**/*.c", recursive=True)):
                txt = open(f, errors="replace").read()
                for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?[ \t\*](\w+)[ \t]*\([^;{}]*?\)\s*\{", txt, re.M):
                    if re.match(r"^static\b", m.group(0)):
                        continue
                    ix.setdefault(m.group(1), []).append(os.path.relpath(f, REPO))
            _index = ix
    return _index


_lws = {}


def uses_lws(path, depth=0):
    """Does a source or a repository header it includes mention libwebsockets?"""
    if path in _lws:
        return _lws[path]
    _lws[path] = False
    try:
        txt = open(path, errors="replace").read()
    except OSError:
        return False
    r = bool(re.search(r"\blws_|libwebsockets\.h", txt))
    if not r and depth < 6:
        for m in re.finditer(r'^\s*#\s*include\s*[<"]([^">]+)[">]', txt, re.M):
            n = os.path.basename(m.group(1))
            for d in [os.path.dirname(path)] + [os.path.join(REPO, x) for x in INC] + [HARNESS, STUBS]:
                f = os.path.join(d, m.group(1))
                if not os.path.exists(f):
                    f = os.path.join(d, n)
                if os.path.exists(f):
                    if uses_lws(f, depth + 1):
                        r = True
                    break
            if r:
                break
    _lws[path] = r
    return r


class Runner:
    def __init__(self, pid, tier, seed, work, verbose=False):
        self.pid, self.tier, self.seed, self.work, self.verbose = pid, tier, seed, work, verbose
        self.objs = {}
        self.lock = threading.Lock()

    # ---- compilation -----------------------------------------------------
    def uses_lws(self, src):
        return uses_lws(self.path(src))

    def cflags(self, q, src="", native=False):
        fl = ["-D_GNU_SOURCE", "-DMCP_VERIFY", "-I" + STUBS, "-I" + HARNESS]
        for d in INC:
            fl.append("-I" + os.path.join(REPO, d))
        if not native:
            fl.append("-DVP_CBMC")
        if src in RAW:
            fl.append("-DVP_NO_REDIRECT")
        lws = bool(src) and self.uses_lws(src)
        fl += ["-include", COMPAT if lws else os.path.join(STUBS, "compat_nolws.h")]
        if q.extra_pre:
            fl.append('-DVP_EXTRA_PRE="%s"' % q.extra_pre)
        if q.sizes:
            fl.append('-DVP_SIZES="%s"' % q.sizes)
        own = bool(src) and (src == q.harness or (not src.startswith("src/") and not os.path.exists(os.path.join(STUBS, src))))
        for k, v in sorted(q.defines.items()):
            if src and not own and not k.startswith("VP_"):
                continue        # so that objects are shared between queries
            fl.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
        fl += ["-include", os.path.join(STUBS, "vp_pre.h")]
        return fl

    def path(self, s):
        if s.startswith("src/"):
            return os.path.join(REPO, s)
        if os.path.exists(os.path.join(HARNESS, s)):
            return os.path.join(HARNESS, s)
        return os.path.join(STUBS, s)

    def scaled(self, q, path, fl, out):
        """Preprocess, then replace integer constants in the text that comes from the repository."""
        rc, o, e, _ = run(["gcc", "-std=gnu11", "-w", "-E", "-x", "c", path] + fl, 120)
        if rc != 0:
            raise CheckError("preprocessing %s failed: %s" % (path, e.decode(errors="replace")[-2000:]))
        pat = re.compile(r"(?<![\w.])(%s)([uUlL]{0,3})(?![\w.])" % "|".join(re.escape(k) for k in q.scale))
        ours, res = False, []
        for line in o.decode(errors="replace").splitlines(True):
            m = re.match(r'# \d+ "([^"]*)"', line)
            if m:
                ours = m.group(1).startswith(REPO + "/")
            elif ours:
                line = pat.sub(lambda m: q.scale[m.group(1)] + m.group(2), line)
            res.append(line)
        with open(out, "w") as f:
            f.write("".join(res))
        return out

    def plain_labels(self, path, fl, out):
        """Preprocess and put an empty statement after labels: gcc takes a declaration there, goto-cc does not."""
        rc, o, e, _ = run(["gcc", "-std=gnu11", "-w", "-E", "-x", "c", path] + fl, 120)
        if rc != 0:
            raise CheckError("preprocessing %s failed: %s" % (path, e.decode(errors="replace")[-2000:]))
        pat = re.compile(r"^(\s*(?:case\s+[^:?]+:|default\s*:|[A-Za-z_]\w*\s*:(?=\s*$)))")
        with open(out, "w") as f:
            f.write("".join(pat.sub(r"\1 ;", line) for line in o.decode(errors="replace").splitlines(True)))
        return out

    def compile(self, q, src, native, tag=""):
        key = (src, native, tag, tuple(self.cflags(q, src, native)), tuple(q.native_cflags) if native else (), tuple(q.drop), tuple(sorted(q.scale.items())))
        with self.lock:
            ev = self.objs.get(key)
            if ev is None:
                ev = self.objs[key] = dict(done=threading.Event(), path=None, err=None)
                mine = True
            else:
                mine = False
        if not mine:
            ev["done"].wait()
            if ev["err"]:
                raise CheckError(ev["err"])
            return ev["path"]
        try:
            out = os.path.join(self.work, "o%d%s" % (len(self.objs), ".o" if native else ".gb"))
            out = tempfile.mktemp(suffix=os.path.basename(out), dir=self.work)
            fl = self.cflags(q, src, native)
            path = self.path(src)
            if q.scale:
                path = self.scaled(q, path, fl, out + ".i")
                fl = []
            if native:
                cmd = ["gcc", "-std=gnu11", "-w", "-g", "-O0", "-fno-omit-frame-pointer",
                       "-fsanitize=address,bounds,null", "-fno-sanitize-recover=all", "-c", path, "-o", out] + fl + q.native_cflags
                if tag:
                    cmd.append("-ftrivial-auto-var-init=" + tag)
            else:
                cmd = ["goto-cc", "--native-compiler", "gcc", "-std=gnu11", "-w", "-c", path, "-o", out] + fl
            rc, o, e, _ = run(cmd, 300)
            if rc != 0 and not native:
                cmd[cmd.index(path)] = self.plain_labels(path, fl, out + "l.i")
                rc, o, e, _ = run(cmd, 300)
            if rc != 0:
                raise CheckError("compile %s failed: %s" % (src, (o + e).decode(errors="replace")[-3000:]))
            drop = [d[len(src) + 1:] for d in q.drop if d.startswith(src + ":")]
            if drop:
                if native:
                    args = ["objcopy"]
                    for d in drop:
                        args += ["--weaken-symbol=" + d]
                    rc, o, e, _ = run(args + [out], 60)
                else:
                    args = ["goto-instrument"]
                    for d in drop:
                        args += ["--remove-function-body", d]
                    rc, o, e, _ = run(args + [out, out + "d"], 120)
                    if rc == 0:
                        os.replace(out + "d", out)
                if rc != 0:
                    raise CheckError("drop in %s failed: %s" % (src, (o + e).decode()[-2000:]))
            ev["path"] = out
            return out
        except CheckError as x:
            ev["err"] = str(x)
            raise
        finally:
            ev["done"].set()

    def link(self, q):
        srcs = [q.harness] + q.stubs + q.sources
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: self.compile(q, s, False), srcs))
        undefined = []
        for _ in range(6):
            out = tempfile.mktemp(suffix=".gb", dir=self.work)
            rc, o, e, _ = run(["goto-cc", "-o", out] + objs, 300)
            if rc != 0:
                raise CheckError("link failed: " + (o + e).decode(errors="replace")[-3000:])
            rc, o, e, _ = run(["goto-instrument", "--reachable-call-graph", out], 120)
            reach = set(re.findall(r"[A-Za-z_]\w*", o.decode(errors="replace")))
            rc, o, e, _ = run(["goto-instrument", "--list-undefined-functions", out], 120)
            undefined = sorted(set(l.strip() for l in o.decode().splitlines()
                                   if re.match(r"^[A-Za-z_]\w*$", l.strip()) and l.strip() in reach))
            ix = repo_index()
            new = []
            for u in undefined:
                if u in q.no_auto or u.startswith("__CPROVER") or u.startswith("nondet_"):
                    continue
                for f in ix.get(u, []):
                    if f in NEVER_AUTO:
                        continue
                    if f not in srcs and f not in new:
                        new.append(f)
                        break
            if not new:
                break
            for f in new:
                srcs.append(f)
                objs.append(self.compile(q, f, False))
        drop = tempfile.mktemp(suffix=".gb", dir=self.work)
        rc, o, e, _ = run(["goto-instrument", "--drop-unused-functions", out, drop], 300)
        if rc == 0:
            out = drop
        self.log("%s: sources %s" % (q.name, [s for s in srcs if s.startswith("src/")]))
        return out, srcs, undefined

    def log(self, s):
        if self.verbose:
            sys.stderr.write("[%s] %s\n" % (self.pid, s))

    # ---- solving -----------------------------------------------------------
    def cbmc(self, q, gb, unwind, unwindset, props=None, trace=True, timeout=None):
        cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--unwind", str(unwind), "--no-malloc-may-fail",
               "--no-signed-overflow-check", "--no-undefined-shift-check",
               "--no-pointer-primitive-check", "--no-div-by-zero-check", "--slice-formula"]
        cmd.remove("--slice-formula")
        if trace:
            cmd.append("--trace")
        if not q.checks:
            cmd.append("--no-standard-checks")
            cmd += ["--unwinding-assertions"]
        else:
            cmd += ["--unwinding-assertions"]
        if unwindset:
            cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(unwindset.items()))]
        if True:
            cmd += ["--object-bits", str(q.object_bits or 11)]
        if q.solver:
            cmd += q.solver.split()
        cmd += q.flags
        for p in props or []:
            cmd += ["--property", p]
        outf = tempfile.mktemp(suffix=".json", dir=self.work)
        with open(outf, "wb") as f:
            rc, _, err, dt = run(cmd, timeout or q.timeout, mem_gb=q.mem, stdout=f)
        data = open(outf, "rb").read()
        os.unlink(outf)
        if os.environ.get("VP_DUMP"):
            open(os.environ["VP_DUMP"], "wb").write(data)
        res = dict(rc=rc, time=dt, results=None, msgs=[], cmd=" ".join(cmd))
        if rc == -999:
            res["error"] = "timeout after %ds" % (timeout or q.timeout)
            return res
        try:
            js = json.loads(data)
        except Exception:
            res["error"] = "no verdict (exit %s): %s %s" % (rc, data[-500:].decode(errors="replace"), err[-500:].decode(errors="replace"))
            return res
        for item in js:
            if "result" in item:
                res["results"] = item["result"]
            elif "messageText" in item:
                res["msgs"].append(item["messageText"])
        if res["results"] is None:
            res["error"] = "no result: " + " | ".join(res["msgs"][-5:])
            if "too many addressed objects" in res["error"] and (q.object_bits or 11) < 14:
                q.object_bits = 14
                return self.cbmc(q, gb, unwind, unwindset, props, trace, timeout)
        return res

    @staticmethod
    def inputs(trace):
        vals = []
        for st in trace:
            if st.get("stepType") == "assignment" and st.get("lhs") == "vp_nd" and not st.get("hidden", False):
                if st.get("assignmentType") != "variable":
                    continue
                f = (st.get("sourceLocation") or {}).get("function", "")
                if not f.startswith("vp_"):
                    continue
                v = st["value"]
                if "binary" in v:
                    vals.append(int(v["binary"], 2))
                else:
                    m = re.match(r"(\d+)", v.get("data", "0"))
                    vals.append(int(m.group(1)))
        return vals

    # ---- native replay -------------------------------------------------------
    def native(self, q, srcs, tag=""):
        qq = q
        if q.replay_defines:
            import copy
            qq = copy.copy(q)
            qq.defines = dict(q.defines, **q.replay_defines)
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: self.compile(qq, s, True, tag), srcs))
        out = tempfile.mktemp(suffix=".exe", dir=self.work)
        cmd = ["gcc", "-fsanitize=address,bounds,null", "-no-pie", "-o", out] + objs + [
            "-lm", "-lpthread", "-lssl", "-lcrypto", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs"]
        rc, o, e, _ = run(cmd, 300)
        if rc != 0:
            raise CheckError("native link failed: " + (o + e).decode(errors="replace")[-3000:])
        return out

    def replay(self, exe, vals, fill):
        d = tempfile.mkdtemp(dir=self.work)
        inf = os.path.join(d, "inputs")
        with open(inf, "w") as f:
            f.write("\n".join(str(v) for v in vals) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="exitcode=43:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1",
                   UBSAN_OPTIONS="exitcode=43:print_stacktrace=1")
        rc, o, e, dt = run([exe, inf, str(fill)], 20, cwd=d, env=env)
        shutil.rmtree(d, ignore_errors=True)
        o, e = o.decode(errors="replace"), e.decode(errors="replace")
        kind = "ok" if rc == 0 and "VP-DONE" in o else "assume" if rc == 77 else "assert" if rc == 42 else \
               "sanitizer" if rc == 43 else "hang" if rc == -999 else "crash"
        return dict(kind=kind, rc=rc, out=o[-4000:], err=e[-6000:],
                    reached=set(l[9:] for l in o.splitlines() if l.startswith("VP-REACH ")),
                    fail=[l[8:] for l in o.splitlines() if l.startswith("VP-FAIL ")])


def functions_encoded(gb, srcs):
    """Repository functions reachable from the harness entry point."""
    rc, o, e, _ = run(["goto-instrument", "--reachable-call-graph", gb], 120)
    names = set()
    for l in o.decode(errors="replace").splitlines():
        for w in re.findall(r"[A-Za-z_]\w*", l.split("[")[0]):
            names.add(w)
    fns = set()
    for s in srcs:
        if not s.startswith("src/"):
            continue
        txt = open(os.path.join(REPO, s), errors="replace").read()
        for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?[ \t\*](\w+)[ \t]*\([^;{}]*?\)\s*\{", txt, re.M):
            if m.group(1) in names:
                fns.add("%s:%s" % (s, m.group(1)))
    return sorted(fns)


def memory_check(desc):
    return not desc.startswith("VP: ") and not desc.startswith("REACH: ")


def decide(R, q):
    """Run one query to a verdict. Returns a dict for the evidence."""
    t0 = time.time()
    th = q.thorough if R.tier == "thorough" else {}
    for k, v in th.items():
        if k == "defines":
            q.defines.update(v)
        else:
            setattr(q, k, v)
    gb, srcs, undef = R.link(q)
    unwind, uset = q.unwind, dict(q.unwindset)
    r = dict(name=q.name, harness=q.harness, bounds=q.bounds, solver_s=0.0, verdict=None,
             failures=[], reach=[], retries=0)
    tries = 0
    while True:
        res = R.cbmc(q, gb, unwind, uset)
        r["solver_s"] += res["time"]
        if res.get("error"):
            r["verdict"] = "error"
            r["error"] = res["error"]
            return r
        loops = [x for x in res["results"] if "unwinding assertion" in x["description"]]
        bad = [x for x in loops if x["status"] == "FAILURE"]
        if bad and tries < 4:
            tries += 1
            # raise the bound of exactly the loops that were cut short
            for x in bad:
                m = re.match(r"(.*)\.unwind\.(\d+)$", x["property"])
                if m:
                    l = "%s.%s" % (m.group(1), m.group(2))
                    uset[l] = int(max(uset.get(l, unwind), 2) * 1.6) + 3
                else:
                    unwind = int(unwind * 1.6) + 2
            R.log("%s: raising bounds %s" % (q.name, {x["property"]: x["status"] for x in bad}))
            other = [x for x in res["results"] if x["status"] == "FAILURE" and x not in bad
                     and not x["description"].startswith("REACH: ")]
            if not other:
                continue
        break
    r["retries"] = tries
    r["unwind"] = unwind
    if uset:
        r["unwindset"] = uset
    r["sources"] = [s for s in srcs if s.startswith("src/")]
    r["havocked"] = [u for u in undef if not u.startswith("nondet_") and not u.startswith("__CPROVER")
                     and u not in LIBC]
    r["functions"] = functions_encoded(gb, srcs)
    steps = [m for m in res["msgs"] if "size of program expression" in m]
    vccs = [m for m in res["msgs"] if "VCC" in m]
    sizes = [m for m in res["msgs"] if "variables," in m and "clauses" in m]
    r["ssa"] = " ".join(steps[-1:] + vccs[-1:] + sizes[-1:])
    st = [x for x in res["results"] if x not in loops]
    goals = [x for x in st if x["description"].startswith("REACH: ")]
    obl = [x for x in st if not x["description"].startswith("REACH: ")]
    r["obligations"] = len(obl) + len(loops)
    r["discharged"] = sum(1 for x in obl + loops if x["status"] == "SUCCESS")
    r["asserted"] = sorted(set(x["description"][4:] for x in obl if x["description"].startswith("VP: ")))
    failed = [x for x in obl if x["status"] == "FAILURE"]
    unk = [x for x in obl + loops if x["status"] not in ("SUCCESS", "FAILURE")]
    unwound = not any(x["status"] == "FAILURE" for x in loops)
    exe = {}

    def get(tag):
        if tag not in exe:
            exe[tag] = R.native(q, srcs, tag)
        return exe[tag]
    # reachability witnesses, replayed
    validated = 0
    for g in goals:
        lab = g["description"][7:]
        item = dict(goal=lab, reached=g["status"] == "FAILURE")
        if g["status"] == "FAILURE" and q.replay and not failed:
            vals = R.inputs(g.get("trace", []))
            item["inputs"] = vals[:40]
            rep = R.replay(get(""), vals, 0xA5)
            # inputs drawn after the goal are not part of its trace
            item["native"] = "ok" if lab in rep["reached"] and rep["kind"] in ("ok", "assume") else \
                rep["kind"] if rep["kind"] != "ok" else "not-reached"
            if item["native"] == "ok":
                validated += 1
            else:
                item["native_detail"] = (rep["out"] + rep["err"])[-600:]
        r["reach"].append(item)
    r["traces_validated"] = validated
    # merge duplicates of one goal label
    if failed:
        # user assertions first, then memory checks
        failed.sort(key=lambda x: (memory_check(x["description"]), x["property"]))
        confirmed = False
        seen = 0
        for x in failed:
            vals = R.inputs(x.get("trace", []))
            f = dict(property=x["property"], description=x["description"], inputs=vals,
                     location="%s:%s" % ((x.get("sourceLocation") or {}).get("file", "?"), (x.get("sourceLocation") or {}).get("line", "?")))
            f["native"] = []
            if seen < 12 and q.replay:
                for tag, fill in (("", 0xA5), ("", 0), ("pattern", 0xFF), ("zero", 1)):
                    rep = R.replay(get(tag), vals, fill)
                    f["native"].append(rep["kind"])
                    if rep["kind"] in ("assert", "sanitizer", "crash", "hang"):
                        f["confirmed"] = rep["kind"]
                        f["native_fail"] = rep["fail"][:3] or [l for l in rep["err"].splitlines() if "ERROR" in l or "runtime error" in l][:3]
                        f["native_out"] = (rep["out"] + rep["err"])[-3000:]
                        f["fill"] = fill
                        break
            seen += 1
            r["failures"].append(f)
            if f.get("confirmed"):
                confirmed = True
                if seen >= 3:
                    break
        r["verdict"] = "violated" if confirmed else "unconfirmed"
    elif unk:
        r["verdict"] = "error"
        r["error"] = "unknown status: " + unk[0]["property"]
    elif not unwound:
        r["verdict"] = "error"
        r["error"] = "loop bound not reached: " + ", ".join(x["property"] for x in loops if x["status"] == "FAILURE")
    else:
        miss = set(i["goal"] for i in r["reach"]) - set(i["goal"] for i in r["reach"] if i["reached"])
        if miss:
            r["verdict"] = "vacuous"
            r["error"] = "unreachable goals: " + ", ".join(sorted(miss))
        else:
            r["verdict"] = "holds"
    r["wall_s"] = round(time.time() - t0, 2)
    r["solver_s"] = round(r["solver_s"], 2)
    return r


LIBC = set("""abort abs atexit exit free malloc calloc realloc memcpy memmove memset memcmp strlen strcmp strncmp
strcpy strncpy strcat strncat strchr strerror alloca __errno_location __assert_fail llabs labs fabs floor
ceil fmod sqrt pow __builtin_memcpy __builtin_memset isnan isinf""".split())
