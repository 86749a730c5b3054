#!/usr/bin/env python3
"""driver.py - runs every proof unit of one property against /repo's current tree.

usage: driver.py <property id> [--tier quick|thorough] [--unit NAME] [--repo DIR] [-v]

exit 0: the property held on everything decided; exit 1 + VIOLATION line: it does not.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
H = os.path.join(ROOT, "harness")
DEFS = ("-DHAVE_ASPRINTF -DHAVE_ASSERT_H -DHAVE_BASENAME -DHAVE_BZERO -DHAVE_CALLOC -DHAVE_CONFIG_H -DHAVE_CTYPE_H "
        "-DHAVE_DLFCN_H -DHAVE_ERRNO_H -DHAVE_GETOPT_LONG -DHAVE_INTTYPES_H -DHAVE_LIBGEN_H -DHAVE_LONG_DOUBLE "
        "-DHAVE_LONG_LONG -DHAVE_MEMORY_H -DHAVE_MEMSET -DHAVE_OPENLOG -DHAVE_PTHREADS -DHAVE_STDBOOL_H -DHAVE_STDINT_H "
        "-DHAVE_STDLIB_H -DHAVE_STRCHR -DHAVE_STRDUP -DHAVE_STRINGS_H -DHAVE_STRING_H -DHAVE_STRRCHR -DHAVE_SYSLOG_H "
        "-DHAVE_SYS_STAT_H -DHAVE_SYS_TYPES_H -DHAVE_SYS_WAIT_H -DHAVE_UNISTD_H -DHAVE_VASPRINTF -DHAVE_VA_COPY "
        "-DHAVE_VSYSLOG -DWITH_THREADS -DLUA_USE_MKSTEMP -D_GNU_SOURCE").split()
SAN = "address,bounds,integer-divide-by-zero,null,unreachable,return,vla-bound"
NCPU = max(2, os.cpu_count() or 2)
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    if VERBOSE:
        print(s, file=sys.stderr, flush=True)


VERBOSE = False


def run(cmd, timeout, cwd=None, env=None, mem_gb=None, out_to=None):
    """returns (rc, output, seconds); rc None on timeout"""
    t = time.time()

    def pre():
        os.setsid()
        import resource
        if mem_gb:
            lim = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    f = tempfile.TemporaryFile() if out_to is None else open(out_to, "wb+")
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    f.seek(0)
    o = f.read().decode("utf-8", "replace")
    f.close()
    return rc, o, time.time() - t


class Ctx:
    pass


def prepare(repo, work):
    """configuration headers exactly as the build generates them (out of tree)"""
    c = Ctx()
    c.repo, c.work = repo, work
    cfg = os.path.join(work, "cfg")
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    rc, o, s = run(["cmake", "-S", repo, "-B", cfg, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                    "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"], 120, env=env)
    if not os.path.exists(os.path.join(cfg, "src/libzt/zt_config.h")):
        alt = os.path.join(repo, "_build")
        if os.path.exists(os.path.join(alt, "src/libzt/zt_config.h")):
            cfg = alt
        else:
            print("ERROR: no configuration headers:\n" + o[-2000:])
            sys.exit(3)
    c.inc = ["-I" + repo + "/src", "-I" + cfg + "/src", "-I" + repo + "/compat", "-I" + repo + "/src/libzt", "-I" + H]
    c.lib = None
    c.bcs = {}
    c.lock = __import__("threading").Lock()
    return c


def native_lib(c):
    """the real library sources, compiled with sanitizers, as an archive"""
    with c.lock:
        if c.lib is not None:
            return c.lib
        d = os.path.join(c.work, "nlib")
        os.makedirs(d, exist_ok=True)
        srcs = []
        for dp, dn, fn in os.walk(os.path.join(c.repo, "src/libzt")):
            if os.path.basename(dp) == "replace" or "win" in os.path.basename(dp):
                continue
            srcs += [os.path.join(dp, f) for f in fn if f.endswith(".c") and "win32" not in f]

        def one(s):
            o = os.path.join(d, os.path.relpath(s, c.repo).replace("/", "_") + ".o")
            rc, out, _ = run(["clang", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link," + SAN,
                              "-fno-sanitize-recover=all", "-DNDEBUG", *DEFS, *c.inc, "-c", s, "-o", o], 120)
            if rc != 0:
                log("native lib: cannot compile", s, out[:500])
                return None
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = [o for o in ex.map(one, srcs) if o]
        lib = os.path.join(d, "libzt_san.a")
        run(["ar", "rcs", lib] + objs, 60)
        c.lib = lib
        return lib


def uvars(u, tier):
    return u.get(tier + "_variants", u.get("variants"))


def udefs(u, tier):
    return ["-D" + x for x in u.get("defs", [])] + ["-D" + x for x in u.get(tier + "_defs", [])]


def native_bin(c, u, tier):
    key = "nbin_" + u["name"]
    out = os.path.join(c.work, key)
    if os.path.exists(out):
        return out
    entry = u.get("twin", u["entry"])
    cmd = ["clang", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=fuzzer," + SAN, "-fno-sanitize-recover=all",
           "-DVP_NATIVE", "-DVP_ENTRY_FN=" + entry] + ([] if u.get("asserts") else ["-DNDEBUG"]) + [*DEFS, *c.inc, *udefs(u, tier),
           os.path.join(H, u["src"]), os.path.join(H, "native_main.c"), native_lib(c), "-lm", "-lpthread", "-o", out]
    rc, o, _ = run(cmd, 180)
    if rc != 0:
        log("native build failed for", u["name"], o[:1500])
        return None
    return out


FENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:symbolize=0",
            UBSAN_OPTIONS="print_stacktrace=0")


def native_one(c, u, tier, data, tag):
    """run one input on the real code: (failed?, output, path of input)"""
    b = native_bin(c, u, tier)
    if not b:
        return None, "native harness did not build", None
    p = os.path.join(c.work, "in_%s_%s" % (u["name"], tag))
    open(p, "wb").write(data)
    d = tempfile.mkdtemp(dir=c.work)
    rc, o, _ = run([b, "-timeout=20", p], 60, cwd=d, env=FENV)
    return (rc != 0), o, p


def native_search(c, u, tier, secs, runs, seed):
    """coverage-guided search for an input on which a VP_CHECK fails on the real code"""
    b = native_bin(c, u, tier)
    if not b:
        return {"status": "unbuilt", "execs": 0}
    d = tempfile.mkdtemp(dir=c.work)
    corp = os.path.join(d, "corpus")
    os.makedirs(corp)
    ml = u.get("max_len", 256)
    import random
    rnd = random.Random(seed * 7919 + len(u["name"]))
    for i, ln in enumerate([ml, ml, ml // 2, ml // 4, 16, ml]):
        bs = bytes(rnd.randrange(256) for _ in range(ln))
        if i == 1:
            bs = bytes(rnd.choice([0, 1, 2, 3, 255, 254, 128, 127]) for _ in range(ln))
        if i == 5:
            bs = bytes(rnd.randrange(16) for _ in range(ln))
        open(os.path.join(corp, "s%d" % i), "wb").write(bs)
    cmd = [b, corp, "-seed=%d" % (seed or 1), "-runs=%d" % runs, "-max_total_time=%d" % secs, "-max_len=%d" % ml, "-len_control=0",
           "-timeout=20", "-rss_limit_mb=4000", "-print_final_stats=1", "-artifact_prefix=" + d + "/crash_", "-use_value_profile=%d" % u.get("vprof", 0)]
    rc, o, s = run(cmd, secs + 90, cwd=d, env=FENV)
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", o)
    ex = int(m.group(1)) if m else 0
    if not ex:
        mm = re.findall(r"^#(\d+)\s", o, re.M)
        ex = int(mm[-1]) if mm else 0
    arts = [f for f in os.listdir(d) if f.startswith("crash_")]
    mc = re.findall(r"cov: (\d+)", o)
    res = {"status": "ok", "execs": ex, "secs": round(s, 2), "cov": int(mc[-1]) if mc else 0, "inputs": len(os.listdir(corp))}
    if rc != 0 and arts:
        data = open(os.path.join(d, arts[0]), "rb").read()
        bad, o2, p = native_one(c, u, tier, data, "search")   # must reproduce
        if bad:
            res.update(status="violation", data=data, out=o2)
        else:
            log("search artifact of", u["name"], "did not reproduce:", o[-800:])
    elif rc not in (0, None):
        log("search of", u["name"], "ended rc", rc, o[-800:])
        if rc is not None and "VP_CHECK_FAILED" in o:
            res.update(status="violation", data=b"", out=o)
    return res


def build_goto(c, u, tier, vi=0):
    g = os.path.join(c.work, "%s.%d.gb" % (u["name"], vi))
    srcs = [os.path.join(H, u["src"]), os.path.join(H, "cbmc_stubs.c")] + [os.path.join(c.repo, "src/libzt", s) for s in u.get("repo_srcs", [])] \
        + [os.path.join(H, s) for s in u.get("stubs", [])]
    defs = ["-DVP_CBMC"] + ([] if u.get("asserts") else ["-DNDEBUG"])
    if u.get("hooks"):
        defs.append("-DZT_VERIFY")
    var = uvars(u, tier)[vi] if uvars(u, tier) else []
    defs += ["-D" + x for x in var]
    rc, o, _ = run(["goto-cc", *DEFS, *defs, *udefs(u, tier), *c.inc, "--function", u["entry"], *srcs, "-o", g], 120)
    if rc != 0:
        return None, o
    if u.get("enforce") or u.get("replace") or u.get("loops"):
        g2 = g + "2"
        cmd = ["goto-instrument", "--dfcc", u["entry"]]
        for f in u.get("enforce", []):
            cmd += ["--enforce-contract", f]
        for f in u.get("replace", []):
            cmd += ["--replace-call-with-contract", f]
        if u.get("loops"):
            cmd += ["--apply-loop-contracts"]
        rc, o, _ = run(cmd + [g, g2], 120)
        if rc != 0 or not os.path.exists(g2):
            return None, o
        g = g2
    g3 = g + ".d"
    rc, o, _ = run(["goto-instrument", "--drop-unused-functions", g, g3], 120)
    return (g3 if rc == 0 and os.path.exists(g3) else g), o


def cbmc_cmd(u, tier, g):
    cmd = ["cbmc", g, "--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--no-malloc-may-fail",
           "--unwinding-assertions", "--object-bits", str(u.get("object_bits", 10)), "--unwind", str(u.get(tier + "_unwind", u.get("unwind", 2))), "--json-ui"]
    us = u.get(tier + "_unwindset", u.get("unwindset"))
    if us:
        cmd += ["--unwindset", ",".join(us)]
    if u.get("solver"):
        cmd += {"cvc5": ["--cvc5"], "cadical": ["--sat-solver", "cadical"], "kissat": []}.get(u["solver"], [])
    cmd += u.get("cbmc", [])
    return cmd


def parse_json(o):
    try:
        j = json.loads(o)
    except Exception:
        i = o.rfind("\n]")
        try:
            j = json.loads(o[:i + 2])
        except Exception:
            return None
    return j


def inputs_from_trace(tr):
    """the nondeterministic inputs, in order, as the byte string the native harness reads"""
    out = bytearray()
    span = 0
    for st in tr:
        if st.get("stepType") != "assignment":
            continue
        m = re.fullmatch(r"vp_iv_([1248sr])", st.get("lhs", ""))
        if not m or st.get("hidden"):
            continue
        v = st.get("value", {})
        b = v.get("binary")
        if b is None:
            continue
        loc = st.get("sourceLocation", {})
        # skip the declaration step: it carries the line of the declaration (same line for one-liners,
        # so rely on the pairing below instead)
        out.append(0) if False else None
        yield m.group(1), int(b, 2), st.get("assignmentType"), loc.get("line")


def decode_inputs(tr):
    """each vp_uN contributes two assignments (declaration, then input): keep the second"""
    seq = list(inputs_from_trace(tr))
    out = bytearray()
    pend = {}
    span = None
    i = 0
    for k, v, at, line in seq:
        pend[k] = pend.get(k, 0) + 1
        if pend[k] % 2 == 1:
            continue
        if k == "s":
            span = v
        elif k == "r":
            n = 1 if span <= 0xff else 2 if span <= 0xffff else 4 if span <= 0xffffffff else 8
            out += v.to_bytes(8, "little")[:n]
        else:
            n = int(k)
            out += v.to_bytes(n, "little")
    return bytes(out)


SEM = __import__("threading").Semaphore(NCPU)


def verify(c, u, tier, limit):
    """discharge every obligation of one unit (all its variants)"""
    n = len(uvars(u, tier) or [0])
    r = {"unit": u["name"], "kind": u["kind"], "obligations": 0, "discharged": 0, "status": "ok", "failed": [], "note": "", "secs": 0, "solver_s": 0, "runs": n}

    def one(i):
        with SEM:
            return verify_one(c, u, tier, limit, i)
    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    for q in rs:
        for k in ("obligations", "discharged", "secs", "solver_s"):
            r[k] += q.get(k) or 0
        r["failed"] += q["failed"]
        if q["note"] and q["note"] not in r["note"]:
            r["note"] += q["note"] + " "
        r["cmd"] = q.get("cmd", r.get("cmd", ""))
        for k in ("cuts", "functions", "contracts_used"):
            r[k] = sorted(set(r.get(k, [])) | set(q.get(k, [])))
        for k in ("paths", "queries"):
            r[k] = r.get(k, 0) + q.get(k, 0)
    st = [q["status"] for q in rs]
    r["status"] = "failed" if "failed" in st else "ok" if all(x == "ok" for x in st) else "undecided"
    r["secs"], r["solver_s"] = round(r["secs"], 2), round(r["solver_s"], 2)
    return r


ZT = os.path.join(ROOT, "ztv")
LLVM = "/usr/lib/llvm-18/bin/"


def bc_of(c, src, flags, key):
    """the LLVM IR clang emits for one real source file (unoptimised), compiled once per run"""
    with c.lock:
        ent = c.bcs.get(key)
        if ent is None:
            ent = c.bcs[key] = [__import__("threading").Lock(), None]
    with ent[0]:
        if ent[1] is None:
            out = os.path.join(c.work, "bc%d.bc" % len(os.listdir(c.work)) + hashlib.md5(key.encode()).hexdigest()[:8])
            rc, o, _ = run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-emit-llvm", "-c", "-w", "-fno-builtin", "-DVP_ZTV",
                            *flags, *DEFS, *c.inc, src, "-o", out], 120)
            ent[1] = (out if rc == 0 and os.path.exists(out) else None, o)
        return ent[1]


def build_ztv(c, u, tier, vi):
    fl = [] if u.get("asserts") else ["-DNDEBUG"]
    if u.get("hooks"):
        fl.append("-DZT_VERIFY")
    var = ["-D" + x for x in (uvars(u, tier)[vi] if uvars(u, tier) else [])]
    files = []
    for src, f in [(os.path.join(H, u["src"]), fl + udefs(u, tier) + var)] + [(os.path.join(H, x), fl) for x in u.get("stubs", [])] + \
            [(os.path.join(ZT, "libc.c"), [])] + [(os.path.join(c.repo, "src/libzt", x), fl) for x in u.get("repo_srcs", [])]:
        b, o = bc_of(c, src, f, src + " " + " ".join(f))
        if not b:
            return None, o
        files.append(b)
    g = os.path.join(c.work, "%s.%d.ll.bc" % (u["name"], vi))
    rc, o, _ = run([LLVM + "llvm-link", *files, "-o", g], 60)
    if rc != 0:
        return None, o
    rc, o, _ = run(["opt-18", "-passes=" + u.get("passes", "sroa,simplifycfg"), g, "-o", g + "2"], 60)
    if rc != 0:
        return None, o
    return g + "2", ""


def ztv_one(c, u, tier, limit, vi):
    r = {"obligations": 0, "discharged": 0, "status": "undecided", "failed": [], "note": ""}
    t0 = time.time()
    g, o = build_ztv(c, u, tier, vi)
    if not g:
        r["note"] = "front end could not take the current source: " + o[-600:]
        r["secs"] = round(time.time() - t0, 2)
        return r
    cmd = ["/opt/veriftools/pyvenv/bin/python3", os.path.join(ZT, "ztv.py"), g, u["entry"], "--unroll", str(u.get(tier + "_unroll", u.get("unroll", 70))),
           "--deadline", str(limit), "--qtimeout", str(u.get("qtimeout", 60))]
    for x in u.get("cut", []):
        cmd += ["--cut", x]
    for x in u.get("noreplace", []):
        cmd += ["--noreplace", x]
    r["cmd"] = "clang -O0 -emit-llvm | llvm-link | opt sroa,simplifycfg | ztv.py " + u["entry"]
    rc, o, s = run(cmd, limit + 60, mem_gb=u.get("mem", 12))
    r["secs"] = round(time.time() - t0, 2)
    try:
        j = json.loads(o.strip().splitlines()[-1])
    except Exception:
        r["note"] = "verifier gave no result (rc %s) %s" % (rc, o[-400:])
        return r
    r.update(status=j["status"], note=j["note"], obligations=j["obligations"], discharged=j["discharged"], solver_s=j["solver_s"], named=j["named"],
             cuts=j["cuts"], functions=j["functions"], contracts_used=j["contracts_used"], paths=j["paths"], queries=j["queries"])
    r["failed"] = [(v["name"], v["kind"], vi, v.get("inputs"), v.get("stack"), v.get("model")) for v in j["failed"]]
    return r


def verify_one(c, u, tier, limit, vi):
    if u.get("be", "ztv") == "ztv":
        return ztv_one(c, u, tier, limit, vi)
    r = {"obligations": 0, "discharged": 0, "status": "undecided", "failed": [], "note": ""}
    t0 = time.time()
    g, o = build_goto(c, u, tier, vi)
    if not g:
        r["note"] = "front end could not take the current source: " + o[-600:]
        r["secs"] = round(time.time() - t0, 2)
        return r
    cmd = cbmc_cmd(u, tier, g)
    r["cmd"] = " ".join(os.path.basename(x) if x.startswith("/") else x for x in cmd)
    outf = os.path.join(c.work, "%s.%d.json" % (u["name"], vi))
    rc, o, s = run(cmd, limit, mem_gb=u.get("mem", 12), out_to=outf)
    r["secs"] = round(time.time() - t0, 2)
    if rc is None:
        r["note"] = "solver time limit %ds" % limit
        return r
    j = parse_json(o)
    res = None
    if j:
        for e in j:
            if "result" in e:
                res = e["result"]
            if "messageText" in e:
                m = re.search(r"Runtime decision procedure: ([0-9.]+)s", e["messageText"])
                if m:
                    r["solver_s"] = r.get("solver_s", 0) + float(m.group(1))
                if e.get("messageType") == "ERROR":
                    r["note"] += e["messageText"][:300] + " "
    if res is None:
        r["note"] += "verifier gave no result (rc %s) %s" % (rc, o[-300:])
        return r
    reach = [p for p in res if p["description"] == "VP_REACH"]
    rest = [p for p in res if p["description"] != "VP_REACH"]
    unw = [p for p in rest if p["status"] != "SUCCESS" and ("unwind" in p["property"] or "recursion" in p["property"])]
    bad = [p for p in rest if p["status"] == "FAILURE" and p not in unw]
    if u.get("drop"):   # obligations known to be verifier artefacts are listed per unit with the reason
        dd = [p for p in bad if any(re.search(x, p["property"] + " " + p["description"]) for x in u["drop"])]
        bad = [p for p in bad if p not in dd]
        rest = [p for p in rest if p not in dd]
    r["obligations"] = len(rest)
    r["discharged"] = sum(p["status"] == "SUCCESS" for p in rest)
    if bad:
        r["status"] = "failed"
        r["failed"] = [(p["property"], p["description"], vi) for p in bad]
        return r
    if unw:
        r["note"] = "a loop runs past the stated unwinding: " + ", ".join(p["property"] for p in unw[:4])
        return r
    if not reach or any(p["status"] != "FAILURE" for p in reach):
        r["note"] = "vacuous: VP_REACH not reachable"
        r["status"] = "vacuous"
        return r
    if not rest:
        r["status"] = "vacuous"
        r["note"] = "no obligations generated"
        return r
    r["status"] = "ok"
    return r


def confirm(c, u, tier, r, limit, seed):
    """turn a failed obligation into a failing input of the real code, if there is one"""
    tried = []
    if u.get("confirm_by"):
        # the unit starts from an arbitrary state of the representation: only the public interface can show that state is reachable
        import units as U
        v = next(x for x in U.UNITS if x["prop"] == u["prop"] and x["name"] == u["confirm_by"])
        s = native_search(c, v, tier, u.get("confirm_s", 40), 10**9, seed)
        if s.get("status") == "violation":
            return {"how": "obligation failed for an arbitrary valid state; a failing history through the public interface was found by search (unit %s)" % v["name"],
                    "prop": r["failed"][0][0], "desc": r["failed"][0][1], "data": s["data"], "out": s["out"], "unit": v}
        out = ""
        for f in r["failed"][:3]:
            if f[3]:
                bad, out, path = native_one(c, u, tier, bytes.fromhex(f[3]), "cex%d" % len(tried))
                tried.append((f[0], f[1], bytes.fromhex(f[3]), bad, out))
        return {"how": None, "prop": r["failed"][0][0], "desc": r["failed"][0][1], "data": tried[0][2] if tried else None,
                "out": "obligation not valid from an arbitrary state satisfying the invariant; no history through the public interface was found that shows it\n" + out}
    if u.get("be", "ztv") == "ztv":
        for f in r["failed"][:6]:
            if not f[3]:
                continue
            data = bytes.fromhex(f[3])
            bad, out, path = native_one(c, u, tier, data, "cex%d" % len(tried))
            tried.append((f[0], f[1], data, bad, out))
            if bad:
                return {"how": "verifier counterexample replayed on the real code", "prop": f[0], "desc": f[1], "data": data, "out": out}
    elif not u.get("no_trace"):
        order = sorted(r["failed"], key=lambda p: 0 if "assertion" in p[0] or "postcondition" in p[0] else 1)
        for prop, desc, vi in [x[:3] for x in order[:3]]:
            g, _ = build_goto(c, u, tier, vi)
            cmd = cbmc_cmd(u, tier, g) + ["--trace", "--property", prop]
            rc, o, s = run(cmd, limit, mem_gb=12)
            j = parse_json(o) if rc is not None else None
            if not j:
                continue
            for e in j:
                for p in e.get("result", []):
                    if p.get("trace") and p["status"] == "FAILURE" and p["description"] != "VP_REACH":
                        data = decode_inputs(p["trace"])
                        bad, out, path = native_one(c, u, tier, data, "cex%d" % len(tried))
                        tried.append((prop, desc, data, bad, out))
                        if bad:
                            return {"how": "verifier counterexample replayed on the real code", "prop": prop, "desc": desc, "data": data, "out": out}
    s = native_search(c, u, tier, u.get("confirm_s", 25), 10**9, seed)
    if s.get("status") == "violation":
        return {"how": "failing input found by search on the real code after the obligation failed", "prop": r["failed"][0][0], "desc": r["failed"][0][1],
                "data": s["data"], "out": s["out"]}
    return {"how": None, "prop": r["failed"][0][0], "desc": r["failed"][0][1], "data": tried[0][2] if tried else None, "out": "verifier: obligation not valid; model of the violating state: %s\ncall stack: %s\n%s" % (
        (r["failed"][0][5] if len(r["failed"][0]) > 5 else ""), (r["failed"][0][4] if len(r["failed"][0]) > 4 else ""), tried[0][4] if tried else "")}


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit", action="append")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--no-verify", action="store_true")
    ap.add_argument("-v", action="store_true")
    if "--selftest" in sys.argv:
        for t in ("clang", "opt-18", "cmake", "python3-vt", "cvc5"):
            if not shutil.which(t):
                print("missing tool:", t)
                sys.exit(1)
        print("ok")
        sys.exit(0)
    a = ap.parse_args()
    VERBOSE = a.v
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import units as U
    units = [u for u in U.UNITS if u["prop"] == a.prop and (not a.unit or u["name"] in a.unit) and (tier == "thorough" or not u.get("thorough_only"))]
    if not units:
        print("ERROR: no units for", a.prop)
        sys.exit(3)
    bdir = os.path.join(ROOT, "build")
    os.makedirs(bdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + "_", dir=bdir)
    rc = 3
    try:
        rc = check(a, units, tier, seed, t0, work, U)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, units, tier, seed, t0, work, U):
    c = prepare(a.repo, work)
    limit_total = 800 if tier == "quick" else 3300
    qlimit = 300 if tier == "quick" else 1500
    results, searches, finals = {}, {}, []

    def do_verify(u):
        if u.get("search_only") or a.no_verify:
            return None
        r = verify(c, u, tier, min(u.get("limit", qlimit), qlimit))
        log("verify", u["name"], r["status"], r["discharged"], "/", r["obligations"], r["secs"], "s", r["note"], r["failed"][:3])
        return r

    def do_search(u):
        f = u.get("search")
        if not f or a.no_search:
            return None
        secs = f if tier == "quick" else max(60, f * 12)
        with SEM:
            s = native_search(c, u, tier, secs, 10**9, seed)
        log("search", u["name"], {k: v for k, v in s.items() if k not in ("data",)} if s["status"] != "ok" else s)
        return s
    with cf.ThreadPoolExecutor(2 * len(units)) as ex:
        fv = {u["name"]: ex.submit(do_verify, u) for u in sorted(units, key=lambda u: -u.get("cost", 1))}
        fs = {u["name"]: ex.submit(do_search, u) for u in units}
        results = {n: f.result() for n, f in fv.items()}
        searches = {n: f.result() for n, f in fs.items()}
    viol = []
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)

    def write_replay(u, how, prop, desc, data, out, ru=None):
        ru = ru or u
        p = os.path.join(rdir, "%s-%s.txt" % (a.prop, u["name"]))
        with open(p, "w") as f:
            f.write("property: %s\nunit: %s (%s, entry %s)\nobligation: %s\n  %s\nhow: %s\n" % (
                a.prop, u["name"], u["src"], u["entry"], prop, desc, how or "no failing input found; the obligation is not discharged"))
            if data is not None:
                f.write("input (hex): %s\n" % data.hex())
                f.write("replay: python3 %s/vp/replay.py %s %s %s\n" % (ROOT, a.prop, ru["name"], p))
            f.write("---- output ----\n%s\n" % (out or "")[-6000:])
        return os.path.relpath(p, ROOT)
    for u in units:
        s = searches[u["name"]]
        r = results[u["name"]]
        if s and s.get("status") == "violation":
            m = re.search(r"VP_CHECK_FAILED \[[^\]]*\] (.*)", s["out"])
            p = write_replay(u, "contract violated on the real code", "runtime contract", m.group(1) if m else "memory or termination contract", s["data"], s["out"])
            viol.append((p, ""))
            finals.append((u, r, s, "violated"))
            continue
        if r and r["status"] == "failed":
            k = confirm(c, u, tier, r, 120, seed)
            p = write_replay(u, k["how"], k["prop"], k["desc"] + "\nall failed obligations: " + "; ".join("%s: %s" % (x[0], x[1]) for x in r["failed"][:12]), k["data"], k["out"], k.get("unit"))
            viol.append((p, "" if k["how"] else " no-failing-input-found"))
            finals.append((u, r, s, "violated"))
            continue
        finals.append((u, r, s, "held" if r and r["status"] == "ok" else "undecided"))
    # an undecided unit (front end, time limit, unwinding) is never an alarm: the search on the real code stands in for it
    for i, (u, r, s, v) in enumerate(finals):
        if v == "undecided" and r is not None and s is None and not a.no_search:
            s = native_search(c, u, tier, 20, 10**9, seed)
            if s.get("status") == "violation":
                p = write_replay(u, "contract violated on the real code", "runtime contract", r["note"], s["data"], s["out"])
                viol.append((p, ""))
                finals[i] = (u, r, s, "violated")
            else:
                finals[i] = (u, r, s, v)
    write_evidence(a, tier, seed, t0, finals, U, len(viol))
    for l in known_lines(a.prop):
        print(l)
    for u, r, s, v in finals:
        print("%-28s %-8s %-9s obligations %s/%s%s%s" % (u["name"], u["kind"], v, r["discharged"] if r else "-", r["obligations"] if r else "-",
              (" %.1fs" % r["secs"] if r else "") + (" search execs %d" % s["execs"] if s else ""), "  [" + r["note"][:200] + "]" if r and r["note"] else ""))
    # real failing inputs first
    viol.sort(key=lambda x: x[1] != "")
    seen = False
    for p, sfx in viol:
        if sfx and seen:
            continue          # one confirmed violation is reported alone
        print("VIOLATION property=%s replay=%s%s" % (a.prop, p, sfx))
        seen = True
        if not sfx:
            pass
    if viol:
        return 1
    print("OK property=%s wall=%.1fs" % (a.prop, time.time() - t0))
    return 0


def known_lines(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append("KNOWN-FINDING: " + l[len("finding: "):].rstrip())
    return out


def write_evidence(a, tier, seed, t0, finals, U, nviol):
    P = U.PROPS[a.prop]
    proof = [(u, r, s, v) for u, r, s, v in finals if u["kind"] == "proof" and r]
    bnd = [(u, r, s, v) for u, r, s, v in finals if u["kind"] != "proof"]
    fns = sorted({f for u, r, s, v in proof if v == "held" for f in u.get("fns", [])})
    bfns = sorted({f for u, r, s, v in finals if (u["kind"] != "proof" or v != "held") for f in u.get("fns", [])} - set(fns))
    cov = {
        "obligations": sum(r["obligations"] for u, r, s, v in proof),
        "discharged": sum(r["discharged"] for u, r, s, v in proof),
        "checker_cmd": (next((r.get("cmd", "") for u, r, s, v in finals if r), "")),
        "trusted_base": U.TRUSTED + P.get("trusted", []),
        "functions_proved": fns,
        "functions_bounded_only": bfns,
        "solver_seconds": round(sum((r or {}).get("solver_s", 0) for u, r, s, v in finals), 2),
        "bounded_obligations": sum(r["obligations"] for u, r, s, v in bnd if r),
        "bounded_discharged": sum(r["discharged"] for u, r, s, v in bnd if r),
        "runtime_contract_executions": sum(s["execs"] for u, r, s, v in finals if s),
        "evaluations": sum(s["execs"] for u, r, s, v in finals if s),
        "units": [{"unit": u["name"], "kind": u["kind"], "bound": u.get(tier + "_bound", u.get("bound", "")), "claim": u.get("claim", ""), "verdict": v, "functions": u.get("fns", []),
                   "back_end": ("ztv/z3 5.3" if u.get("be", "ztv") == "ztv" else "cbmc/" + u.get("solver", "minisat")) if r else "runtime contract checking",
                   "obligations": r["obligations"] if r else 0, "discharged": r["discharged"] if r else 0, "seconds": r.get("secs") if r else 0,
                   "note": r["note"] if r else "", "loops_by_induction": r.get("cuts", []) if r else [], "contracts_used_at_calls": r.get("contracts_used", []) if r else [],
                   "functions_executed": r.get("functions", []) if r else [], "search": {k: v2 for k, v2 in s.items() if k not in ("data", "out")} if s else None} for u, r, s, v in finals],
        "explanation": P.get("explanation", ""),
    }
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": U.ASSUMPTIONS + P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
