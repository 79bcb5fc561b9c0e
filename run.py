#!/usr/bin/env python3
"""run.py <property> - builds and runs the exhaustive exploration(s) that decide one property.

Exit 0: the property held on everything explored. Exit 1 + VIOLATION line: it does not.
Exit 2: the check itself could not run.
"""
import concurrent.futures as cf, glob, json, os, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
import checks as registry

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = int(os.environ.get("MC_JOBS", str(os.cpu_count() or 8)))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]

class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def lib_compiles(d, cc, cxx, flags, job):
    """compile commands for the library (and, for variants, the harness part built with it)"""
    comp, objs = [], []
    for s in sorted(glob.glob(os.path.join(job.get("src") or os.path.join(REPO, "src"), "mpack/*.c"))) + [os.path.join(HARN, x) for x in job.get("vm", [])]:
        o = os.path.join(d, os.path.basename(s) + ".o"); objs.append(o)
        lang = ["-x", "c++", "-std=" + job.get("cxxstd", "gnu++17")] if cxx else ["-std=" + job.get("cstd", "gnu11")]
        comp.append([cc] + lang + flags + ["-c", s, "-o", o])
    return comp, objs

def amalgamate(d):
    """runs the repository's own amalgamation script on a scratch copy; returns the directory of the result"""
    am = os.path.join(d, "amalg"); os.makedirs(am)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(am, "src")); shutil.copytree(os.path.join(REPO, "tools"), os.path.join(am, "tools"))
    os.makedirs(os.path.join(am, "test"))
    for f in ["LICENSE", "AUTHORS.md", "README.md", "CHANGELOG.md"]:
        if os.path.exists(os.path.join(REPO, f)): shutil.copy(os.path.join(REPO, f), am)
    r = subprocess.run(["bash", "tools/amalgamate.sh"], cwd=am, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    src = os.path.join(am, ".build/amalgamation/src")
    if r.returncode != 0 or not os.path.exists(src + "/mpack/mpack.c"): raise BuildError("tools/amalgamate.sh failed: " + r.stdout[-2000:])
    return src

def plan_variants(job, bdir):
    """several builds of the library in one program: every build becomes one relocatable object in which only the
    entry points of its copy of the interpreter stay visible. Builds with m32 go into a server program."""
    d = os.path.join(bdir, job["name"]); os.makedirs(d, exist_ok=True)
    comp, link, names = [], [], {False: [], True: []}
    inc = ["-g1", "-w", "-DMPACK_HAS_CONFIG=1", "-I" + HARN, "-I" + os.path.join(REPO, "src")]
    blobs = {False: [], True: []}
    am = amalgamate(d) if any(v.get("amalgamated") for v in job["variants"]) else None
    for v in job["variants"]:
        m32 = v.get("m32", False); k = len(names[m32]); names[m32].append(v["name"])
        vd = os.path.join(d, ("s%d" if m32 else "v%d") % k); os.makedirs(vd, exist_ok=True)
        syms = ["c24_run", "c24_caps", "c24_leaf_need", "c24_read_need", "c24_node_need"]
        flags = (["-I" + am] if v.get("amalgamated") else []) + inc + [v.get("opt", "-O1")] + v.get("defs", []) + v.get("cflags", []) + (["-m32", "-march=pentium4", "-mfpmath=sse"] if m32 else []) + \
            ["-D%s=%s_%d" % (x, x, k) for x in syms]
        c, objs = lib_compiles(vd, v.get("cc", "gcc"), v.get("cxx", False), flags, dict(vm=["c24_vm.c"], src=am if v.get("amalgamated") else None, cxxstd=v.get("cxxstd", "gnu++17"), cstd=v.get("cstd", "gnu11")))
        comp += c
        blob = os.path.join(vd, "all.o"); blobs[m32].append(blob)
        link.append(["ld", "-m", "elf_i386" if m32 else "elf_x86_64", "-r", "--force-group-allocation", "-o", blob] + objs)
        link.append(["objcopy"] + ["--keep-global-symbol=%s_%d" % (x, k) for x in syms] + [blob])
    def xmac(n): return "-DVF_VARIANTS(X)=" + " ".join("X(%d)" % i for i in range(n))
    exe = os.path.join(d, "h")
    hd = inc + job.get("hdefs", []) + [xmac(len(names[False]))] + ['-DVF_NAME_%d="%s"' % (i, n) for i, n in enumerate(names[False])]
    if names[True]: hd += ["-DVF_SERVER=1", xmac(len(names[True])).replace("VF_VARIANTS", "VF_SVARIANTS")] + ['-DVF_NAME_S%d="%s"' % (i, n) for i, n in enumerate(names[True])]
    objs = []
    for s in [job["src"], "mc.c", "env.c"]:
        o = os.path.join(d, s + ".o"); objs.append(o); comp.append(["gcc", "-std=gnu11", "-O2"] + hd + ["-c", os.path.join(HARN, s), "-o", o])
    link.append(["gcc", "-no-pie"] + objs + blobs[False] + ["-o", exe, "-Wl,--wrap=fopen", "-lstdc++", "-lm"])
    if names[True]:
        so = []
        for s in ["c24_server.c", "env.c"]:
            o = os.path.join(d, "s_" + s + ".o"); so.append(o); comp.append(["gcc", "-std=gnu11", "-O2", "-m32"] + inc + [xmac(len(names[True])), "-c", os.path.join(HARN, s), "-o", o])
        link.append(["gcc", "-m32", "-no-pie"] + so + blobs[True] + ["-o", os.path.join(d, "server"), "-Wl,--wrap=fopen", "-lm"])
    return comp, link, exe

def plan_build(job, bdir):
    """returns (list of compile commands, list of link commands, exe)"""
    if "variants" in job: return plan_variants(job, bdir)
    d = os.path.join(bdir, job["name"]); os.makedirs(d, exist_ok=True)
    cc = job.get("cc", "clang")
    cxx = job.get("cxx", False)
    flags = ["-g", job.get("opt", "-O1"), "-w", "-DMPACK_HAS_CONFIG=1", "-I" + HARN, "-I" + os.path.join(REPO, "src")]
    san = job.get("san", True)
    if san: flags += SAN
    flags += job.get("cflags", [])
    libdefs = job.get("defs", [])
    comp, objs = [], []
    for s in sorted(glob.glob(os.path.join(REPO, "src/mpack/*.c"))):
        o = os.path.join(d, os.path.basename(s) + ".o"); objs.append(o)
        lang = ["-x", "c++", "-std=" + job.get("cxxstd", "c++11")] if cxx else ["-std=" + job.get("cstd", "gnu11")]
        comp.append([cc] + lang + flags + libdefs + job.get("libflags", []) + ["-c", s, "-o", o])
    hd = libdefs + job.get("hdefs", [])
    for s in [job["src"]] + job.get("extra", []) + ["mc.c", "env.c"]:
        o = os.path.join(d, s.replace("/", "_") + ".o"); objs.append(o)
        lang = ["-x", "c++", "-std=gnu++17"] if (cxx and s == job["src"]) else ["-std=gnu11"]
        comp.append([cc] + lang + flags + hd + ["-c", os.path.join(HARN, s), "-o", o])
    exe = os.path.join(d, "h")
    link = [cc] + flags + objs + ["-o", exe, "-Wl,--wrap=fopen"] + (["-lstdc++"] if cxx else []) + ["-lm"] + job.get("ldflags", [])
    return comp, [link], exe

def env_for(pid):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:use_sigaltstack=1:quarantine_size_mb=16:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99:halt_on_error=1"
    e["MC_KNOWN"] = ",".join(k for k, _ in known_for(pid))
    return e

def known_for(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.split(None, 2)[2]
                key = rest.split()[0].split("=", 1)[1] if rest.startswith("key=") else rest.split()[0]
                res.append((key, line))
    return res

def replay_once(exe, choices, env, timeout, quiet=True, tier=None):
    cmd = [exe, "--tier", tier or TIER, "--replay", ",".join(map(str, choices))] + (["--quiet"] if quiet else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        out = r.stdout.decode("utf-8", "replace") + r.stderr.decode("utf-8", "replace")
        return r.returncode, out
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %ss" % timeout

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in registry.CHECKS:
        print("usage: run.py <property id>  (one of %s)" % " ".join(sorted(registry.CHECKS))); return 2
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    chk = registry.CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, ".build", "%s.%d" % (pid, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    keep = os.environ.get("VERIF_KEEP")
    try:
        return run(pid, chk, bdir, only, t0)
    except BuildError as e:
        print("BUILD-ERROR: %s" % e); return 2
    finally:
        if not keep: shutil.rmtree(bdir, ignore_errors=True)

def run(pid, chk, bdir, only, t0):
    jobs = [j for j in chk["jobs"] if TIER in j.get("tiers", ("quick", "thorough")) and (only is None or j["name"] == only)]
    plans = {j["name"]: plan_build(j, bdir) for j in jobs}
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        list(ex.map(sh, [c for p in plans.values() for c in p[0]]))
        list(ex.map(lambda ls: [sh(c) for c in ls], [p[1] for p in plans.values()]))
    tb = time.time() - t0
    env = env_for(pid)
    tot = {"executions": 0, "steps": 0, "evals": 0, "nontrivial": 0, "choices": 0, "states": 0, "outcomes": 0}
    per, samples, saturated = [], [], False
    known_hits = {}
    violation = None
    for j in jobs:
        exe = plans[j["name"]][2]
        cmd = [exe, "--tier", j.get("tier", TIER), "--jobs", str(JOBS), "--hang", str(j.get("hang", 100))] + j.get("args", [])
        errlog = os.path.join(bdir, j["name"] + ".err")
        with open(errlog, "wb") as ef:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=ef, env=env)
        err = open(errlog, "rb").read().decode("utf-8", "replace")
        try:
            res = json.loads(r.stdout.decode().strip().splitlines()[-1])
        except Exception:
            print("HARNESS-ERROR: %s/%s exit %s\n%s\n%s" % (pid, j["name"], r.returncode, r.stdout.decode()[-2000:], err[-3000:]))
            return 2
        for k in tot: tot[k] += res[k]
        saturated |= bool(res["saturated"])
        for i, (key, line) in enumerate(known_for(pid)):
            if res["known_hits"][i]: known_hits[key] = line
        per.append({"job": j["name"], "defs": j.get("defs", []), "executions": res["executions"], "steps": res["steps"],
                    "evaluations": res["evals"], "states": res["states"], "outcomes": res["outcomes"],
                    "max_choices": res["max_choices"], "wall_s": res["wall"], "exhausted": res["exhausted"]})
        if "bad" in res:
            violation = confirm(pid, j, exe, cmd, res["bad"], err, env)
            if violation is None: return 2
            break
        # write a few executions out (they double as replays of the recorded choices)
        for ch in res["samples"][:: max(1, len(res["samples"]) // 2)][:2]:
            rc, out = replay_once(exe, ch, env, 120, quiet=False, tier=j.get("tier"))
            if rc != 0:
                # the same choices passed a moment ago: nondeterminism
                violation = {"kind": "replay of a passing execution failed", "choices": ch, "message": out[-2000:], "job": j["name"]}
                break
            samples.append({"job": j["name"], "trace": [l.strip() for l in out.splitlines()][:60]})
        if violation: break
    cov = coverage(chk, tot, per, samples, saturated)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for key, line in known_hits.items(): print(line)
    if violation:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s-%s.json" % (pid, violation["job"]))
        violation["property"] = pid; violation["tier"] = next((q.get("tier") for q in jobs if q["name"] == violation["job"]), None) or TIER
        violation["how"] = "python3 /verif/replay.py %s" % rp
        with open(rp, "w") as f: json.dump(violation, f, indent=1)
        print("property %s: %s" % (pid, violation["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: held on %d executions, %d steps, %d evaluations, %d states, %d outcomes; %.1fs (build %.1fs)" % (
        pid, TIER, tot["executions"], tot["steps"], tot["evals"], tot["states"], tot["outcomes"], time.time() - t0, tb))
    return 0

def confirm(pid, j, exe, cmd, bad, err, env):
    base = {"job": j["name"], "defs": j.get("defs", []), "src": j["src"], "choices": bad["choices"], "notes": bad["notes"],
            "kind": bad["kind"]}
    if bad["kind"] == "killed":
        print("HARNESS-ERROR: a worker was killed (out of memory?)"); return None
    if bad["kind"] == "diverge":
        base["message"] = "the library behaved nondeterministically: " + bad["message"]; return base
    hung = bad["kind"] == "hang"
    tmo = 150 if hung else 300
    outs = [replay_once(exe, bad["choices"], env, tmo, tier=j.get("tier")) for _ in range(1 if hung else 2)]
    if all(rc != 0 for rc, _ in outs):
        rc, out = outs[0]
        log = ""
        if rc != "hang":
            log = replay_once(exe, bad["choices"], env, tmo, quiet=False, tier=j.get("tier"))[1]
        base["message"] = (bad["message"] or out[-6000:] if bad["kind"] == "fail" else "[%s] %s" % (bad["kind"], out[-6000:]))
        base["trace"] = log.splitlines()[-400:]
        base["replay_exit"] = rc
        return base
    # Not reproducible on its own: it may depend on state the library keeps between uses. Run all of it again.
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    try: res = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception: res = {}
    if "bad" in res and res["bad"]["kind"] != "killed":
        base["message"] = "only within a longer history (state kept between uses): " + (bad["message"] or err[-3000:] or bad["kind"])
        base["rerun"] = cmd
        return base
    print("HARNESS-ERROR: %s/%s reported '%s' once and not again\n%s" % (pid, j["name"], bad, err[-2000:]))
    return None

def coverage(chk, tot, per, samples, saturated):
    bounds = chk["bounds"][TIER] if isinstance(chk["bounds"], dict) else chk["bounds"]
    exhaustive = all(p["exhausted"] for p in per)
    if chk["level"] == "exploration":
        return {"evaluations": tot["evals"], "distinct_nontrivial": tot["nontrivial"], "rule": chk["rule"], "samples": samples or ["none"],
                "executions": tot["executions"], "distinct_outcomes": tot["outcomes"], "exhaustive": exhaustive, "bounds": bounds, "jobs": per}
    c = {"states": tot["states"], "transitions": tot["steps"], "traces_validated_against_impl": tot["executions"], "samples": samples or ["none"],
         "distinct_outcomes": tot["outcomes"], "choices_made": tot["choices"], "exhaustive": exhaustive, "bounds": bounds, "jobs": per,
         "state_set_saturated": saturated}
    if tot["evals"]: c["evaluations"] = tot["evals"]
    return c

def _term(*_): raise SystemExit(3)

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, _term)
    sys.exit(main())
