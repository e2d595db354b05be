#!/usr/bin/env python3
"""Decides one property: check.py <PID> [quick|thorough]

1. builds the property's harness from /repo's working tree;
2. model-checks the design specification(s) with TLC;
3. runs the harness against the real code: scenarios come from the specification (TLC simulation) and/or from the
   harness' seeded generator; everything the code does is recorded as a trace of events;
4. validates every trace against the trace specification with TLC (POSTCONDITION Accepted).
Exit 0: accepted.  Exit 1 and a VIOLATION line: an event of the real code is no behaviour of the specification.
Anything else: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from config import CHECKS
import build

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(V, "_build")
SPEC = os.path.join(V, "spec")

class CheckError(Exception):
    pass

def java_overrides():
    out = os.path.join(BUILD, "java")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(SPEC, "BigReal.java")
    cls = os.path.join(out, "BigReal.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        r = subprocess.run(["javac", "-cp", JAR, "-d", out, src], capture_output=True, text=True)
        if r.returncode: raise CheckError("javac: " + r.stderr)
    return out

def tlc(module, cfg, work, env=None, extra=(), timeout=800, heap="3g", workers="1"):
    """Run TLC on a private copy of the spec directory; returns (rc, output)."""
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp",
           JAR + ":" + os.path.join(BUILD, "java"), "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(work, "states"), "-workers", workers,
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = 124, "timeout\n" + (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or ""))
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    with open(os.path.join(work, "tlc.out"), "w") as f:
        f.write(" ".join(cmd) + "\n" + out)
    return rc, out, time.time() - t0

def states(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", out)
    if not m: return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def read_lines(path):
    with open(path, errors="replace") as f:
        return f.read().splitlines()

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    C = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(BUILD, "run", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    java_overrides()
    known = load_known(pid)

    # design models run while the harness compiles
    ex = cf.ThreadPoolExecutor(max_workers=8)
    design = []
    for n, (mod, cfg, opt) in enumerate(C.get("design", [])):
        if tier == "quick" and opt.get("thorough_only"): continue
        if tier == "thorough" and opt.get("quick_only"): continue
        design.append((mod, cfg, opt, ex.submit(tlc, mod, cfg, os.path.join(work, "design%d" % n), None, tuple(opt.get("extra", ())),
                                              opt.get("timeout", 600), opt.get("heap", "4g"), opt.get("workers", "4"))))
    try:
        exes = build.build(list(dict.fromkeys([C["harness"]] + [j["harness"] for j in C["jobs"] + [g["job"] for g in C.get("scenarios", [])] if "harness" in j])))
    except build.BuildError as e:
        raise CheckError("harness does not build against /repo:\n" + str(e)[-6000:])
    t_build = time.time() - t0

    violations, tot = [], dict(states=0, transitions=0, design_states=0, traces=0, events=0)
    samples, per_op, scen_count = [], {}, 0

    # scenarios generated by the specification itself
    scen_files = []
    for g, gen in enumerate(C.get("scenarios", [])):
        n = gen[tier]
        wd = os.path.join(work, "gen%d" % g)
        parts = gen.get("parts", 4)
        futs = []
        for k in range(parts):
            outf = os.path.join(wd, "scen%d.ndjson" % k)
            os.makedirs(wd, exist_ok=True)
            futs.append((outf, ex.submit(tlc, gen["module"], gen["cfg"], os.path.join(wd, "w%d" % k), {"SCEN_OUT": outf},
                        ("-simulate", "num=%d" % (n // parts), "-depth", str(gen["depth"]), "-seed", str(seed * 100 + k)), 600, "2g", "1")))
        for outf, f in futs:
            rc, out, _ = f.result()
            if rc != 0 or not os.path.exists(outf):
                raise CheckError("scenario generation failed (%s): rc=%d\n%s" % (gen["module"], rc, out[-3000:]))
            scen_files.append((gen, outf))

    runs = []
    for j, job in enumerate(C["jobs"]):
        n = job[tier]
        parts = job.get("parts", 8)
        for k in range(parts):
            runs.append((job, k, max(1, n // parts), None))
    for gen, outf in scen_files:
        runs.append((gen["job"], 0, 0, outf))

    def one(idx, job, part, count, scen):
        wd = os.path.join(work, "t%03d" % idx)
        os.makedirs(wd)
        tr = os.path.join(wd, "trace.ndjson")
        args = [exes[job.get("harness", C["harness"])], job.get("group", pid), str(seed), str(count), str(part), tr]
        if scen: args.append(scen)
        r = run_harness(args, job, wd, tr)
        if r: return (idx, job, tr, [r], None)
        v, info = validate(job, wd, tr)
        return (idx, job, tr, v, info)

    def run_harness(args, job, wd, tr):
        bad = None
        for attempt in range(2):
            env = dict(os.environ, MALLOC_PERTURB_="165", ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:abort_on_error=0",
                       UBSAN_OPTIONS="print_stacktrace=0")
            try:
                r = subprocess.run(args, cwd=wd, env=env, capture_output=True, text=True, errors="replace", timeout=job.get("timeout", 240))
            except subprocess.TimeoutExpired:
                bad = ("the code did not return (hang)", "")
                continue
            if r.returncode == 64: raise CheckError("harness usage: " + r.stderr)
            if r.returncode == 65: raise CheckError("harness: " + r.stderr[-2000:])
            if r.returncode == 0: return None
            bad = ("the code crashed (status %d)" % r.returncode, r.stderr[-3000:])
        lines = read_lines(tr) if os.path.exists(tr) else []
        note = open(tr + ".note").read() if os.path.exists(tr + ".note") else ""
        return dict(what=bad[0] + (" during: " + note if note else ""), stderr=bad[1], args=args, line=len(lines), events=lines[-3:])

    def validate(job, wd, tr):
        v, gen_s, dist_s = [], 0, 0
        lines = read_lines(tr)
        n = len(lines)
        cfg = job.get("cfg", C.get("cfg", "Trace.cfg"))
        mod = job.get("module", C.get("module"))
        for attempt in range(2):
            rc, out, _ = tlc(mod, cfg, wd, {"TRACE": tr}, ("-deadlock",) if job.get("nodl") else (), job.get("tlc_timeout", 700), job.get("heap", "3g"))
            if rc == 0: break
            if rc == 124: raise CheckError("trace validation timed out: %s %s" % (mod, tr))
            if "EXPLAINED" in out: break
        g, d = states(out)
        if rc != 0:
            m = re.findall(r'<<"EXPLAINED", (\d+), (\d+)>>', out)
            ref = [re.sub(r'\s+', ' ', x) for x in re.findall(r'<<\s*"REFUSED",.*?>>(?=\n|$)', out, re.S)]
            if m:
                k = int(m[-1][0])
                v.append(dict(what="no behaviour of the specification explains event %d: %s" % (k + 1, "; ".join(dict.fromkeys(ref[-4:]))), args=[tr], line=k + 1,
                              events=scenario_of(lines, k, job), refused=ref[-6:]))
            elif re.search(r"Parse Error|Semantic error|Unknown operator|Could not parse|java.lang.OutOfMemory|StackOverflow|does not exist|Error: (The )?(config|Config)", out) or rc in (137, 143, -9):
                raise CheckError("TLC failed: " + out[-3000:])
            elif re.search(r"Attempted to|evaluating|CASE|not in the domain|Invariant|is violated|BigReal", out):
                # an event with a shape no behaviour has (missing field, value of the wrong kind), or a violated invariant
                m2 = re.findall(r"/\\ l = (\d+)|\bl = (\d+)", out)
                k = max([int(a or b) for a, b in m2] or [1]) - 1
                d1 = g if g else 1
                k = max(k, d1 - 1)
                k = min(k, n - 1)
                v.append(dict(what="event %d cannot be interpreted by the specification: %s" % (k + 1, first_error(out)), args=[tr], line=k + 1,
                              events=scenario_of(lines, k, job), refused=ref[-6:]))
            else:
                raise CheckError("TLC failed: rc=%d %s" % (rc, out[-3000:]))
        return v, dict(lines=lines, gen=g, dist=d)

    try:
        results = list(ex.map(lambda a: one(*a), [(i,) + r for i, r in enumerate(runs)]))
    finally:
        pass
    for idx, job, tr, v, info in results:
        for x in v: violations.append((job, tr, x))
        if info:
            tot["states"] += info["dist"]; tot["transitions"] += info["gen"]; tot["traces"] += 1
            for ln in info["lines"]:
                m = re.match(r'\{"op":"([^"]*)"', ln)
                if m: per_op[m.group(1)] = per_op.get(m.group(1), 0) + 1
            tot["events"] += len(info["lines"])
            if len(samples) < 3 and info["lines"]: samples.append(info["lines"][min(len(info["lines"]) - 1, 1)][:600])

    dinfo = []
    for mod, cfg, opt, f in design:
        rc, out, dt = f.result()
        g, d = states(out)
        if rc != 0: raise CheckError("design model %s rejected (rc=%d):\n%s" % (mod, rc, out[-3000:]))
        tot["design_states"] += d; tot["states"] += d; tot["transitions"] += g
        dinfo.append(dict(model=mod, cfg=cfg, distinct_states=d, generated=g, wall_s=round(dt, 1)))

    # vacuity: every operation the property needs must have been observed
    missing = [o for o in C.get("must_see", []) if not per_op.get(o)]
    fresh, hits = [], []
    for job, tr, x in violations:
        k = match_known(known, x)
        (hits if k else fresh).append((k, job, tr, x))
    for k in {h[0]["text"] for h in hits}:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if missing and not fresh:
        raise CheckError("operations never exercised: %s" % missing)

    ev = dict(property=pid, tier=tier, seed=seed, level=C.get("level", "model_checking"), wall_s=round(time.time() - t0, 1), coverage=dict(
        states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"], samples=samples,
        events_checked=tot["events"], events_by_operation=per_op, design_models=dinfo, violations=len(fresh), known_findings=len(hits), build_s=round(t_build, 1)))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if fresh:
        rd = os.path.join(V, "_build", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (k, job, tr, x) in enumerate(fresh[:5]):
            x = dict(x, property=pid, tier=tier, seed=seed, spec=job.get("module", C.get("module")))
            p = os.path.join(rd, "%s-%d.json" % (pid, n))
            json.dump(x, open(p, "w"), indent=1)
            print(x["what"][:1500])
            if x.get("stderr"): print(x["stderr"][-1500:])
            for e in x.get("events", [])[-1:]: print("  event: " + e[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("OK property=%s tier=%s: %d design states, %d traces / %d events of the real code accepted (%.0f s, build %.0f s)" % (
        pid, tier, tot["design_states"], tot["traces"], tot["events"], time.time() - t0, t_build))
    return 0

def scenario_of(lines, k, job):
    """The events of the scenario that contains event k (0-based), up to and including it."""
    b = job.get("begin")
    s = k
    if b:
        while s > 0 and ('"op":"%s"' % b) not in lines[s]: s -= 1
    else:
        s = k
    return lines[max(s, k - 400):k + 1]

def first_error(out):
    m = re.search(r"Error: (.*?)\n(Error|The error|\d+ states|$)", out, re.S)
    return (m.group(1) if m else out[-400:]).replace("\n", " ")[:500]

def load_known(pid):
    res = []
    p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("known", []):
            if k["property"] == pid: res.append(k)
    return res

def match_known(known, x):
    for k in known:
        if all(re.search(p, json.dumps(x)) for p in k["match"]): return k
    return None

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: " + str(e)[:6000])
        sys.exit(2)
