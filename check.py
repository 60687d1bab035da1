#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current code.

  check.py <ID> [quick|thorough]   run the jobs of one property
  check.py setup                   build everything once (sanity check of the tool chain)
  check.py job ENTRY ARGS..        run one job and print its result (development)

Exit 0: every query of every job was answered and every assertion holds.  Exit 1: VIOLATION (reproduced on the
natively compiled code).  Exit 2: no verdict (build failure, time limit, solver gave up, counterexample which does
not reproduce).
"""
import concurrent.futures as cf, threading, glob, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import jobs as J
REPO = "/repo"
B = os.path.join(V, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME=os.environ.get("HOME", "/root"), RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"): ENV.pop(k, None)
IRFLAGS = "-C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-inline-threshold=-1000000 -C llvm-args=-inlinehint-threshold=-1000000 -C link-arg=-Wl,--unresolved-symbols=ignore-all"

class NoVerdict(Exception): pass
def sh(cmd, cwd, env, log, timeout=1500):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        tail = open(log).read()[-3000:]
        raise NoVerdict("build step failed: %s\n%s" % (" ".join(cmd), tail))
def build_symex():
    sh(["cargo", "build", "--release", "--target-dir", B + "/sx"], V + "/symex", dict(ENV, RUSTFLAGS="-L /usr/lib/x86_64-linux-gnu"), B + "/log.symex")
    r = subprocess.run([B + "/sx/release/symex", "--selftest", "300"], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0: raise NoVerdict("solver self test failed: " + r.stdout)
    return B + "/sx/release/symex"
def build_ir(feat):
    t = B + ("/irfeat" if feat else "/ir")
    for f in glob.glob(t + "/sym/deps/tmfh-*.ll"): os.unlink(f)
    # the entry file is touched so that the IR is always regenerated from the current sources
    os.utime(V + "/harness/src/main.rs")
    sh(["cargo", "rustc", "--profile", "sym", "--target-dir", t] + (["--features", "feat"] if feat else []) + ["--", "--emit=llvm-ir"], V + "/harness", dict(ENV, RUSTFLAGS=IRFLAGS), B + "/log.ir" + ("feat" if feat else ""))
    l = glob.glob(t + "/sym/deps/tmfh-*.ll")
    if len(l) != 1: raise NoVerdict("expected one IR module, found %r" % l)
    return l[0]
def build_native(rel, feat):
    t = B + "/nat" + ("feat" if feat else "")
    fs = "native" + (",feat" if feat else "")
    sh(["cargo", "build", "--target-dir", t, "--features", fs] + (["--release"] if rel else []), V + "/harness", ENV, B + "/log.nat%d%d" % (rel, feat))
    return t + ("/release" if rel else "/debug") + "/tmfh"
def native(exe, entry, args, inputs, wrap=[]):
    a = ",".join("%x" % x for x in args); i = ",".join(x[1] for x in inputs)
    try:
        r = subprocess.run(wrap + [exe, entry, a, i], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=dict(ENV, TMFH_MAX_ALLOC=str(1 << 36)), cwd="/tmp")
    except subprocess.TimeoutExpired:
        return 124, "", ""
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
STOP = threading.Event()
def run_job(sx, ir, job, tier, seed, idx, deadline, kn, confirm):
    if STOP.is_set(): return {"status": "skipped", "errors": {}, "violations": [], "covers": {}}, 0.0
    out = "%s/out/%s.%d.json" % (B, job.entry, idx)
    limit = max(1, min(job.timeout, deadline - time.time()))
    cmd = [sx, "--ir", ir, "--entry", job.entry, "--out", out, "--timeout", "%.1f" % limit, "--max-alloc", str(job.max_alloc), "--seed", str(seed), "--crosscheck", str(job.crosscheck), "--query-timeout", str(job.query_timeout)]
    for x in job.args: cmd += ["--arg", str(x)]
    for k in kn:
        if k["entry"] == job.entry: cmd += ["--known", "%s:%s" % (k["kind"], k["id"])]
    t0 = time.time()
    none = lambda st, **e: ({"status": st, "errors": e, "violations": [], "covers": {}}, time.time() - t0)
    if os.path.exists(out): os.unlink(out)
    with open(out + ".log", "w") as lf: p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
    while True:
        try: p.wait(timeout=0.5); break
        except subprocess.TimeoutExpired: pass
        # another job has confirmed a violation: this one may use a little more time
        if STOP.is_set() and time.time() - STOP.at > 20: p.kill(); p.wait(); return none("skipped")
        if time.time() - t0 > limit + 40: p.kill(); p.wait(); return none("error", timeout="the engine did not stop at its time limit")
    try: d = json.load(open(out))
    except Exception as e: return none("error", engine="rc %d %s" % (p.returncode, open(out + ".log", errors="replace").read()[-500:]))
    if confirm(job, d): STOP.at = getattr(STOP, "at", time.time()); STOP.set()
    return d, time.time() - t0
def known(prop):
    try: l = json.load(open(V + "/known_findings.json"))["findings"]
    except FileNotFoundError: return []
    return [k for k in l if k["property"] == prop]
def reproduces(v, job, exes):
    """Replays one counterexample; returns a description when the real code misbehaves."""
    for name, exe in exes:
        rc, so, se = native(exe, job.entry, job.args, v["inputs"])
        m = re.search(r"REPLAY assertion (\d+) fails", so)
        if m: return "%s build: assertion %s fails" % (name, m.group(1))
        if "REPLAY alloc" in se or "REPLAY alloc" in so: return "%s build: allocation beyond the limit" % name
        if rc == 101: return "%s build: %s" % (name, se.strip()[:300].replace("\n", " "))
        if rc < 0 or rc in (124, 132, 134, 136, 139): return "%s build: died with status %d" % (name, rc)
    if v["kind"] in ("memory",):
        rc, so, se = native(exes[-1][1], job.entry, job.args, v["inputs"], ["valgrind", "-q", "--error-exitcode=98"])
        if rc == 98: return "valgrind: " + se.strip()[:300].replace("\n", " ")
    return None
def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = J.PROPS[prop]
    jobs = [j for j in P.jobs if tier == "thorough" or j.tier == "quick"]
    if tier == "thorough": jobs = [j for j in jobs if not j.quick_only]
    os.makedirs(B + "/out", exist_ok=True); os.makedirs(B + "/replay", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    feats = sorted(set(j.feat for j in jobs))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = ex.submit(build_symex); fi = {f: ex.submit(build_ir, f) for f in feats}
        fn = {f: ex.submit(build_native, True, f) for f in feats}
        sx = fs.result(); ir = {f: fi[f].result() for f in feats}; rel = {f: fn[f].result() for f in feats}
    tb = time.time() - t0
    res = [None] * len(jobs)
    kn = known(prop)
    def isknown(j, v):
        for k in kn:
            if k["entry"] == j.entry and k["kind"] == v["kind"] and str(k["id"]) == str(v["id"]): return k
        return None
    def confirm(j, d): return any(reproduces(v, j, [("release", rel[j.feat])]) for v in d["violations"] if not isknown(j, v))
    deadline = t0 + (780 if tier == "quick" else 1e9)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {i: ex.submit(run_job, sx, ir[jobs[i].feat], jobs[i], tier, seed, i, deadline, kn, confirm) for i in order}
        for i in order: res[i] = fut[i].result()
    problems, viol, known_hits, samples = [], [], {}, []
    validated = 0
    # witnesses: every declared cover must be reachable, and its model must take the same way on the native build
    todo = []
    for j, (d, w) in zip(jobs, res):
        lab = j.label()
        if d["status"] == "skipped": continue
        if d["status"] == "error": problems.append("%s: engine error %s" % (lab, d.get("errors")))
        elif d["status"] != "complete": problems.append("%s: not complete within its bounds: %s" % (lab, d.get("errors")))
        for k in j.covers:
            if str(k) not in d["covers"]:
                if not d["violations"] and d["status"] == "complete": problems.append("%s: witness %s not reached (vacuous)" % (lab, k))
            else: todo.append((j, k, d["covers"][str(k)]["inputs"], d))
    def wit(t):
        j, k, inp, d = t
        return t, native(rel[j.feat], j.entry, j.args, inp)
    with cf.ThreadPoolExecutor(8) as ex:
        for (j, k, inp, d), (rc, so, se) in ex.map(wit, todo):
            if "REPLAY cover %s" % k in so and rc in (0, 77):
                validated += 1
                if len(samples) < 12: samples.append({"job": j.label(), "witness": k, "inputs": [x[1] for x in inp][:64]})
            elif not d["violations"] and not (j.opaque): problems.append("%s: witness %s is not followed by the native build (rc %d): %s %s" % (j.label(), k, rc, so.strip()[-200:], se.strip()[-200:]))
    anyv = [(j, v) for j, (d, w) in zip(jobs, res) for v in d["violations"]]
    exes = {}
    nonrep = []
    if anyv:
        for f in feats:
            if any(j.feat == f for j, v in anyv): exes[f] = [("release", rel[f]), ("dev", build_native(False, f))]
        seen = set()
        for n, (j, v) in enumerate(anyv):
            k = isknown(j, v)
            key = (j.label(), v["kind"], v["id"])
            if key in seen: continue
            r = reproduces(v, j, exes[j.feat])
            if r: seen.add(key)
            path = "%s/replay/%s-%d.json" % (B, prop, n)
            json.dump({"property": prop, "entry": j.entry, "args": j.args, "features": "feat" if j.feat else "", "violation": v, "native": r, "cmd": "%s %s '%s' '%s'" % (exes[j.feat][0][1], j.entry, ",".join("%x" % x for x in j.args), ",".join(x[1] for x in v["inputs"]))}, open(path, "w"), indent=1)
            if r is None: nonrep.append("%s: %s %s %s does not reproduce natively (%s)" % (j.label(), v["kind"], v["id"], v["detail"][:200], path)); continue
            if k: known_hits.setdefault(k["what"], []).append(j.label()); continue
            viol.append((j, v, r, path))
        # a violation for which one of several counterexamples reproduced is settled
        nonrep = [x for x in nonrep if not any(x.startswith("%s: %s %s " % s) for s in seen)]
    problems += nonrep
    tot = lambda f: sum(f(d) for d, w in res if "solver" in d)
    fnset = sorted({f for d, w in res for f in d.get("functions", [])})
    notes = sorted({n for d, w in res for n in d.get("notes", {})})
    asserts = {}
    for j, (d, w) in zip(jobs, res):
        for k, a in d.get("asserts", {}).items():
            s = asserts.setdefault(j.entry + "#" + k, {"by_simplifier": 0, "by_solver": 0, "failed": 0})
            for q in s: s[q] += a[q]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "violations": len(viol), "wall_s": round(time.time() - t0, 2),
      "assumptions": P.assumptions + J.ENGINE_ASSUMPTIONS,
      "coverage": {
        "states": tot(lambda d: d["paths"]), "transitions": tot(lambda d: d["instructions"]), "traces_validated_against_impl": validated, "samples": samples or ["none"],
        "explanation": "states = completed symbolic execution paths (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces = solver witnesses replayed on the native release build",
        "bounds": P.bounds, "outside_bounds": P.outside, "jobs": [{"job": j.label(), "bounds": j.note, "status": d["status"], "paths": d.get("paths"), "queries": d.get("solver", {}).get("queries"), "wall_s": round(w, 2)} for j, (d, w) in zip(jobs, res)],
        "solver": {k: round(tot(lambda d: d["solver"][k]), 3) for k in ("queries", "sat", "unsat", "unknown", "time_s", "branch_decisions", "crosschecked_with_z3", "crosscheck_open")},
        "assertions": asserts, "functions_encoded": fnset, "stubs_and_contracts_used": notes, "build_s": round(tb, 1),
        "known_findings_seen": known_hits, "problems": problems}}
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for w, l in known_hits.items(): print("KNOWN-FINDING: property=%s %s [%s]" % (prop, w, l[0]))
    for k in kn:
        if k["what"] not in known_hits: print("note: listed finding no longer fails: %s" % k["what"])
    for p in problems: print("problem: " + p)
    for j, v, r, path in viol:
        print("  %s: %s %s %s; native: %s" % (j.label(), v["kind"], v["id"], v["detail"][:160], r))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    c = ev["coverage"]
    print("%s %s: %d jobs, %d paths, %d instructions, %d queries (%.1f s solver), %d witnesses replayed, %.1f s" % (prop, tier, len(jobs), c["states"], c["transitions"], c["solver"]["queries"], c["solver"]["time_s"], validated, time.time() - t0))
    return 1 if viol else (2 if problems else 0)
def setup():
    os.makedirs(B + "/out", exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(build_symex), ex.submit(build_ir, False), ex.submit(build_native, True, False)]: f.result()
    print("built")
if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup": setup(); sys.exit(0)
        tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
        sys.exit(main(sys.argv[1], tier))
    except NoVerdict as e:
        print("problem: %s" % e); sys.exit(2)
