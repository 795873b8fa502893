#!/usr/bin/env python3
"""Driver of every check: builds the suites a property needs from /repo's working tree, runs them, writes evidence.

  run.py check Cnn [--tier quick|thorough]     0 held, 1 VIOLATION, 2 could not be decided (does not build, ...)
  run.py replay FILE                           re-run a replay file against the current tree
  run.py setup                                 check that the tools are there
"""
import hashlib, json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get("VERIF_REPO", "/repo"); S = R + "/src"
sys.path.insert(0, os.path.join(V, "lib"))
from plan import BIN, PROPS

def sh(cmd, cwd=None, timeout=800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def tree_hash(name):
    h = hashlib.sha256()
    for root in (S, V + "/lib", V + "/suites", R + "/rust_bindings/src", R + "/chiavdf"):
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "target"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.splitext(f)[1] in (".h", ".hpp", ".cpp", ".c", ".py", ".s", ".include", ".build", ".rs", ".toml", ".txt", ".inc", ".S"):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(name.encode()); h.update(BIN[name]["build"].encode())
    return h.hexdigest()[:16]

def build(name):
    b = BIN[name]; d = os.path.join(V, "build", name + "-" + tree_hash(name)); done = os.path.join(d, "ok")
    if os.path.exists(done): return d
    os.makedirs(d, exist_ok=True)
    for o in os.listdir(os.path.join(V, "build")):      # drop builds of other trees
        if o.startswith(name + "-") and os.path.join(V, "build", o) != d: subprocess.call(["rm", "-rf", os.path.join(V, "build", o)])
    t = time.time(); env = b["build"].replace("@S", S).replace("@V", V).replace("@R", R)
    rc, out = sh("set -e\n" + env, cwd=d)
    if rc != 0:
        print("cannot build suite %s from the current tree:\n%s" % (name, "\n".join([l for l in out.splitlines() if "error" in l.lower()][:20]) or out[-2000:])); sys.exit(2)
    open(done, "w").write("ok"); print("built %s in %.1fs" % (name, time.time() - t)); sys.stdout.flush()
    return d

def known_findings(prop):
    r = []
    try:
        for l in open(V + "/known_findings.txt"):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]; key = rest.split(" ", 1)[0].replace("key=", ""); r.append((key, rest.split(" ", 1)[1]))
    except FileNotFoundError: pass
    return r

def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1); P = PROPS[prop]; os.makedirs(V + "/out", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/build", exist_ok=True)
    known = known_findings(prop); suites = []; rcs = []
    total = 760
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        try: dirs = list(ex.map(build, [n for n, _ in P["runs"]]))
        except SystemExit: return 2
    if tier == "quick": total = time.time() - t0 + 130      # the build does not count
    for (name, ss), d in zip(P["runs"], dirs):
        out = os.path.join(d, "out.%s.%s.json" % (prop, tier))
        if os.path.exists(out): os.remove(out)
        left = total - (time.time() - t0); nleft = len(P["runs"]) - P["runs"].index((name, ss))
        cmd = [os.path.join(d, name)] if not BIN[name].get("python") else [BIN[name]["python"], os.path.join(V, "suites", name + ".py")]
        cmd += ["run", "--seed", str(seed), "--tier", tier, "--jobs", "8", "--budget", "%.0f" % max(30, left / nleft), "--out", out]
        for s in ss: cmd += ["--suite", s]
        for k, _ in known: cmd += ["--known", k]
        env = dict(os.environ, PBT_BUILD=d, PBT_REPO=R, **{k: v.replace("@V", V) for k, v in BIN[name].get("env", {}).items()})
        print("running %s: %s" % (name, " ".join(ss))); sys.stdout.flush()
        try: p = subprocess.run(cmd, cwd=d, env=env, timeout=890 - (time.time() - t0))
        except subprocess.TimeoutExpired: print("suite ran out of time"); return 2
        try: suites += [dict(x, bin=name) for x in json.load(open(out))["suites"]]
        except Exception as e: print("no result from %s (%s), exit status %s" % (name, e, p.returncode)); return 2
    viol = []; ev = nt = 0; samples = []; notes = []
    for s in suites:
        ev += s["cases"]; nt += s["distinct"]; samples += [{"suite": s["name"], "input": x} for x in s["samples"][:4]]
        for f in s["flaky"]: notes.append("not reproducible, not counted as a violation: %s %s" % (s["name"], f)); print(notes[-1][:500])
        for f in s["fails"]:
            h = hashlib.sha256(json.dumps(f["choices"]).encode()).hexdigest()[:10]; path = "%s/out/%s-%s-%s.json" % (V, prop, s["name"].replace("/", "_"), h)
            json.dump(dict(f, property=prop, bin=s["bin"], seed=seed, tier=tier), open(path, "w"), indent=1)
            viol.append(path); print("  %s: %s\n  input: %s" % (f["suite"], f["message"][:1500], f["input"][:1500]))
    if ev == 0: print("nothing was explored"); return 2
    evd = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in suites), "samples": samples[:24],
                        "suites": [{k: s[k] for k in ("name", "cases", "planned", "nontrivial", "distinct", "discarded", "known", "wall", "labels")} for s in suites]},
           "assumptions": P.get("assumptions", []) + notes, "violations": viol, "wall_s": round(time.time() - t0, 1)}
    json.dump(evd, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for k, d in known: print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for v in viol: print("VIOLATION property=%s replay=%s" % (prop, v))
    print("%s %s: %d cases, %d distinct non-trivial, %.0fs" % (prop, "VIOLATED" if viol else "held", ev, nt, time.time() - t0))
    return 1 if viol else 0

def replay(path):
    f = json.load(open(path)); d = build(f["bin"]); c = os.path.join(d, "choices.txt"); open(c, "w").write("\n".join(map(str, f["choices"])))
    cmd = [os.path.join(d, f["bin"])] if not BIN[f["bin"]].get("python") else [BIN[f["bin"]]["python"], os.path.join(V, "suites", f["bin"] + ".py")]
    env = dict(os.environ, PBT_BUILD=d, PBT_REPO=R, **{k: v.replace("@V", V) for k, v in BIN[f["bin"]].get("env", {}).items()})
    for i in range(20 if f.get("flaky") else 1):
        rc = subprocess.call(cmd + ["replay", f["suite"], c], cwd=d, env=env)
        if rc: break
    if rc == 1: print("VIOLATION property=%s replay=%s" % (f["property"], path))
    return rc

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for t in ("g++", "clang++", "python3"):
            if subprocess.call("command -v %s >/dev/null" % t, shell=True): print("missing", t); sys.exit(1)
        sys.exit(0)
    if a[:1] == ["replay"]: os.makedirs(V + "/build", exist_ok=True); sys.exit(replay(a[1]))
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(a[1], tier))
