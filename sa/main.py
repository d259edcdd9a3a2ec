"""check <property>: decides one property from the current source of /repo.

Every driver of the property (specs/*.py, functions named <property>_...) is
evaluated over the expression domain in up to two modes, each in its own
process. exit 0: no obligation is violated; exit 1: VIOLATION."""
import ast
import json
import os
import pickle
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
LIMIT = {"quick": 150, "thorough": 400}
TOTAL = {"quick": 600, "thorough": 3000}
CPUS = 8


def drivers(pid, tier):
    """[(module, function, mode)] of a property."""
    out = []
    d = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(d, f)).read())
        for n in tree.body:
            if not isinstance(n, ast.FunctionDef) or not n.name.startswith(pid + "_"):
                continue
            doc = ast.get_docstring(n) or ""
            if "[thorough]" in doc and tier != "thorough":
                continue
            modes = ["sym", "conc"]
            if "[conc]" in doc:
                modes = ["conc"]
            elif "[sym]" in doc:
                modes = ["sym"]
            for m in modes:
                out.append((f[:-3], n.name, m))
    return out


def child(module, func, mode, seed, w):
    """Evaluate one driver; write the pickled result to w."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    res = {"obs": [], "err": None, "dt": 0.0, "an": {}}
    try:
        import harness
        t0 = time.time()
        r = harness.Runner(REPO, seed=seed)
        try:
            r.prepare([module])
        except BaseException as e:
            res["err"] = "undecided: cannot load the package: " + str(e)[:300]
            r = None
        if r is not None:
            obs, err, dt, an = r.run(module, func, mode)
            res["err"] = err
            res["an"] = {str(k): v if isinstance(v, (int, str)) else 1 for k, v in an.items()}
            for o in obs:
                res["obs"].append({k: getattr(o, k) for k in o.__slots__})
        res["dt"] = time.time() - t0
    except MemoryError:
        res["err"] = "undecided: memory limit of the analysis"
    except BaseException as e:
        res["err"] = "internal: %s: %s" % (type(e).__name__, str(e)[:300])
    with os.fdopen(w, "wb") as f:
        f.write(pickle.dumps(res))
    os._exit(0)


def run_all(jobs, tier, seed):
    """Run the drivers in parallel; [(job, result)] in order."""
    results = {}
    queue = list(enumerate(jobs))
    live = {}
    t0 = time.time()
    while queue or live:
        while queue and len(live) < CPUS:
            i, (m, f, mode) = queue.pop(0)
            if time.time() - t0 > TOTAL[tier]:
                results[i] = {"obs": [], "err": "undecided: time limit of the check", "dt": 0.0, "an": {}}
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                os.close(r)
                child(m, f, mode, seed, w)
            os.close(w)
            live[r] = [i, p, b"", time.time()]
        if not live:
            continue
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                live[r][2] += d
                continue
            i, p, buf, ts = live.pop(r)
            os.close(r)
            os.waitpid(p, 0)
            try:
                results[i] = pickle.loads(buf)
            except Exception:
                results[i] = {"obs": [], "err": "internal: the evaluation ended without a result", "dt": time.time() - ts, "an": {}}
        for r in list(live):
            i, p, buf, ts = live[r]
            if time.time() - ts > LIMIT[tier]:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                os.close(r)
                live.pop(r)
                results[i] = {"obs": [], "err": "undecided: time limit", "dt": time.time() - ts, "an": {}}
    return [(j, results[i]) for i, j in enumerate(jobs)]


def known(pid):
    """Entries of the known-findings file for a property."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=" + pid + " "):
                out.append(line.strip())
    return out


def where(o):
    e, s = o["entry"], o["site"]
    out = []
    if s and s[0] and not str(s[0]).startswith("<") and not str(s[0]).startswith("specs"):
        out.append("construct %s:%s" % (s[0], s[1]))
    if e:
        out.append("entry point %s (%s:%s)" % (e[0], e[1], e[2]))
    return ", ".join(out) or "driver"


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = drivers(pid, tier)
    results = run_all(jobs, tier, seed)
    viol, und = [], []
    total = done = 0
    functions = {}
    per = []
    for (m, f, mode), r in results:
        n = {"equal": 0, "different": 0, "unknown": 0}
        for o in r["obs"]:
            n[o["status"]] = n.get(o["status"], 0) + 1
            total += 1
            done += o["status"] == "equal"
            if o["status"] == "different":
                viol.append(o)
            elif o["status"] == "unknown":
                und.append("%s[%s]: %s" % (f, mode, o["label"]))
        if r["err"]:
            und.append("%s[%s]: %s" % (f, mode, r["err"]))
        for k in r["an"]:
            if "/stubs/" in str(k[0]) or "/specs/" in str(k[0]):
                continue
            functions[k] = functions.get(k, 0) + 1
        per.append({"driver": f, "mode": mode, "obligations": n, "seconds": round(r["dt"], 2), "ended": r["err"] or "complete"})
    lint = []
    import lints
    nl = lints.RULES.get(pid)
    lint_cov = None
    if nl:
        lint, lint_cov = nl(REPO)
        total += lint_cov["obligations"]
        done += lint_cov["obligations"] - len(lint)
    # the same defect shows under several labels: report each construct once
    lines = []
    seen = set()
    for o in viol:
        k = (o["label"], o["scenario"])
        if k in seen:
            continue
        seen.add(k)
        lines.append({"driver": o["scenario"], "mode": o["mode"], "obligation": o["label"], "where": where(o),
                      "computed": o["got"], "expected": o["exp"], "detail": o["detail"]})
    for x in lint:
        lines.append(x)
    kn = known(pid)
    new = []
    for x in lines:
        tag = x.get("driver", x.get("rule", "")) + ": " + x.get("obligation", x.get("where", ""))
        hit = [k for k in kn if tag in k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, tag))
        else:
            new.append(x)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": "Abstract evaluation of the package's source with symbolic contents; every obligation compares the "
                             "expression the code computes with the expression the property demands. 'discharged' obligations are "
                             "equal as normal forms; undecided ones are listed and raise no alarm.",
              "obligations": total, "discharged": done, "undecided": und[:60], "drivers": per,
              "functions_analysed": sorted(functions), "functions_count": len(functions)},
          "assumptions": ["real arithmetic instead of floating point",
                          "numpy, scipy, iminuit, numdifftools and multiprocessing behave as their models in /verif/sa describe",
                          "numbers of templates, channels and processes as in the drivers; numbers of bins symbolic (mode sym) or small (mode conc)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if lint_cov:
        ev["coverage"]["rules"] = lint_cov
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d functions of the package analysed, %.1f s" % (
        pid, total, done, len(und), len(functions), time.time() - t0))
    for u in und[:20]:
        print("undecided: " + u[:240])
    if new:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for x in new[:20]:
            print("  " + "; ".join("%s: %s" % (k, str(v)[:260]) for k, v in x.items() if v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
