"""python3 engine/check.py <property> [--thorough]: decide one property from /repo's current source.

A property is a list of tasks (engine/spec.py).  A task is either an abstract-interpretation task (a driver written against the
public API is compiled to LLVM IR together with /repo's sources and analysed by absint.py) or a python rule (a function that
returns obligations).  Every obligation has a kind, a place and a verdict; one undischarged obligation of a kind that the
property counts is a violation."""
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

VERIF = build.VERIF
ALWAYS = ("unmodelled", "unknown-callee", "recursion", "analysis")


# precision settings, tried in order until every obligation is discharged; each run is a complete sound analysis of its own
PORTFOLIO = [dict(merge_at=20), dict(merge_at=20, peel=0, narrow=5), dict(merge_at=6), dict(merge_at=64, peel=2, narrow=4),
             dict(merge_at=8, narrow=4, hull=(12, 3000000))]
FALLBACK = [dict(merge_at=20, entry=20), dict(merge_at=20, entry=20, narrow=0)]
THOROUGH = [dict(merge_at=200, peel=3, narrow=6, delay=4), dict(merge_at=20, narrow=6, hull=(14, 10000000), budget=600.0)]


def run_ai(task, tier):
    import poly
    import absint
    import models
    irdump, shim = build.tools()
    poly.load(shim)
    d = tempfile.mkdtemp(prefix="vp-ir-")
    t0 = time.time()
    try:
        src = [os.path.join(VERIF, "drivers", task["driver"])]
        src += [s if s.startswith("/") else os.path.join(build.REPO, s) for s in task.get("sources", ())]
        src = [s for s in src]
        inc = [i.replace("$REPO", build.REPO).replace("$VERIF", VERIF) for i in task.get("includes", ())]
        js = build.compile_ir(src, os.path.join(d, "o.json"), includes=inc, defines=task.get("defines", ()), workdir=d,
                              extra=task.get("flags", ()))
        m = absint.Module(js)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = tuple(task["kinds"]) + ALWAYS
    tries = list(task.get("portfolio", PORTFOLIO))
    if task.get("fallback", True):
        tries += [o for o in FALLBACK if o not in tries]
    if tier == "thorough":
        tries += THOROUGH
    best = left = None
    log = []
    for o in tries:
        opt = dict(o)
        opt.update(task.get("opt", {}))
        poly.HULL_N, poly.HULL_OPS = opt.pop("hull", (8, 300000))
        opt.setdefault("budget", task.get("budget", 300.0))
        an = absint.Analysis(m, **opt)
        models.install(an)
        err = None
        try:
            an.run(task.get("fn", "drv"))
        except (absint.Broken, absint.Budget) as e:
            err = str(e)
        openk = set(k for k, v in an.rec[0].items() if v[1] and any(k[0].startswith(w) for w in want))
        log.append({"config": {k: v for k, v in o.items()}, "open": len(openk), "error": err})
        score = (err is not None, len(openk))
        if best is None or score < best[0]:
            best = (score, an, err)
        if err is None:
            # an obligation that one complete analysis proves (assuming the earlier ones only) holds
            left = openk if left is None else left & openk
        if left is not None and not left or time.time() - t0 > task.get("limit", 260.0):
            break
    _, an, err = best
    recs = []
    for k, (ok, bad, det) in sorted(an.rec[0].items(), key=lambda x: tuple(map(str, x[0]))):
        if bad and left is not None and k not in left and any(k[0].startswith(w) for w in want):
            ok, bad = ok + bad, 0       # proved by another analysis of the portfolio
        kind, f, line, fn = k[:4]
        st = [det[1]] if isinstance(det, tuple) and det[1] else []
        recs.append({"kind": kind, "file": f or "", "line": line, "function": fn, "ok": ok, "bad": bad,
                     "detail": (det[0] if isinstance(det, tuple) else det) or "", "path": st})
    if err:
        recs.append({"kind": "analysis", "file": task["driver"], "line": 0, "function": task.get("fn", "drv"), "ok": 0, "bad": 1,
                     "detail": err, "path": []})
    return {"recs": recs, "functions": sorted(set("%s" % (n,) for n, f in an.functions)), "stats": an.stats,
            "loops": len(an.loops_seen), "externals": sorted(an.externals), "wall": time.time() - t0, "error": err,
            "poly": dict(poly.STATS), "configs": log}


def run_task(a):
    task, tier = a
    try:
        if "rule" in task:
            import rules
            t0 = time.time()
            r = getattr(rules, task["rule"])(task, tier)
            r.setdefault("functions", [])
            r.setdefault("stats", {})
            r.setdefault("loops", 0)
            r.setdefault("externals", [])
            r["wall"] = time.time() - t0
            r.setdefault("error", None)
            return r
        return run_ai(task, tier)
    except build.BuildError as e:
        return {"fatal": "build: " + str(e)}
    except MemoryError:
        return {"fatal": "out of memory"}
    except Exception:
        return {"fatal": traceback.format_exc()}


def child(job, conn):
    conn.send(run_task(job))
    conn.close()


def run_all(jobs, n=8, stop=lambda job, r: False):
    """one process per task; the parent has a single thread, so that forking is safe; a violation ends the run"""
    from multiprocessing.connection import wait
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    again = set()
    running = {}
    while todo or running:
        while todo and len(running) < n:
            i = todo.pop()
            r, w = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=child, args=(jobs[i], w))
            p.start()
            w.close()
            running[r] = (i, p)
        for r in wait(list(running)):
            i, p = running.pop(r)
            try:
                res[i] = r.recv()
            except EOFError:
                p.join()
                if i in again:
                    res[i] = {"fatal": "the analysis process ended with code %s" % p.exitcode}
                else:
                    again.add(i)
                    todo.append(i)
            r.close()
            p.join()
            if res[i] is not None and stop(jobs[i], res[i]):
                for _, q in running.values():
                    q.kill()
                    q.join()
                return res
    return res


def known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def matches(f, pid, r):
    return f["property"] == pid and f["kind"] == r["kind"] and f.get("function", r["function"]) == r["function"] and \
        f.get("contains", "") in r["detail"]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--task", default="")
    a = ap.parse_args()
    import spec
    pid = a.property
    P = spec.PROPS[pid]
    tier = "thorough" if a.thorough else "quick"
    t0 = time.time()
    build.tools()
    tasks = [dict({"kinds": P.get("kinds", spec.ASSERT)}, **t) for t in P["tasks"] if tier == "thorough" or not t.get("thorough")]
    if a.task:
        tasks = [t for t in tasks if a.task in t.get("driver", "") + ":" + t.get("fn", "drv") + t.get("rule", "")]
    jobs = [(t, tier) for t in tasks]
    KF = known()
    if len(jobs) == 1:
        res = [run_task(jobs[0])]
    else:
        # one violation decides: the remaining tasks are left out
        res = run_all(jobs, stop=lambda job, r: tier == "quick" and "fatal" not in r and any(
            x["bad"] and x["kind"] != "analysis" and any(x["kind"].startswith(w) for w in job[0]["kinds"]) and
            not any(matches(f, pid, x) for f in KF) for x in r["recs"]))
    fatal = []
    viol, knownv = [], []
    total = good = 0
    kinds = {}
    reached = set()
    functions = set()
    externals = set()
    stats = {}
    loops = 0
    tinfo = []
    skipped = sum(r is None for r in res)
    for t, r in zip(tasks, res):
        if r is None:
            continue
        name = t.get("name") or (t.get("rule") or t["driver"]) + ":" + t.get("fn", "drv") + "".join(" " + d for d in t.get("defines", ()))
        if "fatal" in r:
            fatal.append("%s: %s" % (name, r["fatal"]))
            continue
        want = t["kinds"]
        n = 0
        for x in r["recs"]:
            k = x["kind"]
            if k.startswith("reach:"):
                reached.add(k[6:])
                continue
            if not any(k.startswith(w) for w in want) and k not in ALWAYS:
                continue
            total += 1
            n += 1
            kinds[k] = kinds.get(k, 0) + 1
            if x["bad"]:
                kf = [f for f in KF if matches(f, pid, x)]
                (knownv if kf else viol).append((name, x, kf))
            else:
                good += 1
        missing = [w for w in t.get("reach", ()) if not any(x["kind"] in ("reach:" + w, "assert:" + w) for x in r["recs"])]
        if missing and not r["error"] and not any(x["bad"] for x in r["recs"]):
            fatal.append("%s: never reached: %s (the analysis is vacuous there)" % (name, ", ".join(missing)))
        if n < t.get("floor", 1) and not r["error"]:
            fatal.append("%s: only %d obligations, at least %d expected" % (name, n, t.get("floor", 1)))
        functions |= set(r["functions"])
        externals |= set(r["externals"])
        loops += r["loops"]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        tinfo.append({"task": name, "obligations": n, "wall_s": round(r["wall"], 1), "loops": r["loops"], "configs": r.get("configs", [])})
        if a.show:
            for x in r["recs"]:
                if x["bad"] or a.show:
                    print("FAIL" if x["bad"] else "ok  ", x["kind"], "%s:%s" % (x["file"], x["line"]), x["function"], x["detail"])
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P["level"], "wall_s": round(wall, 2),
          "violations": len(viol),
          "coverage": {"obligations": total, "discharged": good, "checker_cmd": "python3 engine/check.py %s%s" % (pid, " --thorough" if a.thorough else ""),
                       "trusted_base": spec.TRUSTED + P.get("trusted", []),
                       "explanation": P["explain"], "rule": P["rule"],
                       "kinds": kinds, "tasks": tinfo, "functions_analysed": sorted(functions)[:400], "functions": len(functions),
                       "loops": loops, "reached": sorted(reached), "engine": stats, "externals": sorted(externals),
                       "known_findings": len(knownv)},
          "assumptions": P.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d discharged, %d functions, %d loops, %.1f s" % (pid, tier, total, good, len(functions), loops, wall))
    done = set()
    for name, x, kf in knownv:
        for f in kf:
            if f["id"] not in done:
                done.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for e in fatal:
        print("ANALYSIS-BROKEN: " + e, file=sys.stderr)
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for name, x, _ in viol:
                f.write("%s:%s: %s: rule %s not satisfied: %s [task %s]\n" % (x["file"], x["line"], x["function"], x["kind"], x["detail"], name))
                for p in x["path"]:
                    f.write("    via %s\n" % (p,))
        for name, x, _ in viol[:12]:
            print("  %s:%s: %s: %s: %s" % (x["file"], x["line"], x["function"], x["kind"], x["detail"]))
            for p in x["path"][:8]:
                print("      via %s" % (p,))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if fatal:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
