#!/usr/bin/env python3
"""quiet/run.py [name-substring ...]: apply behaviour-preserving edits to a scratch copy of /repo and run the checks on it.
Each edit is a list of (file, old, new); every check named must stay quiet."""
import os, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("edits", os.path.join(V, "quiet", "edits.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
pats = sys.argv[1:]
bad = 0
for name, checks, edits in m.EDITS:
    if pats and not any(p in name for p in pats): continue
    D = "/tmp/quietwork/%s.%d" % (name, os.getpid())
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree("/repo", D, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
    for f, old, new in edits:
        p = os.path.join(D, f); s = open(p).read()
        assert old in s, (name, f, old)
        open(p, "w").write(s.replace(old, new))
    for c in checks:
        r = subprocess.run([sys.executable, V + "/engine/check.py", c], env=dict(os.environ, VP_REPO=D), capture_output=True, text=True)
        last = [l for l in r.stdout.splitlines() if l][-1:] or ["?"]
        print("%-28s %s exit %d  %s" % (name, c, r.returncode, last[0][:90]), flush=True)
        if r.returncode:
            bad += 1
            lines = [l for l in (r.stdout + r.stderr).splitlines() if any(k in l for k in ("assert", "mem-", "analysis", "error", "rror:", "budget", "terminates"))]
            print("\n".join("      " + l[:200] for l in lines[:5]), flush=True)
    shutil.rmtree(D, ignore_errors=True)
print("ALARMS", bad)
