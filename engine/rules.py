"""Rules that are not value analyses: compile-fail witnesses, effect and call-graph rules."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import build


def rec(kind, file, line, function, ok, detail=""):
    return {"kind": kind, "file": file, "line": line, "function": function, "ok": int(ok), "bad": int(not ok), "detail": detail, "path": []}


def witnesses(task, tier):
    """one obligation per program: VP_OK programs must be accepted by the compiler, VP_BAD programs rejected"""
    src = os.path.join(build.VERIF, "drivers", task["driver"])
    with open(src) as f:
        text = f.read()
    inc = []
    for i in [x.replace("$REPO", build.REPO).replace("$VERIF", build.VERIF) for x in task.get("includes", ())] + [build.HERE, build.REPO]:
        inc += ["-I", i]

    def run(d):
        r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w"] + inc + list(task.get("flags", ())) + d + [src],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return r.returncode, r.stderr

    base = run([])
    if base[0]:
        raise build.BuildError("the witness file does not compile:\n" + base[1][-3000:])
    ids = []
    for m in re.finditer(r"VP_(OK|BAD) == (\d+)\n((?:    .*\n)+)", text):
        ids.append((m.group(1), int(m.group(2)), m.group(3).strip(), text[:m.start()].count("\n") + 2))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: run(["-DVP_%s=%d" % (x[0], x[1])]), ids))
    recs = []
    for (k, n, code, line), (rc, err) in zip(ids, res):
        ok = (rc == 0) if k == "OK" else (rc != 0)
        recs.append(rec("accepted" if k == "OK" else "rejected", "drivers/" + task["driver"], line, "program %s %d" % (k, n), ok,
                        ("must compile: " if k == "OK" else "must not compile: ") + code + ("" if ok or not err else " -- " + err.splitlines()[0])))
    return {"recs": recs, "functions": []}
