"""Compile /repo sources and a driver to IR and load it into the analyser."""
import hashlib
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout


def tools():
    """the two helper programs, built on demand"""
    os.makedirs(BUILD, exist_ok=True)

    def need(out, src):
        return not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src)
    a, b = os.path.join(BUILD, "irdump"), os.path.join(BUILD, "polyshim.so")
    s = os.path.join(HERE, "irdump.cpp")
    if need(a, s):
        t = a + ".%d" % os.getpid()
        sh(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/include/llvm-18", "-I/usr/lib/llvm-18/include", s, "-o", t,
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.replace(t, a)
    s = os.path.join(HERE, "polyshim.c")
    if need(b, s):
        t = b + ".%d" % os.getpid()
        sh(["gcc", "-O2", "-shared", "-fPIC", "-o", t, s, "/usr/lib/x86_64-linux-gnu/libisl.so.23"])
        os.replace(t, b)
    return a, b


FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-rtti", "-g", "-fno-threadsafe-statics", "-w",
         "-fno-access-control"]


def compile_ir(sources, out_json, includes=(), defines=(), workdir=None, public_only=True, extra=()):
    """sources: driver and /repo files; links them into one module and dumps it"""
    irdump, _ = tools()
    d = workdir or tempfile.mkdtemp(prefix="vp-ir-")
    bcs = []
    flags = [f for f in FLAGS if not (public_only and f == "-fno-access-control")] + list(extra)
    inc = []
    for i in list(includes) + [HERE, REPO]:
        inc += ["-I", i]
    df = ["-D" + x for x in defines]
    procs = []
    for i, s in enumerate(sources):
        bc = os.path.join(d, "%d.bc" % i)
        procs.append((s, subprocess.Popen(["clang++"] + flags + inc + df + ["-emit-llvm", "-c", s, "-o", bc], stdout=subprocess.PIPE,
                                          stderr=subprocess.PIPE, text=True)))
        bcs.append(bc)
    for s, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise BuildError("cannot compile %s\n%s" % (s, err[-4000:]))
    a, b = os.path.join(d, "all.bc"), os.path.join(d, "ssa.bc")
    sh(["llvm-link", "-o", a] + bcs)
    sh(["opt", "-passes=sroa", a, "-o", b])
    sh([irdump, b, out_json])
    return out_json
