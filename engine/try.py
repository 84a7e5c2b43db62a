import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, poly, absint, models
irdump, shim = build.tools()
poly.load(shim)
def go(sources, fn, trace=0, includes=(), defines=(), **opt):
    js = build.compile_ir(sources, "/tmp/w/o%d.json" % os.getpid(), includes=includes, defines=defines)
    m = absint.Module(js)
    an = absint.Analysis(m, trace=trace, **opt)
    models.install(an)
    t = time.time()
    try:
        out = an.run(fn)
        print("returned states", len(out))
    except absint.Broken as e:
        print("BROKEN", e)
    except absint.Budget as e:
        print("BUDGET", e)
    for k, (ok, bad, d) in sorted(an.rec[0].items()):
        print("FAIL" if bad else "ok  ", k[0], "%s:%s" % (os.path.basename(k[1] or '?'), k[2]), k[3], ok, bad, d or "")
    print("%.1fs" % (time.time() - t), an.stats, poly.STATS)
    return an
if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("src", nargs="+"); a.add_argument("--fn", default="drv"); a.add_argument("--trace", type=int, default=0)
    a.add_argument("-o", action="append", default=[]); a.add_argument("-I", action="append", default=[]); a.add_argument("-D", action="append", default=[])
    a.add_argument("--prof", action="store_true")
    x = a.parse_args()
    opt = {k: eval(v) for k, v in (o.split("=") for o in x.o)}
    if x.prof:
        import cProfile, pstats
        cProfile.run("go(x.src, x.fn, x.trace, x.I, x.D, **opt)", "/tmp/w/prof")
        pstats.Stats("/tmp/w/prof").sort_stats("cumtime").print_stats(35)
    else:
        go(x.src, x.fn, x.trace, x.I, x.D, **opt)
