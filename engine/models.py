"""Meaning of the driver vocabulary (vp.h), LLVM intrinsics and the few library functions the code relies on."""
import re

import poly as P
from poly import Lin, lin, sym, add, sub, scale, addc, ge, gt, eq, FALSE
from values import *

R = {}
RE = []


def model(*names):
    def d(f):
        for n in names:
            R[n] = f
        return f
    return d


def model_re(pat):
    def d(f):
        RE.append((re.compile(pat), f))
        return f
    return d


def cstr(an, p):
    """constant string a pointer refers to"""
    if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "g" and p.off.const:
        m = an.flat_init(p.obj[1])
        s = ""
        i = p.off.c
        while True:
            e = m.get(i)
            if e is None or e[1] == "z" or not e[1].lin.const or e[1].lin.c == 0:
                return s
            s += chr(e[1].lin.c & 255)
            i += 1
    return "?"


# ------------------------------------------------------------------ driver vocabulary
def nondet(w, signed):
    def f(an, fr, st, ins, args):
        return [(st, an.fresh_int(st, w, signed))]
    return f


for _w in (8, 16, 32, 64):
    R["vp_u%d" % _w] = nondet(_w, False)
    R["vp_i%d" % _w] = nondet(_w, True)


@model("vp_bool")
def vp_bool(an, fr, st, ins, args):
    return [(st, ANY)]


@model("vp_f32")
def vp_f32(an, fr, st, ins, args):
    return [(st, Flt(32, None))]


@model("vp_range")
def vp_range(an, fr, st, ins, args):
    out = []
    for s, lo in an.interp(st, args[0], 1):
        for s2, hi in an.interp(s, args[1], 1):
            n = sym(an.fresh())
            p = s2.poly.add_checked(ge(n, lo), ge(hi, n), ge(n), ge(lin((1 << 64) - 1), n))
            if p is not None:
                out.append((s2.fork(p), Int(64, n, None, 1)))
    return out


@model("vp_choose")
def vp_choose(an, fr, st, ins, args):
    n = args[0].lin
    return [(st.fork(), mkint(64, i)) for i in range(n.c)]


@model("vp_assume")
def vp_assume(an, fr, st, ins, args):
    return [(s, None) for s0, b in an.to_bool(st, args[0]) for s, t in an.split_bool(s0, b) if t]


@model("vp_split")
def vp_split(an, fr, st, ins, args):
    return [(s, None) for s0, b in an.to_bool(st, args[0]) for s, t in an.split_bool(s0, b)]


@model("vp_assert")
def vp_assert(an, fr, st, ins, args):
    out = []
    for s, b in an.to_bool(st, args[0]):
        out += an.oblige(fr, ins, s, "assert:" + cstr(an, args[1]), b, "may be false")
    return [(s, None) for s in out]


@model("vp_prove")
def vp_prove(an, fr, st, ins, args):
    out = []
    for s, b in an.to_bool(st, args[0]):
        an.oblige(fr, ins, s, "assert:" + cstr(an, args[1]), b, "may be false")
        out.append((s, None))
    return out


@model("vp_reach")
def vp_reach(an, fr, st, ins, args):
    an.record(fr, ins, "reach:" + cstr(an, args[0]), True)
    return [(st, None)]


def new_obj(an, fr, st, ins, n, base, kind, name):
    oid = ("h", fr.path, ins.get("uid", id(ins)))
    st.mem[oid] = Obj(n, (), base, False, (), kind, name)
    return Ptr(oid, lin(0))


def _alloc(base):
    def f(an, fr, st, ins, args):
        out = []
        for s, n in an.interp(st, args[0], 1):
            out.append((s, new_obj(an, fr, s, ins, n, base, "driver", "the region given by the caller")))
        return out
    return f


R["vp_alloc"] = _alloc("top")
R["vp_alloc_raw"] = _alloc(("tok", "unwritten"))


@model("vp_kill")
def vp_kill(an, fr, st, ins, args):
    if isinstance(args[0], Ptr) and args[0].obj is not None:
        st.mem.pop(args[0].obj, None)
    return [(st, None)]


@model("vp_freeze")
def vp_freeze(an, fr, st, ins, args):
    if isinstance(args[0], Ptr) and args[0].obj is not None:
        o = an.obj(st, args[0].obj)
        if o is not None:
            st.mem[args[0].obj] = o.upd(ro=True)
    return [(st, None)]


@model("vp_watch")
def vp_watch(an, fr, st, ins, args):
    p = args[0]
    o = an.obj(st, p.obj)
    if p.off in o.watch:
        return [(st, None)]
    out = []
    for s, v in an.read(st, p.obj, p.off, 1):
        o = s.mem[p.obj]
        s.mem[p.obj] = o.upd(watch=o.watch + (p.off,), entries=(("c", p.off, 1, v),) + o.entries)
        out.append((s, None))
    return out


@model("vp_written")
def vp_written(an, fr, st, ins, args):
    p = args[0]
    out = []
    for s, v in an.read(st, p.obj, p.off, 1):
        if isinstance(v, Tok):
            out.append((s, FALSEB if v.kind == "unwritten" else ANY))
        else:
            out.append((s, TRUE))
    return out


@model("vp_touch")
def vp_touch(an, fr, st, ins, args):
    out = []
    for s, n in an.interp(st, args[1], 1):
        out += an.access(fr, ins, s, args[0], n, False)
    return [(s, None) for s in out]


@model("vp_havoc")
def vp_havoc(an, fr, st, ins, args):
    out = []
    for s, n in an.interp(st, args[1], 1):
        for s2 in an.access(fr, ins, s, args[0], n, True):
            if isinstance(args[0], Ptr) and args[0].obj is not None:
                an.write_range(s2, args[0].obj, args[0].off, add(args[0].off, n), ("any",))
            out.append((s2, None))
    return out


@model("vp_pin")
def vp_pin(an, fr, st, ins, args):
    v = args[0]
    if isinstance(v, Int) and v.lin is not None and len(v.lin.t) == 1:
        an.pinned.add(v.lin.t[0][0])
    elif isinstance(v, Int) and v.lin is not None and v.lin.const:
        an.pinned_const.add(v.lin.c)
    return [(st, None)]


@model("vp_records")
def vp_records(an, fr, st, ins, args):
    p = args[0]
    o = an.obj(st, p.obj)
    st.mem[p.obj] = o.upd(chain=frozenset([("b", lin(0))]))
    return [(st, None)]


@model("vp_forget")
def vp_forget(an, fr, st, ins, args):
    p = args[0]
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.mem[p.obj]
        if o.base != ("tok", "unwritten") and not o.watch:
            st.mem[p.obj] = o.upd(entries=(), base="top")
    return [(st, None)]


@model("vp_same_object")
def vp_same_object(an, fr, st, ins, args):
    a, b = args
    return [(st, TRUE if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj else FALSEB)]


@model("vp_offset")
def vp_offset(an, fr, st, ins, args):
    p = args[0]
    if isinstance(p, Ptr):
        return [(st, Int(64, p.off, None, 0))]
    return [(st, an.fresh_int(st, 64))]


# ------------------------------------------------------------------ LLVM intrinsics
def no_overlap(an, fr, st, ins, d, s, nval):
    """memcpy's contract: the two blocks are disjoint (or the same, for assignments of whole objects)"""
    if not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.obj is None or d.obj != s.obj:
        return
    for s0, n in an.interp(st, nval, 1):
        k = sub(d.off, s.off)
        an.oblige(fr, ins, s0.fork(), "mem-overlap", bor(cmp_bool("eq", k, lin(0)), bor(cmp_bool("ge", k, n), cmp_bool("ge", scale(k, -1), n))),
                  "memcpy between overlapping blocks")


@model_re(r"llvm\.mem(cpy|move)(\.inline)?\.")
def llvm_memcpy(an, fr, st, ins, args):
    if ins["callee"][1].startswith("llvm.memcpy"):
        no_overlap(an, fr, st, ins, args[0], args[1], args[2])
    return [(s, None) for s in an.mem_copy(fr, ins, st, args[0], args[1], args[2])]


@model_re(r"llvm\.memset\.")
def llvm_memset(an, fr, st, ins, args):
    return [(s, None) for s in an.mem_set(fr, ins, st, args[0], args[1], args[2])]


@model("memcpy", "memmove")
def memcpy(an, fr, st, ins, args):
    if ins["callee"][1] == "memcpy":
        no_overlap(an, fr, st, ins, args[0], args[1], args[2])
    return [(s, args[0]) for s in an.mem_copy(fr, ins, st, args[0], args[1], args[2])]


@model("memset")
def memset(an, fr, st, ins, args):
    v = args[1]
    if isinstance(v, Int):
        v = an.trunc(v, 8) if v.w != 8 else v
    return [(s, args[0]) for s in an.mem_set(fr, ins, st, args[0], v, args[2])]


@model_re(r"llvm\.(lifetime|dbg|experimental\.noalias|donothing|var\.annotation|prefetch|stacksave|stackrestore)")
def llvm_nop(an, fr, st, ins, args):
    return [(st, TOP if "id" in ins else None)]


@model_re(r"llvm\.(va_start|va_end|va_copy)")
def llvm_va(an, fr, st, ins, args):
    return [(st, None)]


@model_re(r"llvm\.assume")
def llvm_assume(an, fr, st, ins, args):
    return [(st, None)]


@model_re(r"llvm\.expect\.")
def llvm_expect(an, fr, st, ins, args):
    return [(st, args[0])]


@model_re(r"llvm\.is\.constant")
def llvm_isconst(an, fr, st, ins, args):
    return [(st, FALSEB)]


@model_re(r"llvm\.(u?trap|ubsantrap)")
def llvm_trap(an, fr, st, ins, args):
    an.record(fr, ins, "abort", False, "trap may be reached")
    return []


@model_re(r"llvm\.(umin|umax|smin|smax)\.")
def llvm_minmax(an, fr, st, ins, args):
    name = ins["callee"][1].split(".")[1]
    sg = 1 if name[0] == "u" else 2
    out = []
    w = int(ins["ty"][1:])
    for s, a in an.interp(st, args[0], sg):
        for s2, b in an.interp(s, args[1], sg):
            for c, v in ((ge(b, a), a if "min" in name else b), (gt(a, b), b if "min" in name else a)):
                p = s2.poly.add_checked(c)
                if p is not None:
                    out.append((s2.fork(p), mkint(w, v.c) if v.const else Int(w, v, None, sg)))
    return out


@model_re(r"llvm\.abs\.")
def llvm_abs(an, fr, st, ins, args):
    out = []
    w = int(ins["ty"][1:])
    for s, a in an.interp(st, args[0], 2):
        for c, v in ((ge(a), a), (gt(scale(a, -1)), scale(a, -1))):
            p = s.poly.add_checked(c)
            if p is not None:
                out.append((s.fork(p), mkint(w, v.c) if v.const else Int(w, v, None, 1)))
    return out


@model_re(r"llvm\.(usub|uadd)\.sat\.")
def llvm_sat(an, fr, st, ins, args):
    sb = "usub" in ins["callee"][1]
    w = int(ins["ty"][1:])
    out = []
    for s, a in an.interp(st, args[0], 1):
        for s2, b in an.interp(s, args[1], 1):
            r = sub(a, b) if sb else add(a, b)
            lim = lin(0) if sb else lin((1 << w) - 1)
            for c, v in ((ge(r, lim) if sb else ge(lim, r), r), (gt(lim, r) if sb else gt(r, lim), lim)):
                p = s2.poly.add_checked(c)
                if p is not None:
                    out.append((s2.fork(p), mkint(w, v.c) if v.const else Int(w, v, None, 1)))
    return out


@model_re(r"llvm\.bswap\.")
def llvm_bswap(an, fr, st, ins, args):
    w = int(ins["ty"][1:])
    v = args[0]
    if not isinstance(v, Int) or v.b is not None:
        return [(st, an.fresh_int(st, w))]
    b = an.bits(v)
    out = []
    for i in range(w // 8 - 1, -1, -1):
        out += b[8 * i:8 * i + 8]
    return [(st, an.from_bits(out))]


@model_re(r"llvm\.(ctlz|cttz|ctpop)\.")
def llvm_ct(an, fr, st, ins, args):
    w = int(ins["ty"][1:])
    return [(st, Int(w, an.fresh_lin(st, 0, w), None, 3))]


@model_re(r"llvm\.(fabs|floor|ceil|sqrt|fmuladd|minnum|maxnum|copysign|round|trunc|rint|nearbyint)\.")
def llvm_flt(an, fr, st, ins, args):
    return [(st, Flt(int(ins["ty"][1:])))]


@model("fabsf", "floorf", "ceilf", "roundf", "truncf", "sqrtf", "fmodf", "powf")
def libm_f(an, fr, st, ins, args):
    return [(st, Flt(32))]


@model("fabs", "floor", "ceil", "round", "trunc", "sqrt", "fmod", "pow")
def libm_d(an, fr, st, ins, args):
    return [(st, Flt(64))]


# ------------------------------------------------------------------ C library
@model("memcmp", "bcmp")
def memcmp(an, fr, st, ins, args):
    a, b, nv = args
    out = []
    for s0, n in an.interp(st, nv, 1):
        if not n.const and an.opt.get("cmp", True):
            lo, hi = s0.poly.bounds(n)
            if lo is not None and hi is not None and hi - lo <= an.opt["split"]:
                for c in range(lo, hi + 1):
                    p = s0.poly.add_checked(eq(n, lin(c)))
                    if p is not None:
                        out += _memcmp(an, fr, s0.fork(p), ins, a, b, lin(c))
                continue
        out += _memcmp(an, fr, s0, ins, a, b, n)
    return out


def _memcmp(an, fr, st, ins, a, b, n):
    out = []
    for s in an.access(fr, ins, st, a, n, False):
        for s1 in an.access(fr, ins, s, b, n, False):
            if n.const and n.c == 0:
                out.append((s1, mkint(32, 0)))
                continue
            if not n.const or n.c > 64 or not an.opt.get("cmp", True) or not isinstance(a, Ptr) or not isinstance(b, Ptr):
                out.append((s1, an.fresh_int(s1, 32, True)))
                continue
            # equal iff every byte is; the sign is left open
            work = [(s1, [], [])]
            for pn in (pieces(n.c) if n.c > 4 else [(i, 1) for i in range(n.c)]):
                nw = []
                for s2, xs, ys in work:
                    for s3, x in an.read(s2, a.obj, addc(a.off, pn[0]), pn[1]):
                        for s4, y in an.read(s3, b.obj, addc(b.off, pn[0]), pn[1]):
                            nw.append((s4, xs + [x], ys + [y]))
                work = nw
            for s2, xs, ys in work:
                todo = [(s2, TRUE)]
                for x, y in zip(xs, ys):
                    w = x.w if isinstance(x, Int) else y.w if isinstance(y, Int) else 8
                    nt = []
                    for s3, acc in todo:
                        if acc == FALSEB:
                            nt.append((s3, acc))
                            continue
                        x2 = x if isinstance(x, Int) else an.fresh_int(s3, w)
                        y2 = y if isinstance(y, Int) else an.fresh_int(s3, w)
                        for s4, e in an.compare(s3, x2, y2, "eq", 1):
                            if not any(s4.poly.add_checked(*c) is not None for c in e.t):
                                e = FALSEB
                            elif not any(s4.poly.add_checked(*c) is not None for c in e.f):
                                e = TRUE
                            nt.append((s4, band(acc, e)))
                    todo = nt
                for s3, e in todo:
                    if e.t == ():
                        e = FALSEB
                    elif len(e.f) > 2:
                        # "some byte differs" is not refined: one state instead of two per byte
                        e = Bool(e.t, ((),))
                    for s4, t in an.split_bool(s3, e):
                        if t:
                            out.append((s4, mkint(32, 0)))
                        else:
                            v = an.fresh_lin(s4, -255, 255)
                            for c in (gt(v), gt(scale(v, -1))):
                                p = s4.poly.add_checked(c)
                                if p is not None:
                                    out.append((s4.fork(p), Int(32, v, None, 2)))
    return out


def pieces(n):
    out, i = [], 0
    while i < n:
        k = 8
        while i + k > n or i % k:
            k //= 2
        out.append((i, k))
        i += k
    return out


@model("strlen")
def strlen(an, fr, st, ins, args):
    p = args[0]
    if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "g" and p.off.const and an.obj(st, p.obj).ro:
        return [(st, mkint(64, len(cstr(an, p))))]
    # concrete prefix: walk bytes while they are decided
    return string_scan(an, fr, st, ins, p, None)


@model("strnlen")
def strnlen(an, fr, st, ins, args):
    out = []
    for s, n in an.interp(st, args[1], 1):
        out += string_scan(an, fr, s, ins, args[0], n)
    return out


def string_scan(an, fr, st, ins, p, limit):
    """length of the string at p, at most limit: the bytes before it are non-zero, the byte at it is zero"""
    if not isinstance(p, Ptr) or p.obj is None:
        an.record(fr, ins, "mem-read", False, "string read through an invalid pointer")
        return []
    o = an.obj(st, p.obj)
    if o is None:
        an.record(fr, ins, "mem-read", False, "string read through a dangling pointer")
        return []
    room = sub(o.size, p.off)
    out = []
    lo, hi = st.poly.bounds(room)
    ln = None
    if limit is not None:
        l2, h2 = st.poly.bounds(limit)
        hi = h2 if hi is None or h2 is not None and h2 < hi else hi
    if hi is not None and hi <= 16:
        work = [st]
        for i in range(hi + 1):
            nw = []
            for s in work:
                if limit is not None:
                    q = s.poly.add_checked(ge(lin(i), limit))
                    if q is not None:
                        out.append((s.fork(q), mkint(64, i)))
                    q = s.poly.add_checked(gt(limit, lin(i)))
                    if q is None:
                        continue
                    s = s.fork(q)
                for s1 in an.access(fr, ins, s, Ptr(p.obj, addc(p.off, i)), 1, False):
                    for s2, v in an.read(s1, p.obj, addc(p.off, i), 1):
                        for s3, b in an.to_bool(s2, v if isinstance(v, Int) else an.fresh_int(s2, 8)):
                            for s4, t in an.split_bool(s3, b):
                                if t:
                                    nw.append(s4)
                                else:
                                    out.append((s4, mkint(64, i)))
            work = nw
        return out
    n = sym(an.fresh())
    ks = [ge(n), ge(lin(1 << 62), n)]
    if limit is not None:
        ks.append(ge(limit, n))
    # a zero byte behind the start ends the string
    end = False
    watched = []
    for e in o.entries:
        if e[0] != "c" or e[2] != 1 or not isinstance(e[3], Int) or not st.poly.entails(ge(e[1], p.off)):
            continue
        if e[3].lin is not None and e[3].lin.const and e[3].lin.c == 0:
            r = an.read(st.fork(), p.obj, e[1], 1)
            if len(r) == 1 and isinstance(r[0][1], Int) and r[0][1].lin is not None and r[0][1].lin.const and r[0][1].lin.c == 0:
                end = True
                ks.append(ge(sub(e[1], p.off), n))
        elif e[1] in o.watch:
            watched.append((e[1], e[3]))
    # a run of equal non-zero bytes at the start is part of it
    for e in o.entries:
        if e[0] == "c":
            continue
        if e[0] == "r" and e[3][0] == "set" and isinstance(e[3][1], Int) and e[3][1].lin is not None and st.poly.entails(ge(p.off, e[1])) and st.poly.entails(ge(e[2], p.off)):
            v = e[3][1].lin
            newer = o.entries[:o.entries.index(e)]
            if st.poly.entails(gt(v)) and all(st.poly.entails(ge(x[1], e[2])) for x in newer):
                ks.append(ge(add(n, p.off), e[2]) if limit is None else ge(n))
        break
    if o.name != "zstr" and not end:
        an.record(fr, ins, "mem-read", st.poly.entails(ge(room, limit)) if limit is not None else False,
                  "string may not be terminated inside %s" % (o.name or o.kind))
    ks.append(ge(sub(room, n), lin(0 if limit is not None else 1)))
    if limit is None and watched and len(watched) == 1 and watched[0][1].lin is not None:
        off, v = watched[0]
        for more in ([ge(sub(off, p.off), n)], [gt(add(n, p.off), off), ge(v.lin, lin(1))], [gt(add(n, p.off), off), ge(lin(-1), v.lin)]):
            q = st.poly.add_checked(*(ks + more))
            if q is not None:
                out.append((st.fork(q), Int(64, n, None, 3)))
        return out
    q = st.poly.add_checked(*ks)
    if q is not None:
        out.append((st.fork(q), Int(64, n, None, 3)))
    return out


@model("memchr")
def memchr(an, fr, st, ins, args):
    out = []
    p = args[0]
    for s, n in an.interp(st, args[2], 1):
        for s1 in an.access(fr, ins, s, p, n, False):
            k = sym(an.fresh())
            q = s1.poly.add_checked(ge(k), gt(n, k))
            if q is not None and isinstance(p, Ptr):
                out.append((s1.fork(q), Ptr(p.obj, add(p.off, k))))
            out.append((s1, NULL))
    return out


@model("abs", "labs", "llabs")
def c_abs(an, fr, st, ins, args):
    return llvm_abs(an, fr, st, ins, args)


@model("abort", "exit", "_exit", "quick_exit", "_ZSt9terminatev")
def c_abort(an, fr, st, ins, args):
    an.record(fr, ins, "abort", False, "%s may be reached" % ins["callee"][1])
    return []


@model_re(r"std::(__throw_|__glibcxx_assert_fail)|__cxa_(throw|rethrow|bad_cast|pure_virtual)|__assert_fail|__stack_chk_fail")
def cxx_throw(an, fr, st, ins, args):
    an.record(fr, ins, "abort", False, "%s may be reached" % ins["callee"][1])
    return []


@model("__cxa_atexit", "atexit", "__cxa_guard_release", "__cxa_guard_abort")
def c_nop0(an, fr, st, ins, args):
    return [(st, mkint(32, 0) if "id" in ins else None)]


@model("__cxa_guard_acquire")
def guard(an, fr, st, ins, args):
    # first use or not is decided by the guard byte
    p = args[0]
    out = []
    for s, v in an.read(st, p.obj, p.off, 1):
        for s2, b in an.to_bool(s, v):
            for s3, t in an.split_bool(s2, b):
                if not t:
                    an.write(s3, p.obj, p.off, 1, mkint(8, 1))
                out.append((s3, mkint(32, 0 if t else 1)))
    return out


@model("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def op_new(an, fr, st, ins, args):
    out = []
    for s, n in an.interp(st, args[0], 1):
        an.record(fr, ins, "heap", False, "heap allocation")
        oid = ("h", fr.path, ins.get("uid", id(ins)))
        if oid in s.mem:
            oid = ("h2",) + oid
        s.mem[oid] = Obj(n, (), "top", False, (), "heap", "heap block")
        out.append((s, Ptr(oid, lin(0))))
        if ins["callee"][1] in ("malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
            s2 = s.fork()
            s2.mem.pop(oid)
            out.append((s2, NULL))
    return out


@model("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def op_delete(an, fr, st, ins, args):
    p = args[0]
    if isinstance(p, Ptr) and p.obj is None:
        return [(st, None)]
    if isinstance(p, Ptr):
        o = st.mem.get(p.obj)
        ok = o is not None and o.kind in ("heap", "driver") and p.off.const and p.off.c == 0
        an.record(fr, ins, "free", ok, "delete of something not allocated, or a second delete")
        if not ok:
            return []
        st.mem.pop(p.obj, None)
    else:
        an.record(fr, ins, "free", False, "delete of an unknown pointer")
    return [(st, None)]


# ------------------------------------------------------------------ std::to_chars for integers (its contract)
INTS = {"int": (32, 2, 11), "unsigned int": (32, 1, 10), "long": (64, 2, 20), "unsigned long": (64, 1, 20),
        "long long": (64, 2, 20), "unsigned long long": (64, 1, 20), "short": (16, 2, 6), "unsigned short": (16, 1, 5),
        "signed char": (8, 2, 4), "unsigned char": (8, 1, 3), "char": (8, 2, 4)}


@model_re(r"(?:std::to_chars_result )?std::to_chars(?:<[^(]*>)?\(char\*, char\*, (?:%s)(?:, int)?\)" % "|".join(sorted(INTS, key=len, reverse=True)))
def to_chars(an, fr, st, ins, args):
    name = ins["callee"][1]
    dem = an.m.funcs[name].dem
    ty = re.search(r"\(char\*, char\*, ([a-z ]+?)(?:, int)?\)", dem).group(1)
    w, sg, mx = INTS[ty]
    base = 10
    if len(args) > 3:
        b = args[3]
        if not (isinstance(b, Int) and b.lin is not None and b.lin.const):
            return NotImplemented
        base = b.lin.c
        if base != 10:
            mx = w + 1
    first, last = args[0], args[1]
    out = []
    if not isinstance(first, Ptr) or not isinstance(last, Ptr) or first.obj != last.obj:
        an.record(fr, ins, "mem-write", False, "to_chars range is not inside one object")
        return []
    room = sub(last.off, first.off)
    # [first, last) must be a valid range of one object
    for s in an.access(fr, ins, st, first, room, True):
        q = s.poly.add_checked(ge(room))
        if s.poly.add_checked(gt(scale(room, -1))) is not None:
            an.record(fr, ins, "mem-write", False, "to_chars: the range may be inverted")
        else:
            an.record(fr, ins, "mem-write", True)
        if q is None:
            continue
        s = s.fork(q)
        for s1, v in an.interp(s, args[2], sg):
            if v.const:
                d, c = 1, abs(v.c)
                while c >= base:
                    c //= base
                    d += 1
                L = lin(d + (1 if v.c < 0 else 0))
                key = ("txt", v, base)
            else:
                k = ("len", v, base)
                n = an.fd.get(k)
                if n is None:
                    n = an.fd[k] = an.fresh()
                L = sym(n)
                s1.poly = s1.poly.add(ge(L, lin(1)), ge(lin(mx), L))
                key = ("txt", v, base)
            if key not in s1.mem:
                s1.mem[key] = Obj(L, (), "top", True, (), "text", "digits")
            fit = s1.poly.add_checked(ge(room, L))
            short = s1.poly.add_checked(gt(L, room))
            if fit is not None:
                s2 = s1.fork(fit)
                an.write_range(s2, first.obj, first.off, add(first.off, L), ("alias", key, scale(first.off, -1)))
                an.on_write(fr, ins, s2, first, L)
                out.append((s2, Agg([Ptr(first.obj, add(first.off, L)), mkint(32, 0)])))
            if short is not None:
                s2 = s1.fork(short)
                if first.obj is not None:
                    an.write_range(s2, first.obj, first.off, last.off, ("tok", "unspecified"))
                    an.on_write(fr, ins, s2, first, room)
                out.append((s2, Agg([last, mkint(32, 75)])))
    return out


def install(an):
    an.models = dict(R)
    an.models["__re__"] = RE
