"""Relational abstract interpreter over LLVM IR.

State = SSA registers x memory objects x convex polyhedron over the integer symbols they mention.  Loops are solved by
fixpoint iteration with joins (convex hull), widening and narrowing; calls are analysed in context.  Nothing is executed:
every instruction is an abstract transformer, and an obligation is discharged only if the negation of its condition is
empty in every abstract state that reaches it."""
import json
import os
import re
import sys
import time
from math import gcd

import poly as P
from poly import Lin, lin, sym, add, sub, scale, addc, norm, ge, gt, eq, FALSE, Poly, subst
from values import *

sys.setrecursionlimit(20000)


class Broken(Exception):
    """the analysis itself cannot give an answer"""


class Budget(Exception):
    pass


class Func:
    pass


TERMS = ("br", "switch", "ret", "unreachable", "invoke", "resume")


def _uses(ins, f):
    op = ins["op"]

    def u(o):
        if o[0] == "l":
            f(o[1])
    if op == "phi":
        return
    for o in ins.get("ops", ()):
        u(o)
    if "cond" in ins:
        u(ins["cond"])
    if "callee" in ins:
        u(ins["callee"])
    if "count" in ins:
        u(ins["count"])
    for v in ins.get("vars", ()):
        u(v[0])


def build_func(name, j):
    fn = Func()
    fn.name = name
    fn.dem = j["dem"]
    fn.short = re.sub(r"\(.*", "", fn.dem)
    fn.args = j["args"]
    fn.ret = j["ret"]
    fn.file = j.get("file", "")
    fn.line = j.get("line", 0)
    fn.noreturn = j.get("noreturn", False)
    fn.nounwind = j.get("nounwind", False)
    fn.vararg = j.get("vararg", False)
    fn.blocks = j.get("blocks")
    for b, blk in enumerate(fn.blocks or ()):
        for i, ins in enumerate(blk):
            if ins["op"] == "call":
                ins["uid"] = (b, i)
    fn.ready = False
    return fn


def prepare(fn):
    """successors, liveness, weak topological order"""
    if fn.ready:
        return
    n = len(fn.blocks)
    fn.succ = []
    for b in fn.blocks:
        t = b[-1]
        if t["op"] == "br":
            s = list(dict.fromkeys(t["succ"]))
        elif t["op"] == "switch":
            s = list(dict.fromkeys([t["default"]] + [c[1] for c in t["cases"]]))
        elif t["op"] == "invoke":
            s = [t["normal"], t["unwind"]]
        else:
            s = []
        fn.succ.append(s)
    fn.pred = [[] for _ in range(n)]
    for b, s in enumerate(fn.succ):
        for x in s:
            fn.pred[x].append(b)
    fn.phis = []
    fn.body = []
    for b in fn.blocks:
        k = 0
        while b[k]["op"] == "phi":
            k += 1
        fn.phis.append([(i["id"], {p: o for p, o in i["inc"]}, i["ty"]) for i in b[:k]])
        fn.body.append(b[k:])
    # zero extensions that only serve to pack a value into a wider one
    packing = {}
    for b in fn.body:
        for ins in b:
            if ins["op"] == "zext" and ins["ops"][0][0] == "l":
                packing[ins["id"]] = ins
    for b in fn.blocks:
        for ins in b:
            if ins["op"] == "phi":
                for _, o in ins["inc"]:
                    if o[0] == "l":
                        packing.pop(o[1], None)
            elif ins["op"] not in ("or", "shl"):
                _uses(ins, lambda x: packing.pop(x, None))
    for ins in packing.values():
        ins["packing"] = True
    # zero extensions whose bits are combined with other bits
    zexts = {ins["id"]: ins for b in fn.body for ins in b if ins["op"] == "zext"}
    for b in fn.body:      # a right shift passes on the bits of what it shifts
        for ins in b:
            if ins["op"] in ("lshr", "ashr") and ins["ops"][0][0] == "l" and ins["ops"][0][1] in zexts:
                zexts[ins["id"]] = zexts[ins["ops"][0][1]]
    for b in fn.body:
        for ins in b:
            if ins["op"] in ("or", "shl", "xor"):
                _uses(ins, lambda x: zexts[x].update(bitsy=True) if x in zexts else None)
    # liveness
    use, dfs = [], []
    for b in fn.body:
        u, d = set(), set()
        for ins in b:
            _uses(ins, lambda x: u.add(x) if x not in d else None)
            if "id" in ins:
                d.add(ins["id"])
        use.append(u)
        dfs.append(d)
    live_in = [set() for _ in range(n)]    # at block start, after phis (phi results included if used)
    live_out = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in fn.succ[b]:
                ph = fn.phis[s]
                o |= live_in[s] - {p[0] for p in ph}
                for _, inc, _ in ph:
                    v = inc.get(b)
                    if v is not None and v[0] == "l":
                        o.add(v[1])
            i = use[b] | (o - dfs[b])
            if o != live_out[b] or i != live_in[b]:
                live_out[b], live_in[b] = o, i
                changed = True
    fn.live_in, fn.live_out = live_in, live_out
    # live after each instruction, per block (lazily)
    fn.after = {}
    # reverse post order
    order, seen = [], set()

    def dfs_(b):
        stack = [(b, iter(fn.succ[b]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.succ[s])))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs_(0)
    rpo = list(reversed(order))
    pos = {b: i for i, b in enumerate(rpo)}

    def sccs(nodes, removed):
        nodes = [x for x in nodes if x not in removed]
        ns = set(nodes)
        idx, low, onst, st, out, cnt = {}, {}, set(), [], [], [0]

        def strong(v):
            work = [(v, iter([s for s in fn.succ[v] if s in ns]))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            onst.add(v)
            while work:
                x, it = work[-1]
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = cnt[0]
                        cnt[0] += 1
                        st.append(s)
                        onst.add(s)
                        work.append((s, iter([q for q in fn.succ[s] if q in ns])))
                        break
                    elif s in onst:
                        low[x] = min(low[x], idx[s])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[x])
                    if low[x] == idx[x]:
                        comp = []
                        while True:
                            y = st.pop()
                            onst.discard(y)
                            comp.append(y)
                            if y == x:
                                break
                        out.append(comp)
        for v in nodes:
            if v not in idx:
                strong(v)
        out.reverse()
        return out

    def wto(nodes):
        res = []
        for comp in sccs(sorted(nodes, key=lambda b: pos[b]), set()):
            if len(comp) == 1 and comp[0] not in fn.succ[comp[0]]:
                res.append(comp[0])
                continue
            head = min(comp, key=lambda b: pos[b])
            rest = set(comp) - {head}
            res.append((head, wto_without(rest, comp)))
        return res

    def wto_without(rest, comp):
        return wto(rest) if rest else []
    fn.wto = wto(set(rpo))
    fn.ready = True


def live_after(fn, b, i):
    """registers live after instruction i of body b"""
    k = (b, i)
    r = fn.after.get(k)
    if r is None:
        live = set(fn.live_out[b])
        body = fn.body[b]
        res = {}
        for q in range(len(body) - 1, -1, -1):
            res[q] = frozenset(live)
            ins = body[q]
            live.discard(ins.get("id"))
            _uses(ins, live.add)
        for q, v in res.items():
            fn.after[(b, q)] = v
        r = fn.after[k]
    return r


class State:
    __slots__ = ("poly", "regs", "mem")

    def __init__(self, poly_, regs, mem):
        self.poly = poly_
        self.regs = regs
        self.mem = mem

    def fork(self, poly_=None):
        return State(poly_ if poly_ is not None else self.poly, dict(self.regs), dict(self.mem))


class Frame:
    __slots__ = ("fn", "path", "stack", "keep", "allocas", "depth", "ret")

    def __init__(self, fn, path, stack, keep, depth):
        self.fn = fn
        self.path = path
        self.stack = stack
        self.keep = keep
        self.allocas = set()
        self.depth = depth
        self.ret = []


class Module:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.globals = j["globals"]
        self.funcs = {n: build_func(n, x) for n, x in j["funcs"].items()}
        self.ctors = j.get("ctors", [])


MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64)}


def tsize(t):
    if isinstance(t, str):
        if t[0] == "i":
            return (int(t[1:]) + 7) // 8
        return {"p": 8, "f32": 4, "f64": 8}.get(t, 16)
    return t[1]


class Analysis:
    def __init__(self, module, **opt):
        self.m = module
        self.n = 0
        self.opt = dict(entry=0, max_unroll=400, max_iters=40, max_states=24, merge_at=6, table_split=8, max_depth=60,
                        recursion=6, delay=2, peel=1, budget=600.0, split=8, check_term=False, exact=True, max_split=40)
        self.opt.update(opt)
        self.fd = {}
        self.rec = [{}]
        self.pinned = set()
        self.pinned_const = set()
        self.rounds = 0
        self.t0 = time.process_time()
        self.stats = {"instructions": 0, "calls": 0, "loops": 0, "joins": 0, "widenings": 0}
        self.functions = set()
        self.sites = set()
        self.loops_seen = set()
        self.ginit = {}
        self.base_syms = {}
        self.sym_base = {}
        self.models = {}
        self.model_cache = {}
        self.trace = opt.get("trace", False)
        self.force = False      # a loop that does not settle gives up what it knows at symbolic places
        self.externals = set()
        self.H = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith("i_")}

    # ---------------------------------------------------------------- symbols
    def fresh(self):
        self.n += 1
        return self.n

    def fresh_lin(self, st, lo=None, hi=None):
        s = sym(self.fresh())
        ks = []
        if lo is not None:
            ks.append(ge(s, lin(lo)))
        if hi is not None:
            ks.append(ge(lin(hi), s))
        if ks:
            st.poly = st.poly.add(*ks)
        return s

    def fresh_int(self, st, w, signed=False):
        if w == 1:
            return ANY
        if signed:
            return Int(w, self.fresh_lin(st, -(1 << (w - 1)), (1 << (w - 1)) - 1), None, 2)
        return Int(w, self.fresh_lin(st, 0, (1 << w) - 1), None, 1)

    def floordiv(self, st, L, d):
        """floor(L / d) for a positive constant d"""
        if d == 1:
            return L
        if L.const:
            return lin(L.c // d)
        X = tuple((v, q // d) for v, q in L.t if q // d)
        R = tuple((v, q % d) for v, q in L.t if q % d)
        base = Lin(X, L.c // d)
        rc = L.c % d
        if not R:
            return base
        g = d
        for _, q in R:
            g = gcd(g, q)
        Rl = Lin(tuple((v, q // g) for v, q in R), rc // g)
        d //= g
        if d == 1:
            return add(base, Rl)
        k = (Rl, d)
        s = self.fd.get(k)
        if s is None:
            s = self.fd[k] = self.fresh()
        q = sym(s)
        r = sub(Rl, scale(q, d))
        st.poly = st.poly.add(ge(r), ge(lin(d - 1), r))
        return add(base, q)

    def extract(self, st, L, i, n):
        """bits i .. i+n-1 of L as an unsigned number"""
        q = self.floordiv(st, L, 1 << i)
        h = self.floordiv(st, q, 1 << n)
        return sub(q, scale(h, 1 << n))

    # ---------------------------------------------------------------- integers
    def bits(self, v):
        if v.bits is None:
            if v.lin.const:
                v.bits = tuple((v.lin.c >> i) & 1 for i in range(v.w))
            else:
                L, k = v.lin, 0
                g = 0
                for _, q in L.t:
                    g = gcd(g, q)
                g = gcd(g, L.c)
                while not (g >> k) & 1 and k < v.w:
                    k += 1
                if k:
                    L = Lin(tuple((s, q >> k) for s, q in L.t), L.c >> k)
                v.bits = (0,) * k + tuple((L, i) for i in range(v.w - k))
        return v.bits

    def from_bits(self, bits):
        bits = tuple(bits)
        w = len(bits)
        if all(isinstance(b, int) for b in bits):
            return mkint(w, sum(b << i for i, b in enumerate(bits)))
        L = bits[0][0] if not isinstance(bits[0], int) else None
        if L is not None and all(not isinstance(b, int) and b[1] == i and b[0] == L for i, b in enumerate(bits)):
            return Int(w, L, bits, 0)
        return Int(w, None, bits, 0)

    def mat(self, st, v):
        """make sure v.lin exists (v must not carry b)"""
        if v.lin is not None:
            return v
        total = lin(0)
        i = 0
        bits = v.bits
        w = v.w
        while i < w:
            b = bits[i]
            if isinstance(b, int):
                if b:
                    total = addc(total, 1 << i)
                i += 1
                continue
            L, k = b
            n = 1
            while i + n < w and not isinstance(bits[i + n], int) and bits[i + n][0] == L and bits[i + n][1] == k + n:
                n += 1
            total = add(total, self.extract(st, L, k, n), 1 << i)
            i += n
        hint = 1
        if isinstance(bits[-1], int) and bits[-1] == 0:
            hint = 3
        return Int(w, total, bits, hint)

    def interp(self, st, v, sg):
        """list of (state, exact value as Lin); sg: 1 unsigned, 2 signed"""
        if not isinstance(v, Int):
            v2 = self.as_int(st, v, 64)
            if v2 is None:
                return [(st, self.fresh_lin(st, 0, MASK[64]) if sg == 1 else self.fresh_lin(st, -(1 << 63), (1 << 63) - 1))]
            v = v2
        if v.b is not None:
            out = []
            for s, val in self.split_bool(st, v.b):
                out.append((s, lin(1 if val else 0)) if not (sg == 2 and v.w == 1) else (s, lin(-1 if val else 0)))
            return out
        w = v.w
        if v.lin is None:
            v = self.mat(st, v)
        L = v.lin
        if L.const:
            c = L.c & ((1 << w) - 1)
            if sg == 2 and c >> (w - 1):
                c -= 1 << w
            return [(st, lin(c))]
        if v.hint & sg:
            return [(st, L)]
        M = 1 << w
        half = 0 if sg == 1 else M >> 1
        # the other interpretation may be known exactly
        lo, hi = st.poly.bounds(L)
        if lo is None and v.hint:
            # exact in the other window: at most two windows
            o = v.hint & 3
            if o == 2:
                lo, hi = (-(M >> 1) if lo is None else lo), ((M >> 1) - 1 if hi is None else hi)
                st.poly = st.poly.add(ge(L, lin(-(M >> 1))), ge(lin((M >> 1) - 1), L))
            else:
                lo, hi = 0, (M - 1 if hi is None else hi)
                st.poly = st.poly.add(ge(L), ge(lin(M - 1), L))
        elif v.hint and hi is None:
            hi = (M >> 1) - 1 if v.hint & 2 else M - 1
            st.poly = st.poly.add(ge(lin(hi), L))
        if lo is not None and hi is not None:
            a, b = (lo + half) // M, (hi + half) // M
            if a == b:
                return [(st, addc(L, -a * M))]
            if b - a <= 3:
                out = []
                for k in range(a, b + 1):
                    E = addc(L, -k * M)
                    p = st.poly.add_checked(ge(addc(E, half)), ge(lin(M - 1 - half), E))
                    if p is not None:
                        out.append((st.fork(p), E))
                return out
        q = self.floordiv(st, addc(L, half), M)
        return [(st, sub(L, scale(q, M)))]

    def add_window(self, st, v):
        """a hint is a fact: record its window"""
        if v.lin is not None and not v.lin.const and v.hint:
            M = 1 << v.w
            if v.hint & 1:
                st.poly = st.poly.add(ge(v.lin), ge(lin(M - 1), v.lin))
            if v.hint & 2:
                st.poly = st.poly.add(ge(v.lin, lin(-(M >> 1))), ge(lin((M >> 1) - 1), v.lin))

    def as_int(self, st, v, w):
        """reinterpret a value as an integer of w bits; None if impossible"""
        if isinstance(v, Int):
            return v
        if isinstance(v, Bool):
            return Int(w if w else 1, None, None, 3, v)
        if isinstance(v, Ptr):
            if v.obj is None:
                return Int(64, v.off, None, 0)
            k = v.obj
            s = self.base_syms.get(k)
            if s is None:
                s = self.base_syms[k] = self.fresh()
                self.sym_base[s] = k
            st.poly = st.poly.add(ge(sym(s), lin(1)), ge(lin((1 << 62)), sym(s)))
            return Int(64, add(sym(s), v.off), None, 0)
        if isinstance(v, Flt):
            if v.raw is not None:
                return v.raw
            return self.fresh_int(st, v.w)
        return None

    def to_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Int) and v.lin is not None:
            if v.lin.const and v.lin.c == 0:
                return NULL
            bs = [(s, q) for s, q in v.lin.t if s in self.sym_base]
            if len(bs) == 1 and bs[0][1] == 1:
                return Ptr(self.sym_base[bs[0][0]], sub(v.lin, sym(bs[0][0])))
        return TOP

    # ---------------------------------------------------------------- booleans
    def split_bool(self, st, b):
        """list of (state, truth)"""
        if b.f == () and b.t == ((),):
            return [(st, True)]
        if b.t == () and b.f == ((),):
            return [(st, False)]
        out = []
        for val, als in ((True, b.t), (False, b.f)):
            for a in als:
                p = st.poly.add_checked(*a)
                if p is not None:
                    out.append((st.fork(p), val))
        return out

    def simp_bool(self, st, b):
        """constant if the state decides it"""
        if b is ANY or b.t == () or b.f == ():
            if b.t == () and b.f != () or b.f == () and b.t != ():
                return TRUE if b.t else FALSEB
            return b
        return b

    def to_bool(self, st, v):
        """list of (state, Bool) for v != 0"""
        if isinstance(v, Bool):
            return [(st, v)]
        if isinstance(v, Int):
            if v.b is not None:
                return [(st, v.b)]
            out = []
            for s, L in self.interp(st, v, 1):
                if L.const:
                    out.append((s, TRUE if L.c else FALSEB))
                else:
                    out.append((s, Bool(alts((gt(L),)), alts((eq(L),)))))
            return out
        if isinstance(v, Ptr):
            return [(st, FALSEB if v.obj is None else TRUE)]
        return [(st, ANY)]

    # ---------------------------------------------------------------- obligations
    def where(self, fr, ins):
        return "%s:%s" % (ins.get("file", fr.fn.file), ins.get("line", 0))

    def record(self, fr, ins, kind, ok, detail=""):
        key = (kind, ins.get("file", fr.fn.file), ins.get("line", 0), fr.fn.short)
        r = self.rec[-1].get(key)
        if r is None:
            r = self.rec[-1][key] = [0, 0, None]
        if ok:
            r[0] += 1
        else:
            r[1] += 1
            if r[2] is None:
                st = " <- ".join("%s (%s:%s)" % (f, os.path.basename(fi or "?"), l) for f, fi, l in
                                 reversed(fr.stack[-8:]))
                r[2] = (detail, st)
                if self.trace:
                    print("   FAIL", key, detail, st, "muted" if len(self.rec) > 1 else "")

    def oblige(self, fr, ins, st, kind, b, detail=""):
        """record whether b always holds in st; return states restricted to b"""
        bad = None
        for a in b.f:
            p = st.poly.add_checked(*a)
            if p is not None:
                bad = p
                break
        if bad is None:
            self.record(fr, ins, kind, True)
            return [st]
        self.record(fr, ins, kind, False, detail() if callable(detail) else detail)
        out = []
        for a in b.t:
            p = st.poly.add_checked(*a)
            if p is not None:
                out.append(st.fork(p))
        return out

    # ---------------------------------------------------------------- memory
    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None and isinstance(oid, tuple) and oid[0] == "g":
            g = self.m.globals[oid[1]]
            base = ("init", oid[1]) if "init" in g else "top"
            o = Obj(lin(g["size"]), (), base, g["const"], (), "global", g["dem"])
            st.mem[oid] = o
        return o

    def flat_init(self, name):
        r = self.ginit.get(name)
        if r is None:
            r = self.ginit[name] = {}
            g = self.m.globals[name]
            self._flat(g["init"], 0, g["ty"], r)
            r["keys"] = sorted(k for k in r if isinstance(k, int))
        return r

    def _flat(self, c, off, ty, out):
        k = c[0]
        if k == "z" or k == "u":
            out[off] = (tsize(c[1]), "z")
        elif k == "data":
            for i, x in enumerate(c[2]):
                out[off + i * c[1]] = (c[1], mkint(8 * c[1], int(x)))
        elif k == "agg":
            t = c[1]
            for i, x in enumerate(c[2]):
                if t[0] == "s":
                    self._flat(x, off + t[2][i][0], t[2][i][1], out)
                else:
                    self._flat(x, off + i * t[3], t[4], out)
        else:
            v = self.const(None, c)
            out[off] = (c[1] // 8 or 1 if k == "c" else 8 if k in ("n", "g", "fn") else tsize(c[3]) if k == "f" else 8, v)

    def init_read(self, st, name, off, n):
        """content of a global initialiser at constant offset"""
        m = self.flat_init(name)
        e = m.get(off)
        if e is not None and e[0] == n and e[1] != "z":
            return e[1]
        import bisect
        vals = []
        keys = m["keys"]
        for b in range(off, off + n):
            i = bisect.bisect_right(keys, b) - 1
            x = None
            if i >= 0:
                k = keys[i]
                sz, v = m[k]
                if b < k + sz:
                    x = mkint(8, 0) if v == "z" else self.slice(st, v, b - k, 1)
            if x is None:
                x = mkint(8, 0)        # padding
            vals.append(x)
        return self.concat(st, vals)

    def slice(self, st, v, d, n):
        """bytes d..d+n-1 of a value"""
        if isinstance(v, Ptr):
            return self.fresh_int(st, 8 * n)
        if isinstance(v, Tok):
            return v
        if isinstance(v, Flt):
            v = v.raw if v.raw is not None else self.fresh_int(st, v.w)
        if isinstance(v, Int):
            if v.b is not None:
                v2 = Int(v.w, None, None, 3, v.b)
                if d == 0:
                    return Int(8 * n, None, None, 3, v.b)
                return mkint(8 * n, 0)
            self.add_window(st, v)
            return self.from_bits(self.bits(v)[8 * d:8 * (d + n)])
        return self.fresh_int(st, 8 * n)

    def concat(self, st, vals):
        if len(vals) == 1:
            return vals[0]
        if all(isinstance(v, Tok) for v in vals):
            return vals[0] if all(v == vals[0] for v in vals) else Tok("maybe")
        bits = []
        for v in vals:
            if not isinstance(v, Int) or v.b is not None:
                if isinstance(v, Int):
                    L = self.fresh_lin(st, 0, 1)
                    bits += [(L, 0)] + [0] * (v.w - 1)
                    continue
                v = self.fresh_int(st, 8)
            self.add_window(st, v)
            bits += self.bits(v)
        return self.from_bits(bits)

    def read(self, st, oid, off, n):
        o = st.mem.get(oid)
        if n == 2 and o is not None and o.chain is not None and self.on_chain(st, o, off):
            out = []
            for s, v in self.read_(st, oid, off, n):
                for s2, L in self.interp(s, v, 1) if isinstance(v, Int) else ():
                    out += [(s3, v) for s3 in self.chain_read(s2, oid, off, L)]
                if not isinstance(v, Int):
                    out.append((s, v))
            return out
        return self.read_(st, oid, off, n)

    # ---- chains of length-prefixed records: the region [0, b) of an object is tiled by records, each starting with its 16-bit
    # length (at least MIN).  Facts: ("b", b) and ("e", p, e): the record at boundary p ends at e.
    CHAIN_MIN = 2

    def same(self, st, a, b):
        d = sub(a, b)
        return d.c == 0 if d.const else st.poly.entails(eq(d))

    def on_chain(self, st, o, off):
        return any(f[0] == "b" and self.same(st, f[1], off) for f in o.chain)

    def chain_read(self, st, oid, p, L):
        """L is the length found at boundary p"""
        sts = [st]
        end = add(p, L)
        for f in st.mem[oid].chain:
            if f[0] != "b" or f[1] == p:
                continue
            q = f[1]
            nxt = []
            for s in sts:
                # the chain is deterministic: a later boundary is not before the next one
                x = s.poly.add_checked(gt(q, p), ge(L, lin(self.CHAIN_MIN)), ge(q, end))
                if x is not None:
                    nxt.append(s.fork(x))
                x = s.poly.add_checked(ge(p, q))
                if x is not None:
                    nxt.append(s.fork(x))
            sts = nxt
        out = []
        for s in sts:
            x = s.poly.add_checked(ge(L, lin(self.CHAIN_MIN)))
            if x is not None:
                s2 = s.fork(x)
                o = s2.mem[oid]
                s2.mem[oid] = o.upd(chain=o.chain | {("b", end), ("e", p, end)})
                out.append(s2)
            x = s.poly.add_checked(gt(lin(self.CHAIN_MIN), L))
            if x is not None:
                out.append(s.fork(x))
        return out

    def chain_write(self, st, o, lo, hi, val=None):
        """facts that survive a write to [lo, hi)"""
        facts = set()
        inside = any(f[0] == "e" and st.poly.entails(ge(lo, addc(f[1], 2))) and st.poly.entails(ge(f[2], hi)) for f in o.chain)
        for f in o.chain:
            if inside or (f[-1].const and f[-1].c == 0) or st.poly.entails(ge(lo, f[-1])):
                facts.add(f)
        n = sub(hi, lo)
        if n.const and n.c == 2 and isinstance(val, Int) and val.lin is not None and any(f[0] == "b" and self.same(st, f[1], lo) for f in facts):
            L = val.lin
            if self.in_window(st, L, val.hint, 1, 0, 65535) and st.poly.entails(ge(L, lin(self.CHAIN_MIN))):
                facts |= {("b", add(lo, L)), ("e", lo, add(lo, L))}
        return frozenset(facts)

    def chain_join(self, a, b, mp):
        out = set()
        for f in a:
            for g in b:
                if f[0] == g[0]:
                    n = []
                    for x, y in zip(f[1:], g[1:]):
                        r = x if x == y else mp.m.get((x, y))
                        if r is None:
                            break
                        n.append(r)
                    else:
                        out.add((f[0],) + tuple(n))
        return frozenset(out)

    def read_(self, st, oid, off, n):
        if not off.const:
            v = self.summary_read(st, oid, off, n)
            if v is not None:
                return [(st, v)]
        return self._read(st, self.obj(st, oid), oid, off, n, 0)

    def _read(self, st, obj, oid, off, n, i):
        ents = obj.entries
        p = st.poly
        while i < len(ents):
            e = ents[i]
            if e[0] == "k":
                break
            lo = e[1]
            d = sub(off, lo)
            if e[0] == "c":
                sz = e[2]
                if d.const:
                    c = d.c
                    if c >= 0 and c + n <= sz:
                        return [(st, e[3] if n == sz else self.slice(st, e[3], c, n))]
                    if c + n <= 0 or c >= sz:
                        i += 1
                        continue
                    return self._bytewise(st, obj, oid, off, n, i)
                over = st.poly.add_checked(ge(addc(d, n - 1)), ge(lin(sz - 1), d))
                if over is None:
                    i += 1
                    continue
                out = []
                for k in (ge(scale(d, -1), lin(n)), ge(d, lin(sz))):
                    q = st.poly.add_checked(k)
                    if q is not None:
                        out += self._read(st.fork(q), obj, oid, off, n, i + 1)
                for c in range(-n + 1, sz):
                    q = over.add_checked(eq(d, lin(c)))
                    if q is None:
                        continue
                    s = st.fork(q)
                    if c >= 0 and c + n <= sz:
                        out.append((s, e[3] if n == sz else self.slice(s, e[3], c, n)))
                    else:
                        out += self._bytewise(s, obj, oid, off, n, i)
                return out
            # range
            hi = e[2]
            over = st.poly.add_checked(ge(addc(d, n - 1)), gt(hi, off), gt(hi, lo))
            if over is None:
                i += 1
                continue
            out = []
            before = st.poly.add_checked(ge(lo, addc(off, n)))
            after = st.poly.add_checked(ge(off, hi))
            inside = over.add_checked(ge(d), ge(hi, addc(off, n)))
            if before is not None:
                out += self._read(st.fork(before), obj, oid, off, n, i + 1)
            if after is not None:
                out += self._read(st.fork(after), obj, oid, off, n, i + 1)
            if inside is not None:
                out += self._content(st.fork(inside), e[3], off, n, oid)
            if n > 1:
                for ks in ((gt(lo, off),), (ge(off, lo), gt(addc(off, n), hi))):
                    q = over.add_checked(*ks)
                    if q is not None:
                        out += self._bytewise(st.fork(q), obj, oid, off, n, i)
            return out
        # base
        for e in ents[i:]:
            d = sub(off, e[1])
            if d.const:
                if d.c >= 0 and d.c + n <= e[2]:
                    return [(st, e[3] if n == e[2] else self.slice(st, e[3], d.c, n))]
            elif n == e[2] and st.poly.entails(eq(d)):
                return [(st, e[3])]
        b = obj.base
        if b == "zero":
            return [(st, mkint(8 * n, 0))]
        if b[0] == "tok":
            return [(st, Tok(b[1]))]
        if b[0] == "init":
            return self._table(st, obj, b[1], off, n)
        v = self.fresh_int(st, 8 * n)
        if oid is not None:
            cur = st.mem.get(oid)
            if cur is not None and cur.base == "top":
                st.mem[oid] = cur.upd(entries=cur.entries + (("k", off, n, v),))
        return [(st, v)]

    def _table(self, st, obj, name, off, n):
        if off.const:
            return [(st, self.init_read(st, name, off.c, n))]
        lo, hi = st.poly.bounds(off)
        size = obj.size.c
        lo = 0 if lo is None else max(lo, 0)
        hi = size - n if hi is None else min(hi, size - n)
        g = 0
        for _, q in off.t:
            g = gcd(g, q)
        cand = [o for o in range(lo + ((off.c - lo) % g), hi + 1, g)]
        if len(cand) > 4096:
            return [(st, self.fresh_int(st, 8 * n))]
        vals = [self.init_read(st, name, o, n) for o in cand]
        if len(cand) <= self.opt["table_split"]:
            out = []
            for o, v in zip(cand, vals):
                q = st.poly.add_checked(eq(off, lin(o)))
                if q is not None:
                    out.append((st.fork(q), v))
            return out
        v = self.table_value(st, vals, addc(off, -cand[0]), n, g)
        return [(st, v if v is not None else self.fresh_int(st, 8 * n))]

    def table_value(self, st, vals, idx, n, step):
        """value of a constant table at a symbolic index; the same index of an equal table gives the same symbol"""
        cs = []
        for v in vals:
            if isinstance(v, Int) and v.lin is not None and v.lin.const:
                cs.append(v.lin.c & ((1 << (8 * n)) - 1))
            else:
                return None
        if all(c == cs[0] for c in cs):
            return mkint(8 * n, cs[0])
        k = ("tab", tuple(cs), step, idx)
        x = self.fd.get(k)
        if x is None:
            x = self.fd[k] = self.fresh()
        x = sym(x)
        st.poly = st.poly.add(ge(x, lin(min(cs))), ge(lin(max(cs)), x))
        return Int(8 * n, x, None, 1)

    def summary_read(self, st, oid, off, n):
        """read at a symbolic offset of an object whose content there is constant"""
        o = self.obj(st, oid)
        if o is None or o.base[0] in ("init", "tok") or not any(e[0] == "c" and e[1].const for e in o.entries):
            return None
        lo, hi = st.poly.bounds(off)
        if lo is None or hi is None or hi - lo < self.opt["table_split"] or hi - lo > 512:
            return None
        g = 0
        for _, q in off.t:
            g = gcd(g, q)
        vals = []
        for c in range(lo + ((off.c - lo) % g), hi + 1, g):
            v = self.quiet_read(st, o, lin(c), n)
            if not isinstance(v, Int) or v.lin is None or not v.lin.const:
                return None
            vals.append(v)
        return self.table_value(st, vals, addc(off, -(lo + ((off.c - lo) % g))), n, g)

    def _content(self, st, c, off, n, oid):
        if c[0] == "set":
            return [(st, self.concat(st, [c[1]] * n))]
        if c[0] == "tok":
            return [(st, Tok(c[1]))]
        if c[0] == "copy":
            return self._read(st, c[1], None, add(off, c[2]), n, 0)
        if c[0] == "alias" and c[1] in st.mem:
            return self.read(st, c[1], add(off, c[2]), n)
        return [(st, self.fresh_int(st, 8 * n))]

    def _bytewise(self, st, obj, oid, off, n, i):
        if n == 1:
            raise Broken("bytewise on a byte")
        work = [(st, [])]
        for b in range(n):
            nw = []
            for s, vs in work:
                for s2, v in self._read(s, obj, oid, addc(off, b), 1, i):
                    nw.append((s2, vs + [v]))
            work = nw
            if len(work) > 64:
                return [(s, self.fresh_int(s, 8 * n)) for s, _ in [(st.fork(), 0)]]
        return [(s, self.concat(s, vs)) for s, vs in work]

    def quiet_read(self, st, obj, off, n):
        """value at a location if no case distinction is needed, else None"""
        for e in obj.entries:
            d = sub(off, e[1])
            if e[0] in "ck":
                if d.const:
                    if d.c >= 0 and d.c + n <= e[2]:
                        return e[3] if n == e[2] else self.slice(st, e[3], d.c, n)
                    if d.c + n <= 0 or d.c >= e[2] or e[0] == "k":
                        continue
                    return None
                if e[0] == "k":
                    continue
                if st.poly.add_checked(ge(addc(d, n - 1)), ge(lin(e[2] - 1), d)) is None:
                    continue
                return None
            if st.poly.add_checked(ge(addc(d, n - 1)), gt(e[2], off), gt(e[2], e[1])) is None:
                continue
            if e[3][0] in ("set", "tok") and st.poly.entails(ge(d)) and st.poly.entails(ge(e[2], addc(off, n))):
                return Tok(e[3][1]) if e[3][0] == "tok" else self.concat(st, [e[3][1]] * n)
            return None
        if obj.base == "zero":
            return mkint(8 * n, 0)
        if obj.base[0] == "tok":
            return Tok(obj.base[1])
        if obj.base[0] == "init" and off.const:
            return self.init_read(st, obj.base[1], off.c, n)
        return None

    def write(self, st, oid, off, n, val):
        o = st.mem[oid]
        if o.chain is not None:
            o = o.upd(chain=self.chain_write(st, o, off, addc(off, n), val))
        ents = []
        for e in o.entries:
            if e[0] == "c":
                d = sub(e[1], off)
                if d.const and d.c >= 0 and d.c + e[2] <= n:
                    continue
            ents.append(e)
        if n > 1 and isinstance(val, Int) and val.lin is None and val.b is None and val.bits is not None:
            parts = self.parcels(val.bits)
            if parts is not None:
                st.mem[oid] = o.upd(entries=tuple(("c", addc(off, i), m, self.from_bits(val.bits[8 * i:8 * (i + m)])) for i, m in parts) + tuple(ents))
                return
        st.mem[oid] = o.upd(entries=(("c", off, n, val),) + tuple(ents))

    def parcels(self, bits):
        """a value that was put together from whole smaller values: their places (byte offset, size), if there are several"""
        out = []
        i, n = 0, len(bits)
        if n % 8:
            return None
        while i < n:
            b = bits[i]
            j = i + 1
            if isinstance(b, int):
                while j < n and isinstance(bits[j], int):
                    j += 1
                if (j - i) % 8:
                    return None
                out += [(k // 8, 1) for k in range(i, j, 8)]
            else:
                if b[1]:
                    return None
                while j < n and not isinstance(bits[j], int) and bits[j][0] == b[0] and bits[j][1] == j - i:
                    j += 1
                if j - i not in (8, 16, 32, 64):
                    return None
                out.append((i // 8, (j - i) // 8))
            i = j
        return out if len(out) > 1 else None

    def write_range(self, st, oid, lo, hi, content):
        o = st.mem[oid]
        n = sub(hi, lo)
        if n.const and n.c <= 0:
            return
        if content[0] == "set" and n.const and n.c <= 8:
            self.write(st, oid, lo, n.c, self.concat(st, [content[1]] * n.c))
            return
        if o.chain is not None:
            o = o.upd(chain=self.chain_write(st, o, lo, hi))
        if st.poly.entails(ge(scale(lo, -1))) and st.poly.entails(ge(hi, o.size)):
            # whole object
            if content[0] == "set" and content[1] == mkint(8, 0):
                st.mem[oid] = o.upd(entries=(), base="zero")
                return
            if content[0] == "tok":
                st.mem[oid] = o.upd(entries=(), base=("tok", content[1]))
                return
            if content[0] == "any":
                st.mem[oid] = o.upd(entries=(), base="top")
                return
        ents = []
        for e in o.entries:
            if e[0] == "c":
                a, b = sub(e[1], lo), sub(sub(hi, e[1]), lin(e[2]))
                if a.const and b.const and a.c >= 0 and b.c >= 0:
                    continue
                if not (a.const and a.c < 0 or b.const and b.c < 0) and \
                        st.poly.entails(ge(a)) and st.poly.entails(ge(b)):
                    continue
            ents.append(e)
        st.mem[oid] = o.upd(entries=(("r", lo, hi, content),) + tuple(ents))

    def access(self, fr, ins, st, ptr, n, write):
        """states in which the n bytes (Lin or int) at ptr may be accessed"""
        kind = "write" if write else "read"
        nl = lin(n) if isinstance(n, int) else n
        if nl.const and nl.c == 0:
            return [st]
        if not isinstance(ptr, Ptr):
            self.record(fr, ins, "mem-" + kind, False, "pointer of unknown provenance")
            return []
        zero_ok = []
        if not nl.const:
            # zero-length accesses need no valid pointer
            if ptr.obj is None or isinstance(ptr.obj, tuple) and ptr.obj[0] == "fn":
                q = st.poly.add_checked(eq(nl))
                if st.poly.add_checked(gt(nl)) is None:
                    return [st]
                self.record(fr, ins, "mem-" + kind, False, "null pointer %s" % kind)
                return [st.fork(q)] if q is not None else []
        if ptr.obj is None:
            self.record(fr, ins, "mem-" + kind, False, "null pointer %s" % kind)
            return []
        if isinstance(ptr.obj, tuple) and ptr.obj[0] == "fn":
            self.record(fr, ins, "mem-" + kind, False, "%s of code" % kind)
            return []
        o = self.obj(st, ptr.obj)
        if o is None:
            self.record(fr, ins, "mem-" + kind, False, "%s through a dangling pointer" % kind)
            return []
        if write and o.ro:
            self.record(fr, ins, "mem-write", False, "write to read-only %s" % o.name)
            return []
        off = ptr.off
        a, b = ge(off), ge(o.size, add(off, nl))
        if a is None and b is None:
            self.record(fr, ins, "mem-" + kind, True)
            return [st]
        t = alts((a, b))
        f = alts((gt(scale(off, -1)),), (gt(add(off, nl), o.size),))
        bb = Bool(t, f)
        if not nl.const:
            bb = bor(bb, cmp_bool("eq", nl, lin(0)))
        return self.oblige(fr, ins, st, "mem-" + kind, bb,
                           lambda: "%s of %s byte(s) at offset %s of %s (size %s) may be out of bounds" % (
                               kind, self.rng(st, nl), self.rng(st, off), o.name or o.kind, self.rng(st, o.size)))

    def rng(self, st, L):
        if L.const:
            return str(L.c)
        lo, hi = st.poly.bounds(L)
        f = lambda x: "?" if x is None or abs(x) > 1 << 50 else str(x)
        return "[%s..%s]" % (f(lo), f(hi))

    def typed(self, st, v, ty):
        """adapt a raw memory value to a load type"""
        if isinstance(ty, list):
            return v
        if ty == "p":
            if isinstance(v, Ptr) or v is TOP:
                return v
            if isinstance(v, Int) and v.lin is None and v.b is None:
                v = self.mat(st, v)
            return self.to_ptr(v)
        if ty[0] == "i":
            w = int(ty[1:])
            if isinstance(v, Int):
                if w == 1:
                    r = self.to_bool(st, v)
                    return r[0][1] if len(r) == 1 else ANY
                return v if v.w == w else self.trunc(v, w)
            if isinstance(v, Tok):
                return v if w == 8 else self.fresh_int(st, w)
            x = self.as_int(st, v, w)
            return x if x is not None and isinstance(x, Int) and x.w == w else self.fresh_int(st, w)
        if ty in ("f32", "f64"):
            w = int(ty[1:])
            if isinstance(v, Flt):
                return v
            if isinstance(v, Int) and v.w == w and v.b is None:
                return Flt(w, v)
            return Flt(w)
        return TOP

    def trunc(self, v, w):
        if v.b is not None:
            return Int(w, None, None, 3, v.b)
        bits = v.bits[:w] if v.bits is not None else None
        if v.lin is not None:
            if v.lin.const:
                return mkint(w, v.lin.c)
            return Int(w, v.lin, bits, 0)
        return self.from_bits(bits)

    # ---------------------------------------------------------------- operands
    def const(self, st, o):
        k = o[0]
        if k == "c":
            if o[1] == 1:
                return TRUE if int(o[2]) else FALSEB
            return mkint(o[1], int(o[2]))
        if k == "n":
            return NULL
        if k == "g":
            return Ptr(("g", o[1]), lin(o[2]))
        if k == "fn":
            return Ptr(("fn", o[1]), lin(o[2]))
        if k == "f":
            w = int(o[3][1:]) if isinstance(o[3], str) and o[3][0] == "f" else 64
            return Flt(w, mkint(w, int(o[2])))
        if k in ("z", "u"):
            t = o[1]
            if isinstance(t, list):
                if t[0] == "s":
                    return Agg([self.const(st, [k, f[1]]) for f in t[2]])
                return Agg([self.const(st, [k, t[4]]) for _ in range(min(t[2], 64))])
            if t == "p":
                return NULL if k == "z" else TOP
            if t[0] == "i":
                w = int(t[1:])
                if k == "z" or st is None:
                    return FALSEB if w == 1 else mkint(w, 0)
                return self.fresh_int(st, w)
            return Flt(int(t[1:]) if t[0] == "f" else 64)
        if k == "agg":
            return Agg([self.const(st, x) for x in o[2]])
        return TOP

    def ev(self, st, o):
        if o[0] == "l":
            v = st.regs[o[1]]
            return v
        return self.const(st, o)

    # ---------------------------------------------------------------- instructions (return None or list of states)
    def set(self, st, ins, v):
        st.regs[ins["id"]] = v

    def i_alloca(self, fr, st, ins):
        oid = ("a", fr.path, ins["id"])
        c = self.ev(st, ins["count"])
        n = c.lin.c if isinstance(c, Int) and c.lin is not None and c.lin.const else None
        size = lin(ins["size"] * n) if n is not None else scale(self.interp(st, c, 1)[0][1], ins["size"])
        st.mem[oid] = Obj(size, (), "top", False, (), "stack", "a local of %s" % fr.fn.short)
        fr.allocas.add(oid)
        self.set(st, ins, Ptr(oid, lin(0)))

    def i_load(self, fr, st, ins):
        p = self.ev(st, ins["ops"][0])
        n = ins["size"]
        sts = self.access(fr, ins, st, p, n, False)
        out = []
        for s in sts:
            if isinstance(ins["ty"], list):
                out += self.load_agg(s, p, ins)
                continue
            for s2, v in self.read(s, p.obj, p.off, n):
                v = self.typed(s2, v, ins["ty"])
                s2.regs[ins["id"]] = v
                out.append(s2)
        return out

    def load_agg(self, st, p, ins):
        fields = []

        def walk(t, o):
            if isinstance(t, list):
                if t[0] == "s":
                    return [walk(f[1], o + f[0]) for f in t[2]]
                return [walk(t[4], o + i * t[3]) for i in range(t[2])]
            fields.append((t, o))
            return len(fields) - 1
        shape = walk(ins["ty"], 0)
        work = [(st, [])]
        for t, o in fields:
            work = [(s2, vs + [self.typed(s2, v, t)]) for s, vs in work
                    for s2, v in self.read(s, p.obj, addc(p.off, o), tsize(t))]
        out = []
        for s, vs in work:
            def mk(x):
                return Agg([mk(y) for y in x]) if isinstance(x, list) else vs[x]
            s.regs[ins["id"]] = mk(shape)
            out.append(s)
        return out

    def store_val(self, st, oid, off, v, ty):
        if isinstance(v, Agg) and isinstance(ty, list):
            for i, x in enumerate(v.v):
                if ty[0] == "s":
                    self.store_val(st, oid, addc(off, ty[2][i][0]), x, ty[2][i][1])
                else:
                    self.store_val(st, oid, addc(off, i * ty[3]), x, ty[4])
            return
        if isinstance(v, Bool):
            v = Int(8, None, None, 3, v)
        if v is TOP and isinstance(ty, str) and ty[0] == "i":
            v = self.fresh_int(st, int(ty[1:]))
        if isinstance(v, Flt) and v.raw is None:
            v = Flt(v.w, self.fresh_int(st, v.w))
        self.write(st, oid, off, tsize(ty), v)

    def i_store(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        p = self.ev(st, ins["ops"][1])
        sts = self.access(fr, ins, st, p, ins["size"], True)
        for s in sts:
            self.store_val(s, p.obj, p.off, v, ins["vty"])
            self.on_write(fr, ins, s, p, lin(ins["size"]))
        return sts

    def on_write(self, fr, ins, st, p, n):
        pass

    def i_getelementptr(self, fr, st, ins):
        p = self.ev(st, ins["ops"][0])
        if not ins["ok"] or not isinstance(p, Ptr):
            if isinstance(p, Int):
                p = self.to_ptr(p)
            if not isinstance(p, Ptr) or not ins["ok"]:
                self.set(st, ins, TOP)
                return None
        work = [(st, addc(p.off, ins["off"]))]
        for o, k, w in ins["vars"]:
            nw = []
            for s, off in work:
                v = self.ev(s, o)
                if isinstance(v, Tok):
                    v = self.fresh_int(s, w)
                if isinstance(v, Int) and v.w == 64 and v.b is None and not v.hint:
                    # congruent value: try it as it is, pointer arithmetic wraps modulo 2^64
                    if v.lin is None:
                        v = self.mat(s, v)
                    lo, hi = s.poly.bounds(v.lin)
                    if lo is not None and hi is not None and lo >= -(1 << 63) and hi < (1 << 63):
                        nw.append((s, add(off, v.lin, k)))
                        continue
                for s2, L in self.interp(s, v, 2):
                    nw.append((s2, add(off, L, k)))
            work = nw
        for s, off in work:
            s.regs[ins["id"]] = Ptr(p.obj, off)
        return [s for s, _ in work]

    def ints(self, st, ins):
        a, b = self.ev(st, ins["ops"][0]), self.ev(st, ins["ops"][1])
        w = int(ins["ty"][1:]) if isinstance(ins["ty"], str) and ins["ty"][0] == "i" else 0

        def conv(v):
            if isinstance(v, Int):
                return v
            if isinstance(v, Tok):
                return self.fresh_int(st, w)
            v = self.as_int(st, v, w)
            return v if v is not None else self.fresh_int(st, w)
        return conv(a), conv(b), w

    def lins(self, st, v):
        """list of (state, lin) congruent"""
        if v.b is not None:
            return self.interp(st, v, 1)
        if v.lin is None:
            v = self.mat(st, v)
        return [(st, v.lin)]

    def arith(self, st, ins, f):
        a, b, w = self.ints(st, ins)
        if w == 1:
            x = self.ev(st, ins["ops"][0])
            y = self.ev(st, ins["ops"][1])
            if isinstance(x, Bool) and isinstance(y, Bool):      # addition modulo 2
                self.set(st, ins, bor(band(x, bnot(y)), band(bnot(x), y)))
                return None
            self.set(st, ins, ANY)
            return None
        nsw, nuw = ins.get("nsw"), ins.get("nuw")
        out = []
        if nsw or nuw:
            sg = 2 if nsw else 1
            for s, la in self.interp(st, a, sg):
                for s2, lb in self.interp(s, b, sg):
                    r = f(s2, la, lb)
                    if r.const:
                        v = mkint(w, r.c)
                    else:
                        v = Int(w, r, None, (2 if nsw else 1))
                    s2.regs[ins["id"]] = v
                    out.append(s2)
            if nsw and self.opt.get("window", True):
                for s in out:
                    v = s.regs[ins["id"]]
                    if not v.lin.const and v.w <= 32:
                        self.add_window(s, v)
            return out
        for s, la in self.lins(st, a):
            for s2, lb in self.lins(s, b):
                r = f(s2, la, lb)
                s2.regs[ins["id"]] = mkint(w, r.c) if r.const else Int(w, r, None, 0)
                out.append(s2)
        return out

    def i_add(self, fr, st, ins):
        return self.arith(st, ins, lambda s, a, b: add(a, b))

    def i_sub(self, fr, st, ins):
        return self.arith(st, ins, lambda s, a, b: sub(a, b))

    def mul(self, st, a, b):
        if a.const:
            return scale(b, a.c)
        if b.const:
            return scale(a, b.c)
        for x, y in ((a, b), (b, a)):
            lo, hi = st.poly.bounds(x)
            if lo is not None and lo == hi:
                return scale(y, lo)
        k = ("mul",) + tuple(sorted((a, b), key=lambda l: (l.t, l.c)))
        s = self.fd.get(k)
        if s is None:
            s = self.fd[k] = self.fresh()
        r = sym(s)
        (a0, a1), (b0, b1) = st.poly.bounds(a), st.poly.bounds(b)
        ks = []
        if None not in (a0, a1, b0, b1):
            c = [a0 * b0, a0 * b1, a1 * b0, a1 * b1]
            ks += [ge(r, lin(min(c))), ge(lin(max(c)), r)]
        # McCormick: (a-a0)(b-b0) >= 0 and so on
        if a0 is not None and b0 is not None and abs(a0) < 1 << 40 and abs(b0) < 1 << 40:
            ks.append(ge(add(sub(sub(r, scale(a, b0)), scale(b, a0)), lin(a0 * b0))))
        if a1 is not None and b1 is not None and abs(a1) < 1 << 40 and abs(b1) < 1 << 40:
            ks.append(ge(add(sub(sub(r, scale(a, b1)), scale(b, a1)), lin(a1 * b1))))
        if a0 is not None and b1 is not None and abs(a0) < 1 << 40 and abs(b1) < 1 << 40:
            ks.append(ge(sub(add(scale(a, b1), scale(b, a0)), addc(r, a0 * b1))))
        if a1 is not None and b0 is not None and abs(a1) < 1 << 40 and abs(b0) < 1 << 40:
            ks.append(ge(sub(add(scale(a, b0), scale(b, a1)), addc(r, a1 * b0))))
        st.poly = st.poly.add(*ks)
        return r

    def i_mul(self, fr, st, ins):
        a, b, w = self.ints(st, ins)
        if a.lin is not None and b.lin is not None and (a.lin.const or b.lin.const):
            return self.arith(st, ins, self.mul)
        sg = 2 if ins.get("nsw") else 1
        out = []
        for s, la in self.interp(st, a, sg):
            for s2, lb in self.interp(s, b, sg):
                r = self.mul(s2, la, lb)
                s2.regs[ins["id"]] = mkint(w, r.c) if r.const else Int(w, r, None, sg if ins.get("nsw") or ins.get("nuw") else 0)
                out.append(s2)
        return out

    def divmod_(self, fr, st, ins, sg, rem):
        a, b, w = self.ints(st, ins)
        out = []
        for s, la in self.interp(st, a, sg):
            for s2, lb in self.interp(s, b, sg):
                z = self.oblige(fr, ins, s2, "div-by-zero", cmp_bool("ne", lb, lin(0)), "division by zero")
                for s3 in z:
                    for s4, q, r in self.dm(s3, la, lb, sg):
                        v = r if rem else q
                        s4.regs[ins["id"]] = mkint(w, v.c) if v.const else Int(w, v, None, sg | (3 if sg == 2 and False else 0))
                        out.append(s4)
        return out

    def dm(self, st, a, b, sg):
        if b.const:
            d = b.c
            if sg == 2 and d < 0:
                return [(s, scale(q, -1), r) for s, q, r in self.dm(st, a, lin(-d), sg)]
            if a.const:
                q = abs(a.c) // d * (1 if a.c >= 0 else -1)
                return [(st, lin(q), lin(a.c - q * d))]
            if sg == 1:
                q = self.floordiv(st, a, d)
                return [(st, q, sub(a, scale(q, d)))]
            out = []
            p = st.poly.add_checked(ge(a))
            n = st.poly.add_checked(gt(scale(a, -1)))
            if p is not None:
                s = st.fork(p) if n is not None else st
                q = self.floordiv(s, a, d)
                out.append((s, q, sub(a, scale(q, d))))
            if n is not None:
                s = st.fork(n) if p is not None else st
                q = scale(self.floordiv(s, scale(a, -1), d), -1)
                out.append((s, q, sub(a, scale(q, d))))
            return out
        lo, hi = st.poly.bounds(b)
        if lo is not None and hi is not None and hi - lo < self.opt["split"]:
            out = []
            for c in range(lo, hi + 1):
                p = st.poly.add_checked(eq(b, lin(c)))
                if p is not None and c:
                    out += self.dm(st.fork(p), a, lin(c), sg)
            return out
        q, r = sym(self.fresh()), sym(self.fresh())
        if sg == 1 or st.poly.entails(ge(a)) and st.poly.entails(gt(b)):
            st.poly = st.poly.add(ge(r), gt(b, r), ge(q), ge(a, q), ge(a, r))
        else:
            alo, ahi = st.poly.bounds(a)
            if alo is not None and ahi is not None:
                m = max(abs(alo), abs(ahi))
                st.poly = st.poly.add(ge(lin(m), q), ge(q, lin(-m)), ge(lin(m), r), ge(r, lin(-m)))
        return [(st, q, r)]

    def i_udiv(self, fr, st, ins):
        return self.divmod_(fr, st, ins, 1, False)

    def i_sdiv(self, fr, st, ins):
        return self.divmod_(fr, st, ins, 2, False)

    def i_urem(self, fr, st, ins):
        return self.divmod_(fr, st, ins, 1, True)

    def i_srem(self, fr, st, ins):
        return self.divmod_(fr, st, ins, 2, True)

    # shifts
    def shift(self, fr, st, ins, f):
        a, b, w = self.ints(st, ins)
        out = []
        for s, lb in self.interp(st, b, 1):
            ok = self.oblige(fr, ins, s, "shift-range", cmp_bool("lt", lb, lin(w)),
                             lambda: "shift amount %s not below the width %d" % (self.rng(s, lb), w))
            for s1 in ok:
                if lb.const:
                    out += f(s1, a, lb.c, w)
                    continue
                lo, hi = s1.poly.bounds(lb)
                lo = max(0, lo or 0)
                hi = w - 1 if hi is None else min(hi, w - 1)
                if hi - lo > 31 or (hi - lo > self.opt["split"] and a.lin is None):
                    s1.regs[ins["id"]] = self.fresh_int(s1, w)
                    out.append(s1)
                    continue
                for c in range(lo, hi + 1):
                    p = s1.poly.add_checked(eq(lb, lin(c)))
                    if p is not None:
                        out += f(s1.fork(p), a, c, w)
        return out

    def i_shl(self, fr, st, ins):
        nsw = ins.get("nsw")

        def f(s, a, c, w):
            if a.b is not None:
                res = []
                for s2, L in self.interp(s, a, 1):
                    res += f(s2, mkint(w, L.c), c, w)
                return res
            bits = None
            if a.bits is not None or a.lin.const:
                bits = (0,) * c + self.bits(a)[:w - c]
            if a.lin is not None:
                L = scale(a.lin, 1 << c)
                v = mkint(w, L.c) if L.const else Int(w, L, bits, 2 if nsw and a.hint & 2 else 0)
            else:
                v = self.from_bits(bits)
            s.regs[ins["id"]] = v
            return [s]
        return self.shift(fr, st, ins, f)

    def i_lshr(self, fr, st, ins):
        def f(s, a, c, w):
            if a.b is not None:
                res = []
                for s2, L in self.interp(s, a, 1):
                    res += f(s2, mkint(w, L.c), c, w)
                return res
            bits = None
            if a.bits is not None or a.lin.const or not a.hint & 1:
                bits = self.bits(a)[c:] + (0,) * c
            if a.lin is not None and (a.hint & 1 or a.lin.const):
                if a.lin.const:
                    s.regs[ins["id"]] = mkint(w, (a.lin.c & ((1 << w) - 1)) >> c)
                    return [s]
                q = self.floordiv(s, a.lin, 1 << c)
                v = Int(w, q, bits if bits is not None else self.bits(a)[c:] + (0,) * c, 3 if c else a.hint)
            else:
                v = self.from_bits(bits)
            s.regs[ins["id"]] = v
            return [s]
        return self.shift(fr, st, ins, f)

    def i_ashr(self, fr, st, ins):
        def f(s, a, c, w):
            res = []
            if a.lin is None and a.bits is not None and a.bits[-1] == 0:
                s.regs[ins["id"]] = self.from_bits(a.bits[c:] + (0,) * c)
                return [s]
            for s2, L in self.interp(s, a, 2):
                q = self.floordiv(s2, L, 1 << c)
                bits = a.bits[c:] + (0,) * c if a.bits is not None and a.bits[-1] == 0 else None
                s2.regs[ins["id"]] = mkint(w, q.c) if q.const else Int(w, q, bits, 2)
                res.append(s2)
            return res
        return self.shift(fr, st, ins, f)

    def bitop(self, st, ins, op):
        a, b = self.ev(st, ins["ops"][0]), self.ev(st, ins["ops"][1])
        if isinstance(a, Bool) and isinstance(b, Bool):
            r = {"and": band, "or": bor}.get(op)
            r = r(a, b) if r else bor(band(a, bnot(b)), band(bnot(a), b))
            self.set(st, ins, r)
            return None
        a, b, w = self.ints(st, ins)
        out = []
        # booleans widened to integers
        if (a.b is not None) or (b.b is not None):
            if a.b is not None and b.b is not None:
                r = {"and": band, "or": bor}.get(op)
                self.set(st, ins, Int(w, None, None, 3, r(a.b, b.b) if r else bor(band(a.b, bnot(b.b)), band(bnot(a.b), b.b))))
                return None
            for s, la in (self.interp(st, a, 1) if a.b is not None else [(st, None)]):
                for s2, lb in (self.interp(s, b, 1) if b.b is not None else [(s, None)]):
                    x = mkint(w, la.c) if la is not None else a
                    y = mkint(w, lb.c) if lb is not None else b
                    s2.regs[ins["id"]] = self.bitvals(s2, op, x, y, w)
                    out.append(s2)
            return out
        self.set(st, ins, self.bitvals(st, op, a, b, w))
        return None

    def bitvals(self, st, op, a, b, w):
        ac = a.lin.c & ((1 << w) - 1) if a.lin is not None and a.lin.const else None
        bc = b.lin.c & ((1 << w) - 1) if b.lin is not None and b.lin.const else None
        if ac is not None and bc is not None:
            return mkint(w, {"and": ac & bc, "or": ac | bc, "xor": ac ^ bc}[op])
        if ac is not None:
            a, b, ac, bc = b, a, bc, ac
        if bc is not None:
            if op == "and" and bc & (bc + 1) == 0:
                k = bc.bit_length()
                if k == 0:
                    return mkint(w, 0)
                if k == w:
                    return a
                if a.lin is not None:
                    q = self.floordiv(st, a.lin, 1 << k)
                    return Int(w, sub(a.lin, scale(q, 1 << k)), self.bits(a)[:k] + (0,) * (w - k), 3)
            if op in ("or", "xor") and bc == 0:
                return a
            if op == "xor" and bc == (1 << w) - 1 and a.lin is not None:
                # ~x == -1 - x
                return Int(w, sub(lin(-1), a.lin), None, a.hint & 2)
        x, y = self.bits(a), self.bits(b)
        res = []
        unknown = []
        for i in range(w):
            p, q = x[i], y[i]
            if op == "and":
                r = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
            elif op == "or":
                r = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
            else:
                r = q if p == 0 else p if q == 0 else 0 if p == q else None
            if r is None:
                unknown.append(i)
            res.append(r)
        if unknown:
            i = 0
            while i < w:
                if res[i] is not None:
                    i += 1
                    continue
                j = i
                while j < w and res[j] is None:
                    j += 1
                L = self.fresh_lin(st, 0, (1 << (j - i)) - 1)
                for k in range(i, j):
                    res[k] = (L, k - i)
                i = j
            v = self.from_bits(res)
            if op == "and":
                v = self.mat(st, v) if v.lin is None else v
                if v.lin is not None and not v.lin.const:
                    for o in (a, b):
                        if o.lin is not None and o.hint & 1 and v.hint & 1:
                            st.poly = st.poly.add(ge(o.lin, v.lin))
            return v
        return self.from_bits(res)

    def i_and(self, fr, st, ins):
        return self.bitop(st, ins, "and")

    def i_or(self, fr, st, ins):
        return self.bitop(st, ins, "or")

    def i_xor(self, fr, st, ins):
        return self.bitop(st, ins, "xor")

    # casts
    def i_zext(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        w = int(ins["ty"][1:])
        if isinstance(v, Tok):
            v = self.fresh_int(st, 8)
        if isinstance(v, Bool):
            if v == TRUE or v == FALSEB:
                self.set(st, ins, mkint(w, 1 if v == TRUE else 0))
                return None
            self.set(st, ins, Int(w, None, None, 3, v))
            return None
        if not isinstance(v, Int):
            self.set(st, ins, self.fresh_int(st, w))
            return None
        if v.b is not None:
            self.set(st, ins, Int(w, None, None, 3, v.b))
            return None
        if v.lin is None:
            self.set(st, ins, self.from_bits(v.bits + (0,) * (w - v.w)))
            return None
        if "packing" in ins and not v.lin.const and not v.hint & 1:
            self.add_window(st, v)
            self.set(st, ins, self.from_bits(self.bits(v) + (0,) * (w - v.w)))
            return None
        out = []
        for s, L in self.interp(st, v, 1):
            bits = self.bits(v) + (0,) * (w - v.w) if v.bits is not None or "bitsy" in ins else None
            s.regs[ins["id"]] = mkint(w, L.c) if L.const else Int(w, L, bits, 3)
            out.append(s)
        return out

    def i_sext(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        w = int(ins["ty"][1:])
        if isinstance(v, Tok):
            v = self.fresh_int(st, 8)
        if isinstance(v, Bool):
            out = []
            for s, t in self.split_bool(st, v):
                s.regs[ins["id"]] = mkint(w, -1 if t else 0)
                out.append(s)
            return out
        if not isinstance(v, Int):
            self.set(st, ins, self.fresh_int(st, w))
            return None
        out = []
        for s, L in self.interp(st, v, 2):
            s.regs[ins["id"]] = mkint(w, L.c) if L.const else Int(w, L, None, 2)
            out.append(s)
        return out

    def i_trunc(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        w = int(ins["ty"][1:])
        if isinstance(v, Tok):
            v = self.fresh_int(st, 8)
        if isinstance(v, Bool):
            v = Int(8, None, None, 3, v)
        if not isinstance(v, Int):
            v = self.as_int(st, v, 64)
            if v is None:
                self.set(st, ins, self.fresh_int(st, w))
                return None
        if w == 1:
            if v.b is not None:
                self.set(st, ins, v.b)
                return None
            b0 = self.bits(v)[0]
            if isinstance(b0, int):
                self.set(st, ins, TRUE if b0 else FALSEB)
                return None
            # values stored from a bool are 0 or 1
            if v.lin is not None and st.poly.entails(ge(v.lin)) and st.poly.entails(ge(lin(1), v.lin)):
                self.set(st, ins, Bool(alts((eq(v.lin, lin(1)),)), alts((eq(v.lin),))))
                return None
            L = self.extract(st, b0[0], b0[1], 1)
            self.set(st, ins, Bool(alts((eq(L, lin(1)),)), alts((eq(L),))))
            return None
        self.set(st, ins, self.trunc(v, w))

    def i_bitcast(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        self.set(st, ins, self.typed(st, v, ins["ty"]) if isinstance(ins["ty"], str) else v)

    def i_freeze(self, fr, st, ins):
        self.set(st, ins, self.ev(st, ins["ops"][0]))

    def i_addrspacecast(self, fr, st, ins):
        self.set(st, ins, self.ev(st, ins["ops"][0]))

    def i_ptrtoint(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        x = self.as_int(st, v, 64)
        w = int(ins["ty"][1:])
        if x is None:
            x = self.fresh_int(st, w)
        self.set(st, ins, x if x.w == w else self.trunc(x, w))

    def i_inttoptr(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        if isinstance(v, Int) and v.b is None and v.lin is None:
            v = self.mat(st, v)
        self.set(st, ins, self.to_ptr(v))

    def i_fptosi(self, fr, st, ins):
        self.set(st, ins, self.fresh_int(st, int(ins["ty"][1:]), True))

    def i_fptoui(self, fr, st, ins):
        self.set(st, ins, self.fresh_int(st, int(ins["ty"][1:])))

    def flt(self, fr, st, ins):
        self.set(st, ins, Flt(int(ins["ty"][1:]) if isinstance(ins["ty"], str) and ins["ty"][0] == "f" else 64))
    i_sitofp = i_uitofp = i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = i_fneg = i_fptrunc = i_fpext = flt

    def i_fcmp(self, fr, st, ins):
        self.set(st, ins, ANY)

    def i_extractvalue(self, fr, st, ins):
        v = self.ev(st, ins["ops"][0])
        for i in ins["idx"]:
            v = v.v[i] if isinstance(v, Agg) else TOP
        if v is TOP and ins["ty"] != "p":
            v = self.typed(st, TOP, ins["ty"])
        self.set(st, ins, v)

    def i_insertvalue(self, fr, st, ins):
        def put(a, idx, x):
            if not idx:
                return x
            l = list(a.v)
            l[idx[0]] = put(l[idx[0]], idx[1:], x)
            return Agg(l)
        a = self.ev(st, ins["ops"][0])
        x = self.ev(st, ins["ops"][1])
        if not isinstance(a, Agg):
            self.set(st, ins, TOP)
        else:
            self.set(st, ins, put(a, ins["idx"], x))

    def i_select(self, fr, st, ins):
        c = self.ev(st, ins["ops"][0])
        out = []
        if not isinstance(c, Bool):
            c = ANY
        for s, t in self.split_bool(st, c):
            s.regs[ins["id"]] = self.ev(s, ins["ops"][1 if t else 2])
            out.append(s)
        return out

    PRED = {"eq": ("eq", 0), "ne": ("ne", 0), "ult": ("lt", 1), "ule": ("le", 1), "ugt": ("gt", 1), "uge": ("ge", 1),
            "slt": ("lt", 2), "sle": ("le", 2), "sgt": ("gt", 2), "sge": ("ge", 2)}

    def i_icmp(self, fr, st, ins):
        a, b = self.ev(st, ins["ops"][0]), self.ev(st, ins["ops"][1])
        op, sg = self.PRED[ins["pred"]]
        out = []
        for s, r in self.compare(st, a, b, op, sg, ins.get("sty")):
            s.regs[ins["id"]] = r
            out.append(s)
        return out

    def compare(self, st, a, b, op, sg, sty=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or sty == "p":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    return [(st, cmp_bool(op, a.off, b.off))]
                if a.obj is None or b.obj is None:
                    if op in ("eq", "ne"):
                        return [(st, TRUE if op == "ne" else FALSEB)]
                    x = a.obj is None
                    return [(st, TRUE if (x and op in ("lt", "le")) or (not x and op in ("gt", "ge")) else FALSEB)]
                if op == "eq":
                    return [(st, FALSEB)]
                if op == "ne":
                    return [(st, TRUE)]
            return [(st, ANY)]
        if isinstance(a, Bool) or isinstance(b, Bool):
            if not (isinstance(a, Bool) and isinstance(b, Bool)):
                return [(st, ANY)]
            e = bor(band(a, b), band(bnot(a), bnot(b)))
            if op in ("eq", "ne"):
                return [(st, e if op == "eq" else bnot(e))]
            x, y = (a, b) if sg == 1 else (b, a)
            return [(st, {"lt": band(bnot(x), y), "gt": band(x, bnot(y)), "le": bor(bnot(x), y), "ge": bor(x, bnot(y))}[op])]
        if isinstance(a, Tok) or isinstance(b, Tok):
            a = self.fresh_int(st, 8) if isinstance(a, Tok) else a
            b = self.fresh_int(st, 8) if isinstance(b, Tok) else b
        if not isinstance(a, Int) or not isinstance(b, Int):
            return [(st, ANY)]
        if op in ("eq", "ne"):
            t = op == "eq"
            for x, y in ((a, b), (b, a)):
                if x.b is not None and y.b is None and y.lin is not None and y.lin.const and y.lin.c in (0, 1):
                    r = x.b if y.lin.c == 1 else bnot(x.b)
                    return [(st, r if t else bnot(r))]
            if a.b is not None and b.b is not None:
                e = bor(band(a.b, b.b), band(bnot(a.b), bnot(b.b)))
                return [(st, e if t else bnot(e))]
            if a.b is None and b.b is None:
                if a == b or (a.bits is not None and b.bits is not None and a.bits == b.bits):
                    return [(st, TRUE if t else FALSEB)]
                if a.lin is not None and b.lin is not None and a.lin == b.lin:
                    return [(st, TRUE if t else FALSEB)]
                if a.bits is not None and b.bits is not None:
                    if any(isinstance(x, int) and isinstance(y, int) and x != y for x, y in zip(a.bits, b.bits)):
                        return [(st, FALSEB if t else TRUE)]
                    df = [i for i in range(a.w) if a.bits[i] != b.bits[i]]
                    if len(df) < a.w and (a.lin is None or b.lin is None):
                        # compare only the differing part
                        x = self.from_bits([a.bits[i] if i in df else 0 for i in range(a.w)])
                        y = self.from_bits([b.bits[i] if i in df else 0 for i in range(a.w)])
                        a, b = x, y
            common = 3
            for v in (a, b):
                if v.lin is not None and v.lin.const or v.b is not None:
                    continue
                h = v.hint if v.lin is not None else 1
                if not h:
                    lo, hi = st.poly.bounds(v.lin)
                    if lo is not None and hi is not None:
                        h = (1 if lo >= 0 and hi < (1 << v.w) else 0) | (2 if lo >= -(1 << (v.w - 1)) and hi < (1 << (v.w - 1)) else 0)
                common &= h
            sg = 1 if common & 1 else 2 if common & 2 else (1 if (a.hint | b.hint) & 1 else 2)
        out = []
        for s, la in self.interp(st, a, sg):
            for s2, lb in self.interp(s, b, sg):
                bl = cmp_bool(op, la, lb)
                if op in ("eq", "ne") and not sub(la, lb).const:
                    # drop infeasible orderings early
                    d = bl.f if op == "eq" else bl.t
                    d2 = tuple(x for x in d if s2.poly.add_checked(*x) is not None)
                    bl = Bool(bl.t, d2) if op == "eq" else Bool(d2, bl.f)
                out.append((s2, bl))
        return out

    # ---------------------------------------------------------------- calls
    def i_call(self, fr, st, ins, b=None, ip=None):
        raise Broken("call outside run_block")

    def do_call(self, fr, st, ins, live):
        """list of (state, value)"""
        self.stats["calls"] += 1
        c = ins["callee"]
        args = None
        if c[0] == "fn":
            name = c[1]
        else:
            t = self.ev(st, c)
            if isinstance(t, Ptr) and isinstance(t.obj, tuple) and t.obj[0] == "fn":
                name = t.obj[1]
            else:
                self.record(fr, ins, "unknown-callee", False, "indirect call cannot be resolved")
                return [(st, self.typed(st, TOP, ins["ty"]) if ins["ty"] != "v" else None)]
        args = [self.ev(st, o) for o in ins["ops"]]
        return self.call_fn(fr, st, ins, name, args, live)

    def find_model(self, name):
        r = self.model_cache.get(name, 0)
        if r == 0:
            r = None
            fn = self.m.funcs.get(name)
            dem = fn.dem if fn else name
            r = self.models.get(name)
            if r is None:
                for pat, f in self.models.get("__re__", ()):
                    if pat.match(dem):
                        r = f
                        break
            self.model_cache[name] = r
        return r

    def call_fn(self, fr, st, ins, name, args, live):
        mdl = self.find_model(name)
        fn = self.m.funcs.get(name)
        if mdl is not None:
            r = mdl(self, fr, st, ins, args)
            if r is not NotImplemented:
                return r
        if fn is None or fn.blocks is None:
            return self.external(fr, st, ins, name, args, fn)
        # bounded recursion
        if fr.path.count(name) >= self.opt["recursion"]:
            self.record(fr, ins, "recursion", False, "recursion of %s is not bounded" % fn.short)
            return []
        keep = set(fr.keep)
        for r in live:
            v = st.regs.get(r)
            if v is not None:
                val_syms(v, keep)
                val_objs(v, keep)
        saved = {r: st.regs[r] for r in live if r in st.regs}
        nf = Frame(fn, fr.path + (ins.get("uid", id(ins)), name), fr.stack + [(fn.short, ins.get("file", fr.fn.file), ins.get("line", 0))],
                   keep, fr.depth + 1)
        if nf.depth > self.opt["max_depth"]:
            raise Broken("call depth")
        # by-value aggregates are copied by the callee's caller
        for i, n in enumerate(ins.get("byval", ())):
            if n and isinstance(args[i], Ptr):
                oid = ("b", nf.path, i)
                st.mem[oid] = Obj(lin(n), (), "top", False, (), "stack", "argument copy")
                nf.allocas.add(oid)
                r = self.copy_const(fr, ins, st, Ptr(oid, lin(0)), args[i], n)
                st = r[0] if r else st
                args = list(args)
                args[i] = Ptr(oid, lin(0))
        st.regs = {i: v for i, v in enumerate(args)}
        self.functions.add((fn.dem, fn.file))
        before = (st.poly, dict(st.mem)) if self.opt.get("frame") and "id" not in ins else None
        out = self.exec_fn(nf, st)
        if before is not None and len(out) > 1 and all(len(s.mem) == len(before[1]) and all(before[1].get(k) is o for k, o in s.mem.items()) for s, _ in out):
            # no effect: what the callee learnt about its arguments is forgotten
            return [(State(before[0], dict(saved), before[1]), None)]
        res = []
        for s, v in out:
            s.regs = dict(saved)
            res.append((s, v))
        return res

    def external(self, fr, st, ins, name, args, fn):
        dem = fn.dem if fn else name
        self.externals.add(dem)
        if fn is not None and fn.noreturn or ins.get("noreturn"):
            self.record(fr, ins, "abort", False, "%s may be reached" % dem)
            return []
        self.record(fr, ins, "unmodelled", False, "call to unmodelled external function %s" % dem)
        for a in args:
            if isinstance(a, Ptr) and a.obj in st.mem and not st.mem[a.obj].ro:
                o = st.mem[a.obj]
                st.mem[a.obj] = o.upd(entries=(), base="top")
        return [(st, self.unknown(st, ins["ty"]))]

    def unknown(self, st, ty):
        if ty == "v":
            return None
        if isinstance(ty, list):
            if ty[0] == "s":
                return Agg([self.unknown(st, f[1]) for f in ty[2]])
            return Agg([self.unknown(st, ty[4]) for _ in range(ty[2])])
        if ty == "p":
            return TOP
        if ty[0] == "i":
            return self.fresh_int(st, int(ty[1:]))
        return Flt(int(ty[1:]) if ty[0] == "f" else 64)

    # ---------------------------------------------------------------- memory intrinsics
    def copy_const(self, fr, ins, st, d, s, n):
        """copy n (constant) bytes; returns states (access already checked)"""
        so = self.obj(st, s.obj)
        pieces = []
        r = 0
        while r < n:
            off = addc(s.off, r)
            ln = None
            limit = n - r
            if so.chain and limit > 2 and self.on_chain(st, so, off):
                pieces.append((r, 2))
                r += 2
                continue
            for e in so.entries:
                if e[0] not in "ck":
                    q = sub(e[1], off)
                    if q.const and 0 < q.c < limit:
                        limit = q.c
                    continue
                k = sub(off, e[1])
                if not k.const:
                    continue
                if 0 <= k.c < e[2]:
                    ln = min(e[2] - k.c, limit)
                    break
                if k.c < 0 and -k.c < limit:
                    limit = -k.c
            if ln is None:
                ln = limit
                if so.base[0] == "init" and off.const:
                    m = self.flat_init(so.base[1])
                    e = m.get(off.c)
                    ln = min(ln, e[0] if e is not None and e[1] != "z" else 8)
                else:
                    ln = min(ln, 8)
                a = r % 8 if d.off.const and d.off.c % 8 == 0 else 0
                ln = min(ln, 8 - a) if a else ln
                if ln not in (1, 2, 4, 8):
                    ln = 4 if ln > 4 else 2 if ln > 2 else 1
            pieces.append((r, ln))
            r += ln
        work = [(st, [])]
        for r, ln in pieces:
            nw = []
            for x, vs in work:
                for x2, v in self.read(x, s.obj, addc(s.off, r), ln):
                    nw.append((x2, vs + [v]))
            work = nw
        out = []
        for x, vs in work:
            for (r, ln), v in zip(pieces, vs):
                if isinstance(v, Tok) and ln > 1:
                    self.write_range(x, d.obj, addc(d.off, r), addc(d.off, r + ln), ("tok", v.kind))
                else:
                    self.write(x, d.obj, addc(d.off, r), ln, v)
            out.append(x)
        return out

    def mem_copy(self, fr, ins, st, d, s, nval):
        out = []
        for s0, n in self.interp(st, nval, 1):
            if not n.const:
                lo, hi = s0.poly.bounds(n)
                if lo is not None and hi is not None and lo == hi:
                    n = lin(lo)
            for s1 in self.access(fr, ins, s0, s, n, False):
                for s2 in self.access(fr, ins, s1, d, n, True):
                    out += self._mem_copy(fr, ins, s2, d, s, n)
        return out

    def _mem_copy(self, fr, ins, st, d, s, n):
        if n.const:
            if n.c == 0:
                return [st]
            if n.c <= 64:
                out = self.copy_const(fr, ins, st, d, s, n.c)
                for x in out:
                    self.on_write(fr, ins, x, d, n)
                return out
        else:
            lo, hi = st.poly.bounds(n)
            if lo is not None and hi is not None and hi - max(lo, 0) <= self.opt["split"] and not self.watched(st, d):
                out = []
                for c in range(max(lo, 0), hi + 1):
                    p = st.poly.add_checked(eq(n, lin(c)))
                    if p is not None:
                        out += self._mem_copy(fr, ins, st.fork(p), d, s, lin(c))
                return out
            z = st.poly.add_checked(eq(n))
            if z is not None and (not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.obj is None or s.obj is None):
                return [st.fork(z)]
        so = self.obj(st, s.obj)
        self.write_range(st, d.obj, d.off, add(d.off, n), ("copy", so, sub(s.off, d.off)))
        self.on_write(fr, ins, st, d, n)
        return [st]

    def watched(self, st, d):
        """a byte of the destination is followed on its own: copied as a whole range, it keeps its identity"""
        o = st.mem.get(d.obj) if isinstance(d, Ptr) and d.obj is not None else None
        return o is not None and bool(o.watch)

    def mem_set(self, fr, ins, st, d, v, nval):
        out = []
        if isinstance(v, Int) and v.w != 8:
            v = self.trunc(v, 8)
        for s0, n in self.interp(st, nval, 1):
            for s2 in self.access(fr, ins, s0, d, n, True):
                if isinstance(d, Ptr) and d.obj is not None:
                    self.write_range(s2, d.obj, d.off, add(d.off, n), ("set", v))
                    self.on_write(fr, ins, s2, d, n)
                out.append(s2)
        return out

    # ---------------------------------------------------------------- normalisation, joining
    def resolve(self, st, live):
        """make watched cells and delayed booleans explicit; may split"""
        sts = [st]
        for oid in list(st.mem):
            o = st.mem[oid]
            for k in o.watch:
                nw = []
                for s in sts:
                    oo = s.mem[oid]
                    at = next((i for i, e in enumerate(oo.entries) if not (e[0] == "c" and e[2] == 1 and e[1] in oo.watch)), len(oo.entries))
                    if any(e[1] == k for e in oo.entries[:at]):
                        nw.append(s)
                        continue
                    for s2, v in self.read(s, oid, k, 1):
                        o2 = s2.mem[oid]
                        rest = tuple(e for e in o2.entries if not (e[0] == "c" and e[1] == k and e[2] == 1))
                        s2.mem[oid] = o2.upd(entries=(("c", k, 1, v),) + rest)
                        nw.append(s2)
                sts = nw
        # booleans
        out = []
        for s in sts:
            todo = [s]
            for r in live:
                v = s.regs.get(r)
                if isinstance(v, Bool) and v != TRUE and v != FALSEB:
                    nw = []
                    for x in todo:
                        for y, t in self.split_bool(x, v):
                            y.regs[r] = TRUE if t else FALSEB
                            nw.append(y)
                    todo = nw
                elif isinstance(v, Int) and v.b is not None:
                    nw = []
                    for x in todo:
                        for y, t in self.split_bool(x, v.b):
                            y.regs[r] = mkint(v.w, 1 if t else 0)
                            nw.append(y)
                    todo = nw
            for oid, o in s.mem.items():
                for e in o.entries:
                    if e[0] == "c" and isinstance(e[3], Int) and e[3].b is not None:
                        nw = []
                        for x in todo:
                            for y, t in self.split_bool(x, e[3].b):
                                y.mem[oid] = y.mem[oid].upd(entries=tuple(
                                    (q[0], q[1], q[2], mkint(q[3].w, 1 if t else 0)) if q is e or (q[:3] == e[:3] and q[3] is e[3]) else q
                                    for q in y.mem[oid].entries))
                                nw.append(y)
                        todo = nw
            out += todo
        return out

    def vsig(self, v):
        if isinstance(v, Ptr):
            return v.obj if v.obj is not None else "null"
        if isinstance(v, Bool):
            return "T" if v == TRUE else "F" if v == FALSEB else "B"
        if isinstance(v, Tok):
            return ("tok", v.kind)
        if isinstance(v, Agg):
            return tuple(self.vsig(x) for x in v.v)
        if v is TOP:
            return "top"
        if isinstance(v, Int):
            if v.lin is not None and len(v.lin.t) == 1 and v.lin.c == 0 and v.lin.t[0][0] in self.pinned:
                return ("pin", v.lin.t[0][0])
            return 0
        return 0

    def shape(self, st, live):
        regs = tuple((r, self.vsig(st.regs[r])) for r in sorted(live) if r in st.regs)
        mem = []
        for oid in sorted(st.mem, key=repr):
            o = st.mem[oid]
            if o.ro or o.kind == "text":
                continue
            nm = o.name
            g = o.kind == "global" and nm.startswith("vp_gs")
            sig = []
            seen = []
            for e in o.entries:
                if e[0] == "c" and e[1].const:
                    if any(l <= e[1].c and e[1].c + e[2] <= h for l, h in seen):
                        continue
                    seen.append((e[1].c, e[1].c + e[2]))
                    x = self.vsig(e[3])
                    if g and isinstance(e[3], Int) and e[3].lin is not None and e[3].lin.const:
                        x = ("c", e[3].lin.c)
                    if x:
                        sig.append((e[1].c, x))
                elif e[0] == "c" and e[1] in o.watch:
                    x = self.vsig(e[3])
                    if isinstance(e[3], Int) and e[3].lin is not None and e[3].lin.const and e[3].lin.c in self.pinned_const:
                        x = ("c", e[3].lin.c)
                    sig.append((e[1], x))
            mem.append((oid, tuple(sorted(sig, key=repr))))
        return (regs, tuple(mem))

    def locsyms(self, st, live, keep):
        ks = set(keep)
        for r in live:
            v = st.regs.get(r)
            if v is not None:
                val_syms(v, ks)
        for o in st.mem.values():
            obj_syms(o, ks)
        return ks

    def reach(self, st, live, keep):
        """objects which can still be named: from live registers, callers' registers, globals, and through memory"""
        todo = []
        seen = set()

        def val(v):
            if isinstance(v, Ptr):
                obj(v.obj)
            elif isinstance(v, Agg):
                for x in v.v:
                    val(x)
            elif isinstance(v, Int) and self.sym_base:
                ks = set()
                val_syms(v, ks)
                for s in ks:
                    if s in self.sym_base:
                        obj(self.sym_base[s])

        def obj(o):
            if o is not None and o not in seen:
                seen.add(o)
                if o in st.mem:
                    todo.append(st.mem[o])
        for r in live:
            val(st.regs.get(r))
        for o in keep:
            if not isinstance(o, int):
                obj(o)
        for oid, o in st.mem.items():
            if oid[0] == "g":
                obj(oid)
        while todo:
            o = todo.pop()
            if o.ro:
                continue
            for e in o.entries:
                if e[0] in "ck":
                    val(e[3])
                elif e[3][0] == "set":
                    val(e[3][1])
                elif e[3][0] == "alias":
                    obj(e[3][1])
                elif e[3][0] == "copy":
                    todo.append(e[3][1])
        return seen

    def gc(self, st, live, keep):
        st.regs = {r: st.regs[r] for r in live if r in st.regs}
        seen = self.reach(st, live, keep)
        if len(seen) < len(st.mem) or any(o not in seen for o in st.mem):
            st.mem = {k: o for k, o in st.mem.items() if k in seen}
        ks = self.locsyms(st, live, keep)
        for oid, o in st.mem.items():
            if o.chain:
                c = frozenset(f for f in o.chain if all(v in ks for x in f[1:] for v, _ in x.t))
                if c != o.chain:
                    st.mem[oid] = o.upd(chain=c)
        st.poly = st.poly.project(ks)
        return st

    class Mapper:
        def __init__(self, an):
            self.an = an
            self.m = {}

        def __call__(self, a, b):
            if a == b:
                return a
            r = self.m.get((a, b))
            if r is None:
                r = self.m[(a, b)] = sym(self.an.fresh())
            return r

    def join_val(self, A, B, va, vb, mp, win):
        if va == vb:
            if isinstance(va, Int) and va.hint != vb.hint:
                return Int(va.w, va.lin, va.bits, va.hint & vb.hint, va.b)
            return va
        if isinstance(va, Int) and isinstance(vb, Int) and va.w == vb.w:
            if va.b is not None or vb.b is not None:
                return Int(va.w, self.join_any(A, B, mp, 0, 1), None, 3)
            xa, xb = self.mat(A, va), self.mat(B, vb)
            la, lb = xa.lin, xb.lin
            ha, hb = xa.hint, xb.hint
            if la.const:
                ha, la = self.const_hint(la, va.w, hb)
                if lb.const:
                    hb, lb = self.const_hint(lb, va.w, ha)
            if lb.const:
                hb, lb = self.const_hint(lb, va.w, ha)
            if la == lb:
                return Int(va.w, la, None, ha & hb)
            h = 0
            M = 1 << va.w
            for bit, lo, hi in ((1, 0, M - 1), (2, -(M >> 1), (M >> 1) - 1)):
                if self.in_window(A, la, ha, bit, lo, hi) and self.in_window(B, lb, hb, bit, lo, hi):
                    h |= bit
            n = mp(la, lb)
            if h and not n.const:
                if h & 1:
                    win.append((n, 0, M - 1))
                if h & 2:
                    win.append((n, -(M >> 1), (M >> 1) - 1))
            return Int(va.w, n, None, h)
        if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.obj == vb.obj:
            return Ptr(va.obj, mp(va.off, vb.off))
        if isinstance(va, Agg) and isinstance(vb, Agg) and len(va.v) == len(vb.v):
            return Agg([self.join_val(A, B, x, y, mp, win) for x, y in zip(va.v, vb.v)])
        if isinstance(va, Flt) and isinstance(vb, Flt):
            return Flt(va.w)
        if isinstance(va, Bool) and isinstance(vb, Bool):
            return ANY
        if isinstance(va, Tok) or isinstance(vb, Tok):
            return Tok("maybe")
        if isinstance(va, Int) and isinstance(vb, Int):
            return None
        return TOP

    def const_hint(self, L, w, other):
        c = L.c & ((1 << w) - 1)
        if c >> (w - 1) and w > 1:
            if other & 1 and not other & 2:
                return 1, lin(c)
            return 2, lin(c - (1 << w))
        return 3, lin(c)

    def in_window(self, st, L, h, bit, lo, hi):
        if h & bit:
            return True
        if L.const:
            return lo <= L.c <= hi
        return st.poly.entails(ge(L, lin(lo))) and st.poly.entails(ge(lin(hi), L))

    def join_any(self, A, B, mp, lo, hi):
        n = sym(self.fresh())
        k = (ge(n, lin(lo)), ge(lin(hi), n))
        A.poly = A.poly.add(*k)
        B.poly = B.poly.add(*k)
        return n

    def join_obj(self, A, B, oa, ob, mp, win):
        if oa is ob or oa == ob:
            return oa
        base = oa.base
        tok = oa.base[0] == "tok" or ob.base[0] == "tok"
        if oa.base != ob.base:
            base = ("tok", "maybe") if tok else "top"
        anyc = ("tok", "maybe") if tok else ("any",)
        out = []
        watch = oa.watch
        for k in watch:
            va = next((e[3] for e in oa.entries if e[0] == "c" and e[1] == k), None)
            vb = next((e[3] for e in ob.entries if e[0] == "c" and e[1] == k), None)
            v = self.join_val(A, B, va, vb, mp, win) if va is not None and vb is not None else None
            out.append(("c", k, 1, v if v is not None else Tok("maybe")))
        ra = [e for e in oa.entries if not (e[0] == "c" and e[1] in watch)]
        rb = [e for e in ob.entries if not (e[0] == "c" and e[1] in watch)]
        keys = {}
        for e in ra + rb:
            if e[0] == "c" and e[1].const:
                keys[(e[1].c, e[2])] = 1
        ks = sorted(keys)
        # resolve partial overlaps into bytes
        bad = set()
        for i, (l, n) in enumerate(ks):
            for (l2, n2) in ks[i + 1:]:
                if l2 >= l + n:
                    break
                bad.add((l, n))
                bad.add((l2, n2))
        if bad:
            bytes_ = set()
            for l, n in bad:
                if n <= 64:
                    bytes_ |= set(range(l, l + n))
            # keep the finest full keys when they tile
            fine = [k for k in ks if k in bad and not any(k2 != k and k[0] <= k2[0] and k2[0] + k2[1] <= k[0] + k[1] for k2 in bad)]
            cov = set()
            for l, n in fine:
                cov |= set(range(l, l + n))
            ks = [k for k in ks if k not in bad] + fine + [(b, 1) for b in sorted(bytes_ - cov)]
        for l, n in sorted(ks):
            va = self.quiet_read(A, oa, lin(l), n)
            vb = self.quiet_read(B, ob, lin(l), n)
            v = None
            if va is not None and vb is not None:
                v = self.join_val(A, B, va, vb, mp, win)
            if v is None:
                if tok:
                    out.append(("r", lin(l), lin(l + n), anyc))
                    continue
                v = Int(8 * n, self.join_any(A, B, mp, 0, (1 << (8 * n)) - 1), None, 1)
            out.append(("c", lin(l), n, v))
        # symbolic entries
        sa = [e for e in ra if e[0] == "r" or (e[0] == "c" and not e[1].const)]
        sb = [e for e in rb if e[0] == "r" or (e[0] == "c" and not e[1].const)]
        i = 0
        while not self.force and i < len(sa) and i < len(sb) and sa[len(sa) - 1 - i] == sb[len(sb) - 1 - i]:
            i += 1
        common = sa[len(sa) - i:]
        xa, xb = sa[:len(sa) - i], sb[:len(sb) - i]
        if not self.force and len(xa) == len(xb) and xa and all(x[:3] == y[:3] and x[0] == "c" for x, y in zip(xa, xb)):
            for x, y in zip(xa, xb):
                v = self.join_val(A, B, x[3], y[3], mp, win)
                if v is None:
                    v = Tok("maybe") if tok else Int(8 * x[2], self.join_any(A, B, mp, 0, (1 << (8 * x[2])) - 1), None, 1)
                out.append((x[0], x[1], x[2], v))
            out += common
        else:
            if xa or xb:
                for e in common:
                    if self.all_disjoint(A, e, xa) and self.all_disjoint(B, e, xb):
                        out.append(e)
                    else:
                        out.append(("r", e[1], addc(e[1], e[2]) if e[0] == "c" else e[2], anyc))
                if base != "top":
                    base = ("tok", "maybe") if tok else "top"
            else:
                out += common
        if base == "top" and oa.base == "top" and ob.base == "top" and not xa and not xb:
            kb = {(e[1], e[2]): e[3] for e in rb if e[0] == "k"}
            for e in ra:
                if e[0] == "k" and (e[1], e[2]) in kb:
                    v = self.join_val(A, B, e[3], kb[(e[1], e[2])], mp, win)
                    if v is not None:
                        out.append(("k", e[1], e[2], v))
        elif base == "top" and oa.base == "top" and ob.base == "top":
            kb = {(e[1], e[2]): e[3] for e in rb if e[0] == "k"}
            for e in ra:
                if e[0] == "k" and kb.get((e[1], e[2])) == e[3] and self.all_disjoint(A, e, xa) and self.all_disjoint(B, e, xb):
                    out.append(e)
        return oa.upd(entries=tuple(out), base=base, size=oa.size if oa.size == ob.size else mp(oa.size, ob.size))

    def all_disjoint(self, st, e, others):
        lo = e[1]
        hi = addc(lo, e[2]) if e[0] in "ck" else e[2]
        for x in others:
            l2 = x[1]
            h2 = addc(l2, x[2]) if x[0] in "ck" else x[2]
            if st.poly.add_checked(gt(hi, l2), gt(h2, lo)) is not None:
                return False
        return True

    def join(self, A, B, live, keep, widen=False):
        """A: accumulated state, B: new state with the same shape. Returns joined state."""
        self.stats["joins"] += 1
        A, B = A.fork(), B.fork()
        mp = self.Mapper(self)
        win = []
        regs = {}
        for r in live:
            if r in A.regs and r in B.regs:
                v = self.join_val(A, B, A.regs[r], B.regs[r], mp, win)
                regs[r] = v if v is not None else TOP
        mem = {}
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is not None:
                mem[oid] = self.join_obj(A, B, oa, ob, mp, win)
        for oid, ob in B.mem.items():
            if oid not in A.mem and isinstance(oid, tuple) and oid[0] == "g":
                oa = self.obj(A, oid)
                mem[oid] = self.join_obj(A, B, oa, ob, mp, win)
        for oid, oa in A.mem.items():
            if oid not in B.mem and isinstance(oid, tuple) and oid[0] == "g":
                mem[oid] = self.join_obj(A, B, oa, self.obj(B, oid), mp, win)
        for oid, o in mem.items():
            if o.chain is not None:
                ca, cb = self.obj(A, oid).chain, self.obj(B, oid).chain
                mem[oid] = o.upd(chain=self.chain_join(ca, cb, mp))
        ka, kb = [], []
        for (la, lb), n in mp.m.items():
            ka.append(eq(n, la))
            kb.append(eq(n, lb))
        pa, pb = A.poly.add(*ka), B.poly.add(*kb)
        R = State(None, regs, mem)
        ks = self.locsyms(R, live, keep)
        pa, pb = pa.project(ks), pb.project(ks)
        pa._e = pb._e = False
        wk = []
        for n, lo, hi in win:
            wk += [ge(n, lin(lo)), ge(lin(hi), n)]
        h = P.hull(pa, pb)
        if widen:
            self.stats["widenings"] += 1
            # constraints of the old element, written over the new symbols, that the new element satisfies
            cand = set(pa.cons)
            for k in self.extra_candidates(pa, mp):
                cand.add(k)
            keepc = set()
            for k in cand:
                if pb.entails(k):
                    keepc.add(k)
                elif k[2]:
                    for sg in (1, -1):
                        kk = norm(Lin(tuple((v, sg * x) for v, x in k[0]), sg * k[1]), False)
                        if pb.entails(kk):
                            keepc.add(kk)
            # equalities of the hull are always stable enough to keep (their number decreases)
            for k in h.cons:
                if k[2]:
                    keepc.add(k)
            R.poly = Poly(frozenset(keepc)).add(*wk)
        else:
            R.poly = h.add(*wk)
        R.poly._e = False
        if len(R.poly.cons) > 60:
            R.poly = P.minimise(R.poly)
        return R

    def extra_candidates(self, pa, mp):
        return ()

    def included(self, B, A, live):
        """B (new) included in A (same shape): A's own symbols are instantiated by B's values"""
        m = {}
        checks = []

        def own(L):
            return len(L.t) == 1 and L.t[0][1] == 1 and L.c == 0 and L.t[0][0] in self.own

        def val(a, b):
            if a == b and not isinstance(a, (Int, Ptr, Agg)):
                return True
            if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w:
                if a.b is not None or b.b is not None:
                    return a == b
                if a.lin is None:
                    return b.bits == a.bits
                b2 = self.mat(B, b)
                L = b2.lin
                hb = b2.hint
                if L.const:
                    hb, L = self.const_hint(L, a.w, a.hint)
                if a.hint & ~hb & 3:
                    M = 1 << a.w
                    for bit, lo, hi in ((1, 0, M - 1), (2, -(M >> 1), (M >> 1) - 1)):
                        if a.hint & bit and not self.in_window(B, L, hb, bit, lo, hi):
                            return False
                return lins(a.lin, L)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return lins(a.off, b.off)
            if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
                return all(val(x, y) for x, y in zip(a.v, b.v))
            if isinstance(a, Flt) and isinstance(b, Flt):
                return a.raw is None or a == b
            if a is TOP:
                return True
            if a is ANY or a == b:
                return True
            return False

        def lins(la, lb):
            if own(la):
                s = la.t[0][0]
                if s in m:
                    if m[s] != lb:
                        checks.append((la, lb))
                else:
                    m[s] = lb
                return True
            if la != lb or any(v in self.own for v, _ in la.t):
                checks.append((la, lb))
            return True
        def cell(oid, ob, e, off):
            vb = self.quiet_read(B, ob, off, e[2])
            if vb is None:
                if isinstance(e[3], Int) and e[3].lin is not None and own(e[3].lin) and e[3].hint == 1 and \
                        not (ob.base[0] == "tok"):
                    vb = self.fresh_int(B, 8 * e[2])
                else:
                    return e[3] == Tok("maybe")
            if e[3] == Tok("maybe"):
                return True
            return val(e[3], vb)

        def ent_syms(e):
            es = set()
            obj_syms(Obj(lin(0), (e,)), es)
            return es
        late = []
        B = B.fork()
        for r in live:
            if r in A.regs:
                if r not in B.regs or not val(A.regs[r], B.regs[r]):
                    return False
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is None:
                if isinstance(oid, tuple) and oid[0] == "g":
                    ob = self.obj(B, oid)
                elif oa.kind == "text":
                    continue
                else:
                    return False
            lins(oa.size, ob.size)
            if oa is ob:
                # its values may still mention own symbols: then they denote themselves
                for s in self._osyms(oa):
                    if s in self.own:
                        if m.setdefault(s, sym(s)) != sym(s):
                            checks.append((sym(s), sym(s)))
                continue
            if oa.base != ob.base and oa.base != "top" and oa.base != ("tok", "maybe"):
                return False
            if oa.base == "top" and ob.base[0] == "tok":
                return False
            # every entry of A must be what B has there; symbolic positions wait until all own symbols are known
            for e in oa.entries:
                if e[0] == "c" and e[1].const:
                    r = cell(oid, ob, e, e[1])
                    if not r:
                        return False
                else:
                    late.append((oa, ob, oid, e))
            if oa.base != "top" and oa.base != ("tok", "maybe"):
                late.append((oa, ob, oid, None))
        ident = lambda syms: all(v not in self.own or m.get(v) == sym(v) for v in syms)
        for oa, ob, oid, e in late:
            if e is None:
                # B must not have additional entries
                for x in ob.entries:
                    if x[0] == "k":
                        continue
                    if not any(y[0] != "k" and subst(y[1], m) == x[1] and
                               (y[2] == x[2] if y[0] == "c" else y[0] == x[0] and subst(y[2], m) == x[2]) for y in oa.entries):
                        return False
                continue
            if any(v in self.own and v not in m for v in e[1].syms()):
                return False
            lo = subst(e[1], m)
            if e[0] == "c":
                if not cell(oid, ob, e, lo):
                    return False
            elif e[0] == "r":
                if any(v in self.own and v not in m for v in e[2].syms()):
                    return False
                if e[3][0] == "any" or e[3] == ("tok", "maybe"):
                    continue
                hi = subst(e[2], m)
                j = next((i for i, x in enumerate(ob.entries) if x[0] == "r" and x[1] == lo and x[2] == hi and x[3] == e[3]), None)
                if j is None:
                    return False
                es = set()
                obj_syms(Obj(lin(0), (e,)), es)
                if not ident(es):
                    return False
                if not self.all_disjoint(B, ob.entries[j], [x for x in ob.entries[:j] if x[0] != "k" and not (x in oa.entries and ident(ent_syms(x))) and
                                                                 not (x[0] == "c" and x[1] in oa.watch and x[1] in ob.watch and ident(x[1].syms()))]):
                    return False
            else:
                kb = next((x for x in ob.entries if x[0] == "k" and x[1] == lo and x[2] == e[2]), None)
                if kb is None or not val(e[3], kb[3]):
                    return False
        for oid, oa in A.mem.items():
            if oa.chain and oid in B.mem:
                cb = B.mem[oid].chain
                for f in oa.chain:
                    g = tuple(subst(x, m) for x in f[1:])
                    if not any(h[0] == f[0] and all(self.same(B, x, y) for x, y in zip(g, h[1:])) for h in cb):
                        return False
        for la, lb in checks:
            if not B.poly.entails(eq(subst(la, m), lb)):
                return False
        for k in A.poly.cons:
            kk = norm(subst(Lin(k[0], k[1]), m), k[2])
            if kk is not None and not B.poly.entails(kk):
                return False
        return True

    def _osyms(self, o):
        s = set()
        obj_syms(o, s)
        return s

    # ---------------------------------------------------------------- control flow
    def exec_fn(self, fr, st):
        prepare(fr.fn)
        if self.trace and self.trace != 1:
            print("  " * fr.depth + fr.fn.short)
        q = {0: [st]}
        rets = []
        self.run_list(fr, fr.fn.wto, q, rets)
        out = []
        for s, v in rets:
            for a in fr.allocas:
                s.mem.pop(a, None)
            out.append((s, v))
        limit = 1 if fr.fn.short.startswith("vpj_") or self.opt.get("pure") and out and isinstance(out[0][1], Bool) else self.opt["merge_at"]
        if len(out) > limit:
            sts = []
            for s, v in out:
                s.regs = {"ret": v} if v is not None else {}
                sts.append(s)
            sts = self.merge(sts, ("ret",), fr.keep, limit)
            out = [(s, s.regs.get("ret")) for s in sts]
        else:
            for s, v in out:
                if len(s.poly.cons) > 40:
                    s.regs = {"ret": v} if v is not None else {}
                    self.gc(s, ("ret",), fr.keep)
        return out

    def run_list(self, fr, elems, q, rets):
        for e in elems:
            if isinstance(e, int):
                sts = q.pop(e, None)
                if not sts:
                    continue
                if len(sts) > self.opt["merge_at"] and len(fr.fn.pred[e]) > 1:
                    sts = self.merge(sts, fr.fn.live_in[e], fr.keep, self.opt["merge_at"])
                for s in sts:
                    self.run_block(fr, e, s, q, rets)
            else:
                sts = q.pop(e[0], None)
                if sts:
                    self.run_loop(fr, e, sts, q, rets)

    def merge(self, sts, live, keep, limit):
        """reduce the number of states"""
        live = tuple(live)
        for s in sts:
            self.gc(s, live, keep)
        # identical except for the polyhedron
        groups = []
        for s in sts:
            for g in groups:
                if g.regs == s.regs and g.mem == s.mem:
                    if g.poly.cons == s.poly.cons:
                        break
                    if self.opt["exact"]:
                        h = P.hull(g.poly, s.poly, exact=True)
                        if h is not None:
                            g.poly = h
                            break
            else:
                groups.append(s)
        if len(groups) <= limit:
            return groups
        res = []
        for s in groups:
            res += self.resolve(s, live)
        parts = {}
        for s in res:
            k = self.shape(s, live)
            if k in parts:
                parts[k] = self.join(parts[k], s, live, keep)
            else:
                parts[k] = s
        return list(parts.values())

    def edge(self, fr, st, src, dst, q):
        fn = fr.fn
        ph = fn.phis[dst]
        if ph:
            vals = []
            for i, inc, ty in ph:
                vals.append((i, self.ev(st, inc[src])))
            live = fn.live_in[dst]
            regs = {r: v for r, v in st.regs.items() if r in live}
            for i, v in vals:
                if i in live:
                    regs[i] = v
            st.regs = regs
        else:
            live = fn.live_in[dst]
            st.regs = {r: v for r, v in st.regs.items() if r in live}
        q.setdefault(dst, []).append(st)

    def run_block(self, fr, b, st, q, rets):
        body = fr.fn.body[b]
        work = [(st, 0)]
        H = self.H
        cnt = 0
        while work:
            st, ip = work.pop()
            while True:
                ins = body[ip]
                op = ins["op"]
                self.stats["instructions"] += 1
                if op == "call":
                    live = live_after(fr.fn, b, ip)
                    res = self.do_call(fr, st, ins, live)
                    ip += 1
                    if not res:
                        st = None
                        break
                    for s, v in res:
                        if "id" in ins:
                            s.regs[ins["id"]] = v if v is not None else TOP
                    for s, _ in res[1:]:
                        work.append((s, ip))
                    st = res[0][0]
                    continue
                if op in TERMS:
                    self.terminator(fr, b, st, ins, q, rets)
                    st = None
                    break
                h = H.get(op)
                if h is None:
                    raise Broken("instruction %s at %s:%s" % (op, ins.get("file"), ins.get("line")))
                res = h(fr, st, ins)
                ip += 1
                if res is None:
                    continue
                if not res:
                    st = None
                    break
                for s in res[1:]:
                    work.append((s, ip))
                    cnt += 1
                    if cnt > 20000:
                        raise Budget("state explosion in %s" % fr.fn.short)
                st = res[0]
            if time.process_time() - self.t0 > self.opt["budget"]:
                raise Budget("time budget exceeded in %s" % fr.fn.short)

    def terminator(self, fr, b, st, ins, q, rets):
        op = ins["op"]
        if op == "ret":
            v = self.ev(st, ins["ops"][0]) if ins["ops"] else None
            rets.append((st, v))
        elif op == "br":
            if "cond" not in ins:
                self.edge(fr, st, b, ins["succ"][0], q)
                return
            c = self.ev(st, ins["cond"])
            if not isinstance(c, Bool):
                c = ANY
            for s, t in self.split_bool(st, c):
                self.edge(fr, s, b, ins["succ"][0 if t else 1], q)
        elif op == "switch":
            v = self.ev(st, ins["cond"])
            vals = [(int(c[0][2]), c[1]) for c in ins["cases"]]
            w = ins["cases"][0][0][1] if ins["cases"] else 32
            if not isinstance(v, Int):
                v = self.fresh_int(st, w)
            sg = 1
            if v.lin is not None and v.hint & 2 and not v.hint & 1:
                sg = 2
                vals = [(c - (1 << w) if c >> (w - 1) else c, d) for c, d in vals]
            for s, L in self.interp(st, v, sg):
                for c, d in vals:
                    p = s.poly.add_checked(eq(L, lin(c)))
                    if p is not None:
                        self.edge(fr, s.fork(p), b, d, q)
                cs = sorted(c for c, _ in vals)
                prev = None
                gaps = []
                for c in cs:
                    if prev is None:
                        gaps.append((None, c - 1))
                    elif c - 1 > prev:
                        gaps.append((prev + 1, c - 1))
                    prev = c
                gaps.append((prev + 1 if prev is not None else None, None))
                if len(gaps) > 4:
                    gaps = [(None, cs[0] - 1), (cs[0] + 1, cs[-1] - 1), (cs[-1] + 1, None)]
                for lo, hi in gaps:
                    p = s.poly.add_checked(ge(L, lin(lo)) if lo is not None else None, ge(lin(hi), L) if hi is not None else None)
                    if p is not None:
                        self.edge(fr, s.fork(p), b, ins["default"], q)
        elif op == "unreachable":
            pass
        else:
            raise Broken("terminator %s" % op)

    # ---------------------------------------------------------------- loops
    own = frozenset()

    def loop_once(self, fr, e, sts, rets):
        """one pass of the loop from head states: (back edge states, {exit block: states})"""
        head, elems = e
        q = {}
        for s in sts:
            self.run_block(fr, head, s, q, rets)
        backs = q.pop(head, [])
        # inner blocks in order; back edges to head collect in q[head]
        self.run_list(fr, elems, q, rets)
        backs += q.pop(head, [])
        return backs, q

    def run_loop(self, fr, e, sts, q, rets):
        head, elems = e
        fn = fr.fn
        live = tuple(sorted(fn.live_in[head]))
        keep = fr.keep
        self.stats["loops"] += 1
        self.loops_seen.add((fn.short, fn.blocks[head][-1].get("line", fn.blocks[head][0].get("line", 0))))

        def leave(ex):
            for b, l in ex.items():
                q.setdefault(b, []).extend(l)
        # phase 1: unroll while the analysis is definite about taking the back edge
        work = list(sts)
        indef = 0
        n = 0
        while work and n < self.opt["max_unroll"]:
            nxt = []
            stop = False
            if len(work) > self.opt["merge_at"]:
                work = self.merge(work, live, keep, self.opt["merge_at"])
            any_indef = False
            for s in work:
                r2 = []
                self.rec.append({})
                backs, ex = self.loop_once(fr, e, [s.fork()], r2)
                got = self.rec.pop()
                definite = not (backs and (any(ex.values()) or r2))
                if not definite:
                    if indef >= self.opt["peel"]:
                        # give this head state to the fixpoint phase
                        nxt.append(("fix", s))
                        stop = True
                        continue
                    any_indef = True
                self.commit(got)
                leave(ex)
                rets.extend(r2)
                for x in backs:
                    nxt.append(("go", x))
            if any_indef:
                indef += 1
            n += 1
            work = [s for _, s in nxt]
            if stop:
                break
        if not work:
            return
        # phase 2: fixpoint with widening
        init = []
        for s in work:
            init += self.resolve(s, live)
        if 1 < len(init) <= self.opt["entry"]:
            # one fixpoint per way of entering the loop
            for s in init:
                self.fix_loop(fr, e, [s], live, keep, rets, leave)
        else:
            self.fix_loop(fr, e, init, live, keep, rets, leave)

    def fix_loop(self, fr, e, init, live, keep, rets, leave):
        head, elems = e
        fn = fr.fn
        inv, olds = {}, {}
        for s in init:
            self.gc(s, live, keep)
            k = self.shape(s, live)
            inv[k] = self.join(inv[k], s, live, keep) if k in inv else s
        init_parts = dict(inv)
        saved_own = self.own
        iters = {k: 0 for k in inv}

        def backs_of(parts):
            r2 = []
            self.rec.append({})
            start = [self.renamed(s, self.owned({0: s}, live) - keep) for s in parts.values()]
            bk, ex = self.loop_once(fr, e, start, r2)
            got = self.rec.pop()
            out = []
            for s in bk:
                out += self.resolve(s, live)
            for s in out:
                self.gc(s, live, keep)
            return out, ex, r2, got

        it = 0
        last = None
        while True:
            it += 1
            if it > self.opt["max_iters"]:
                raise Broken("no fixpoint for the loop at %s:%s" % (fn.short, fn.blocks[head][-1].get("line")))
            bk, ex, r2, got = backs_of(inv)
            if self.trace == 4:
                print("  " * fr.depth, "LOOP", fn.short, "it", it, "parts", len(inv), "backs", len(bk), "%.1fs" % (time.process_time() - self.t0), "cons", [len(s.poly.cons) for s in inv.values()], flush=True)
            stable = True
            newp = {}
            for s in bk:
                k = self.shape(s, live)
                newp.setdefault(k, []).append(s)
            for k, l in newp.items():
                cur = inv.get(k)
                if cur is not None:
                    self.own = self.owned({k: cur}, live) - keep
                    l = [s for s in l if not self.included(s, cur, live)]
                if not l:
                    continue
                stable = False
                if cur is None:
                    cur = l.pop(0)
                    iters[k] = -1
                iters[k] += 1
                for s in l:
                    self.force = iters[k] > 14
                    cur = self.join(cur, s, live, keep, widen=iters[k] > self.opt["delay"])
                    self.force = False
                inv[k] = cur
                if self.trace:
                    print("  " * fr.depth, "loop", fn.short, "it", it, "part", list(inv).index(k), "cons", len(inv[k].poly.cons))
                    if self.trace == 3:
                        for kk in sorted(inv[k].poly.cons):
                            print("      ", Lin(kk[0], kk[1]), "==" if kk[2] else ">=", 0)
            if stable:
                break
            if len(inv) > 60:
                raise Budget("too many partitions in the loop of %s" % fn.short)
        # phase 3: narrowing: init joined with the back edges of the invariant
        result = (inv, ex, r2, got, bk)
        for _ in range(self.opt.get("narrow", 2)):
            nar = {}
            for k, s in init_parts.items():
                nar[k] = s
            for s in bk:
                k = self.shape(s, live)
                nar[k] = self.join(nar[k], s, live, keep) if k in nar else s
            bk2, ex2, r22, got2 = backs_of(nar)
            ok = True
            for s in bk2:
                k = self.shape(s, live)
                if k not in nar:
                    ok = False
                    break
                self.own = self.owned({k: nar[k]}, live) - keep
                if not self.included(s, nar[k], live):
                    ok = False
                    break
            if not ok:
                break
            result = (nar, ex2, r22, got2, bk2)
            bk = bk2
        inv, ex, r2, got, bk = result
        if self.opt["check_term"]:
            self.own = saved_own
            self.termination(fr, e, inv, live, keep)
        self.own = saved_own
        self.commit(got)
        rets.extend(r2)
        leave(ex)

    def owned(self, parts, live):
        """symbols of a head state that stand for its own locations (single-symbol values)"""
        out = set()
        for s in parts.values():
            for r in live:
                self._own_val(s.regs.get(r), out)
            for o in s.mem.values():
                if o.ro:
                    continue
                for e in o.entries:
                    if e[0] in "ck":
                        self._own_val(e[3], out)
        return frozenset(out)

    def renamed(self, st, own):
        """the same state over fresh symbols: a head symbol must not keep its meaning from one round to the next"""
        m = {v: sym(self.fresh()) for v in own}
        if not m:
            return st.fork()
        seen = {}
        regs = {r: val_subst(v, m) for r, v in st.regs.items()}
        mem = {k: obj_subst(o, m, seen) for k, o in st.mem.items()}
        cons = frozenset(k for k in (norm(subst(Lin(t, c), m), e) for t, c, e in st.poly.cons) if k is not None)
        p = Poly(cons)
        p._e = st.poly._e
        return State(p, regs, mem)

    def _own_val(self, v, out):
        if isinstance(v, Int) and v.lin is not None:
            L = v.lin
        elif isinstance(v, Ptr):
            L = v.off
        elif isinstance(v, Agg):
            for x in v.v:
                self._own_val(x, out)
            return
        else:
            return
        if len(L.t) == 1 and L.t[0][1] == 1 and L.c == 0:
            out.add(L.t[0][0])

    def termination(self, fr, e, inv, live, keep):
        """the loop ends: each round strictly moves one of its locations, in one direction (lexicographically), inside the
        range of its machine type"""
        head = e[0]
        fn = fr.fn
        syms = set()
        rounds = []
        saved = fr.keep
        for s in inv.values():
            s = self.renamed(s, self.owned({0: s}, live) - keep)
            old = self.locations(s, live)
            mine = set(keep)
            for L in old.values():
                mine |= {v for v, _ in L.t}
            fr.keep = frozenset(mine)
            self.rec.append({})
            try:
                backs, _ = self.loop_once(fr, e, [s], [])
                backs = [y for x in backs for y in self.resolve(x, live)]
            finally:
                self.rec.pop()
                fr.keep = saved
            for b in backs:
                new = self.locations(b, live)
                rounds.append((b, {k: sub(new[k], old[k]) for k in old if k in new}))
        if self.trace == 5:
            for b, d in rounds:
                print("TERM", fn.short, [(k[-2:], str(v), b.poly.bounds(v)) for k, v in d.items()])
                for oid, o in b.mem.items():
                    if not o.ro: print("   ", str(oid)[-30:], [x[:4] for x in o.entries][:8], [getattr(x[3],"hint",None) for x in o.entries if x[0]=="c"][:5])
        todo = rounds
        while todo:
            best = None
            for k in todo[0][1]:
                for sign in (1, -1):
                    rest = []
                    for b, d in todo:
                        if k not in d:
                            break
                        x = scale(d[k], sign)
                        if self.holds(b, gt(x)):
                            continue
                        if not self.holds(b, ge(x)):
                            break
                        rest.append((b, d))
                    else:
                        if len(rest) < len(todo) and (best is None or len(rest) < len(best)):
                            best = rest
                if best == []:
                    break
            if best is None:
                break
            todo = best
        ins = fn.blocks[head][-1]
        for i in fn.blocks[head]:
            if i.get("line"):
                ins = i
                break
        self.record(fr, ins, "terminates", not todo, "no location of the loop moves strictly in one direction in every round" if todo else "")

    def holds(self, st, c):
        return c is None or (c is not False and st.poly.entails(c))

    def bounded(self, st, v):
        if v.hint or v.lin.const:
            return True
        lo, hi = st.poly.bounds(v.lin)
        return lo is not None and hi is not None and lo >= -(1 << (v.w - 1)) and hi < (1 << v.w)

    def locations(self, st, live):
        out = {}
        for r in live:
            v = st.regs.get(r)
            if isinstance(v, Int) and v.lin is not None and self.bounded(st, v):
                out[("r", r)] = v.lin
            elif isinstance(v, Ptr) and v.obj is not None:
                out[("r", r, v.obj)] = v.off
        for oid, o in st.mem.items():
            if o.ro:
                continue
            for x in o.entries:
                if x[0] == "r":
                    break
                if x[0] != "c" or not x[1].const:
                    continue
                k = ("m", oid, x[1].c, x[2])
                if k in out or any(q[0] == "m" and q[1] == oid and q[2] < x[1].c + x[2] and x[1].c < q[2] + q[3] for q in out):
                    continue
                v = x[3]
                if isinstance(v, Int) and v.lin is not None and self.bounded(st, v):
                    out[k] = v.lin
                elif isinstance(v, Ptr) and v.obj is not None:
                    out[k + (v.obj,)] = v.off
        return out

    def commit(self, got):
        dst = self.rec[-1]
        for k, r in got.items():
            d = dst.get(k)
            if d is None:
                dst[k] = list(r)
            else:
                d[0] += r[0]
                d[1] += r[1]
                if d[2] is None:
                    d[2] = r[2]

    # ---------------------------------------------------------------- driver
    def run(self, name, ctors=True):
        st = State(Poly(), {}, {})
        st.poly._e = False
        sts = [st]
        root = Func()
        root.name = root.short = "driver"
        root.dem = "driver"
        root.file = ""
        fr = Frame(root, (), [("driver", "", 0)], frozenset(), 0)
        ins = {"file": "", "line": 0, "ops": [], "ty": "v"}
        if ctors:
            for c in self.m.ctors:
                nxt = []
                for s in sts:
                    nxt += [x for x, _ in self.call_fn(fr, s, dict(ins, uid=("ctor", c)), c, [], ())]
                sts = nxt
        out = []
        for s in sts:
            out += self.call_fn(fr, s, dict(ins, uid=("entry", name)), name, [], ())
        return out
