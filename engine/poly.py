"""Linear expressions and convex polyhedra: the numeric abstract domain of the analyser.

A polyhedron is an immutable set of linear constraints over integer symbols.  Emptiness, projection and hull are
delegated to isl through a small C shim; widening keeps the constraints of the old element the new one satisfies."""
import ctypes
import os
from math import gcd


class Lin:
    """const + sum(coef * sym), immutable."""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t          # tuple of (sym, coef), sorted by sym, coef != 0
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __repr__(self):
        s = " + ".join(("%s" if k == 1 else "%d*%%s" % k) % ("s%d" % v) for v, k in self.t)
        if not s:
            return str(self.c)
        return s + (" + %d" % self.c if self.c else "")

    @property
    def const(self):
        return not self.t

    def syms(self):
        return [v for v, _ in self.t]


def lin(c):
    return Lin((), c)


def sym(s):
    return Lin(((s, 1),), 0)


ZERO = lin(0)
ONE = lin(1)


def add(a, b, k=1):
    """a + k*b"""
    if not b.t:
        return Lin(a.t, a.c + k * b.c) if b.c else a
    if not a.t and k == 1:
        return Lin(b.t, a.c + b.c)
    d = dict(a.t)
    for v, q in b.t:
        n = d.get(v, 0) + k * q
        if n:
            d[v] = n
        else:
            del d[v]
    return Lin(tuple(sorted(d.items())), a.c + k * b.c)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Lin(tuple((v, q * k) for v, q in a.t), a.c * k)


def addc(a, c):
    return Lin(a.t, a.c + c) if c else a


def subst(a, m):
    """replace symbols by Lin according to m"""
    hit = False
    for v, _ in a.t:
        if v in m:
            hit = True
            break
    if not hit:
        return a
    r = Lin((), a.c)
    keep = []
    for v, q in a.t:
        if v in m:
            r = add(r, m[v], q)
        else:
            keep.append((v, q))
    return add(r, Lin(tuple(keep), 0))


# constraint: (t, c, eq)  meaning  sum + c >= 0  or == 0
FALSE = ((), -1, False)


def norm(e, eq):
    """normalised constraint tuple, None if trivially true, FALSE if unsatisfiable"""
    if not e.t:
        if (e.c == 0) if eq else (e.c >= 0):
            return None
        return FALSE
    g = 0
    for _, q in e.t:
        g = gcd(g, q)
    c = e.c
    t = e.t
    if g > 1:
        if eq:
            if c % g:
                return FALSE
            c //= g
        else:
            c = c // g
        t = tuple((v, q // g) for v, q in t)
    if eq and t[0][1] < 0:
        t = tuple((v, -q) for v, q in t)
        c = -c
    return (t, c, eq)


def ge(a, b=ZERO):
    return norm(sub(a, b), False)


def gt(a, b=ZERO):
    return norm(addc(sub(a, b), -1), False)


def eq(a, b=ZERO):
    return norm(sub(a, b), True)


class _I128(ctypes.Structure):
    _fields_ = [("hi", ctypes.c_int64), ("lo", ctypes.c_uint64)]


_lib = None
CAP = 4000
_out = None


def load(path=None):
    global _lib, _out
    if _lib is None:
        path = path or os.environ.get("VP_POLYSHIM")
        _lib = ctypes.CDLL(path)
        _out = (ctypes.c_uint64 * (CAP * 120 * 2))()
    return _lib


M64 = (1 << 64) - 1


class GaveUp(Exception):
    pass


FACET = 64
HULL_N = 8
HULL_OPS = 300000
DEBUG = False
STATS = {"empty": 0, "hull": 0, "proj": 0, "hit": 0}


def _pack(cons, order, n):
    """rows, equalities first"""
    eqs = [c for c in cons if c[2]]
    ins = [c for c in cons if not c[2]]
    w = n + 1
    arr = (ctypes.c_uint64 * (2 * w * max(1, len(cons))))()
    r = 0
    for t, c, _ in eqs + ins:
        base = 2 * w * r
        row = [(0, c)] + [(order[v] + 1, q) for v, q in t]
        for col, q in row:
            if q:
                arr[base + 2 * col] = (q >> 64) & M64
                arr[base + 2 * col + 1] = q & M64
        r += 1
    return len(eqs), len(ins), arr


def _unpack(n, oe, oi, syms):
    res = []
    w = n + 1
    for r in range(oe + oi):
        base = 2 * w * r
        vals = []
        for col in range(w):
            hi = _out[base + 2 * col]
            lo = _out[base + 2 * col + 1]
            x = (hi << 64) | lo
            if hi >> 63:
                x -= 1 << 128
            vals.append(x)
        t = tuple(sorted((syms[i], vals[i + 1]) for i in range(n) if vals[i + 1]))
        k = norm(Lin(t, vals[0]), r < oe)
        if k is not None:
            res.append(k)
    return res


_empty_cache = {}


def _quick(cons):
    """cheap interval test: detects contradiction of opposite single constraints; returns True if certainly empty"""
    lo = {}
    for t, c, e in cons:
        if not t:
            return True
        # canonical direction
        if t[0][1] > 0:
            key, sgn = t, 1
        else:
            key, sgn = tuple((v, -q) for v, q in t), -1
        l, h = lo.get(key, (None, None))
        # sgn*(key) + c >= 0
        if sgn > 0 or e:
            b = -c
            if l is None or b > l:
                l = b
        if sgn < 0 or e:
            b = c if sgn < 0 else -c
            if e and sgn > 0:
                b = -c
            if h is None or b < h:
                h = b
        if l is not None and h is not None and l > h:
            return True
        lo[key] = (l, h)
    return False


def is_empty(cons):
    """cons: iterable of constraint tuples"""
    key = frozenset(cons)
    if FALSE in key:
        return True
    if not key:
        return False
    r = _empty_cache.get(key)
    if r is not None:
        STATS["hit"] += 1
        return r
    if _quick(key):
        _empty_cache[key] = True
        return True
    syms = sorted({v for t, _, _ in key for v, _ in t})
    order = {v: i for i, v in enumerate(syms)}
    ne, ni, arr = _pack(key, order, len(syms))
    STATS["empty"] += 1
    _lib.ps_max_ops(ctypes.c_ulong(200000))
    r = _lib.ps_empty(len(syms), ne, ni, arr)
    if r < 0:
        r = 0
    r = bool(r)
    if len(_empty_cache) > 400000:
        _empty_cache.clear()
    _empty_cache[key] = r
    return r


def relevant(cons, syms):
    """constraints connected to syms"""
    todo = set(syms)
    if not todo:
        return []
    rest = list(cons)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for k in rest:
            for v, _ in k[0]:
                if v in todo:
                    out.append(k)
                    todo.update(v2 for v2, _ in k[0])
                    changed = True
                    break
            else:
                nr.append(k)
        rest = nr
    return out


class Poly:
    __slots__ = ("cons", "_e", "_idx")

    def __init__(self, cons=frozenset()):
        self.cons = cons
        self._e = None
        self._idx = None

    def empty(self):
        if self._e is None:
            self._e = is_empty(self.cons)
        return self._e

    def slice(self, syms):
        if self._idx is None:
            idx = {}
            for k in self.cons:
                for v, _ in k[0]:
                    idx.setdefault(v, []).append(k)
            self._idx = idx
        seen = set()
        out = set()
        todo = list(syms)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for k in self._idx.get(v, ()):
                if k not in out:
                    out.add(k)
                    for v2, _ in k[0]:
                        if v2 not in seen:
                            todo.append(v2)
        return out

    def add(self, *ks):
        new = set(self.cons)
        n0 = len(new)
        for k in ks:
            if k is None:
                continue
            if k is FALSE or k == FALSE:
                p = Poly(frozenset((FALSE,)))
                p._e = True
                return p
            new.add(k)
        if len(new) == n0:
            return self
        return Poly(frozenset(new))

    def add_checked(self, *ks):
        """add, assuming self nonempty; returns None if the result is empty"""
        ks = [k for k in ks if k is not None]
        if not ks:
            return self
        for k in ks:
            if k == FALSE:
                return None
        new = [k for k in ks if k not in self.cons]
        if not new:
            return self
        syms = {v for k in new for v, _ in k[0]}
        s = set(self.slice(syms))
        s.update(new)
        if is_empty(s):
            return None
        p = Poly(self.cons | frozenset(new))
        p._e = False
        return p

    def sat(self, *ks):
        """may the constraints hold together with self (self assumed nonempty)"""
        return self.add_checked(*ks) is not None

    def entails(self, k):
        if k is None:
            return True
        if k == FALSE:
            return False
        if k in self.cons:
            return True
        t, c, e = k
        if e:
            return (not self.sat(norm(Lin(t, c - 1), False))) and \
                   (not self.sat(norm(Lin(tuple((v, -q) for v, q in t), -c - 1), False)))
        return not self.sat(norm(Lin(tuple((v, -q) for v, q in t), -c - 1), False))

    def bounds(self, e):
        """(min, max) integer bounds of Lin e; None where unbounded"""
        if not e.t:
            return e.c, e.c
        if len(e.t) == 1 and abs(e.t[0][1]) == 1:
            pass
        z = -1
        cons = set(self.slice(e.syms()))
        cons.add(norm(sub(sym(z), Lin(e.t, 0)), True))
        syms = [z] + sorted({v for t, _, _ in cons for v, _ in t} - {z})
        order = {v: i for i, v in enumerate(syms)}
        ne, ni, arr = _pack(cons, order, len(syms))
        res = []
        o = _I128()
        for s in (-1, 1):
            _lib.ps_max_ops(ctypes.c_ulong(300000))
            r = _lib.ps_opt(len(syms), ne, ni, arr, s, ctypes.byref(o))
            if r == 0:
                x = ((o.hi & M64) << 64) | o.lo
                if o.hi < 0:
                    x -= 1 << 128
                res.append(x + e.c)
            else:
                res.append(None)
        return tuple(res)

    def syms(self):
        return {v for t, _, _ in self.cons for v, _ in t}

    def project(self, keep):
        """eliminate all symbols not in keep"""
        allsyms = self.syms()
        drop = allsyms - keep
        if not drop:
            if len(self.cons) > 12:
                p = Poly(tidy(self.cons))
                p._e = self._e
                return p
            return self
        cons = set(self.cons)
        # cheap: substitute equalities with unit coefficient first
        changed = True
        while changed:
            changed = False
            for k in cons:
                if not k[2]:
                    continue
                for v, q in k[0]:
                    if v in drop and abs(q) == 1:
                        # v = -(rest)/q
                        rest = Lin(tuple((x, -y * q) for x, y in k[0] if x != v), -k[1] * q)
                        m = {v: rest}
                        new = set()
                        for kk in cons:
                            if kk is k:
                                continue
                            if any(x == v for x, _ in kk[0]):
                                kk = norm(subst(Lin(kk[0], kk[1]), m), kk[2])
                                if kk is None:
                                    continue
                            new.add(kk)
                        cons = new
                        drop = drop - {v}
                        changed = True
                        break
                if changed:
                    break
        if FALSE in cons:
            p = Poly(frozenset((FALSE,)))
            p._e = True
            return p
        # drop symbols one connected group at a time
        drop = {v for t, _, _ in cons for v, _ in t} & drop
        while drop:
            v = next(iter(drop))
            grp = set(k for k in cons if any(x == v for x, _ in k[0]))
            # Fourier-Motzkin for the cheap cases
            pos = [k for k in grp if dict(k[0])[v] > 0 and not k[2]]
            neg = [k for k in grp if dict(k[0])[v] < 0 and not k[2]]
            eqs = [k for k in grp if k[2]]
            cons -= grp
            if not eqs and (not pos or not neg):
                pass
            elif not eqs and (all(abs(dict(k[0])[v]) == 1 for k in pos) or
                              all(abs(dict(k[0])[v]) == 1 for k in neg)) and len(pos) * len(neg) <= 12:
                for a in pos:
                    qa = dict(a[0])[v]
                    for b in neg:
                        qb = -dict(b[0])[v]
                        k = norm(add(scale(Lin(a[0], a[1]), qb), Lin(b[0], b[1]), qa), False)
                        if k is not None:
                            cons.add(k)
            else:
                cons |= _isl_project(grp, {v})
            drop = drop - {v}
            drop &= {x for t, _, _ in cons for x, _ in t}
        p = Poly(tidy(cons))
        if self._e is False:
            p._e = False
        return p


def _isl_project(cons, drop):
    syms = {v for t, _, _ in cons for v, _ in t}
    keep = sorted(syms - drop)
    order = {v: i for i, v in enumerate(keep + sorted(drop & syms))}
    n = len(order)
    ne, ni, arr = _pack(cons, order, n)
    oe, oi = ctypes.c_int(), ctypes.c_int()
    STATS["proj"] += 1
    _lib.ps_max_ops(ctypes.c_ulong(2000000))
    r = _lib.ps_project(n, len(keep), ne, ni, arr, CAP, ctypes.byref(oe), ctypes.byref(oi), _out)
    if r != 0:
        return set()
    if oe.value < 0:
        return {FALSE}
    return set(_unpack(len(keep), oe.value, oi.value, keep))


def _hull_call(c1, c2, mode):
    syms = sorted({v for t, _, _ in (c1 | c2) for v, _ in t})
    order = {v: i for i, v in enumerate(syms)}
    n = len(syms)
    e1, i1, a1 = _pack(c1, order, n)
    e2, i2, a2 = _pack(c2, order, n)
    oe, oi = ctypes.c_int(), ctypes.c_int()
    STATS["hull"] += 1
    _lib.ps_max_ops(ctypes.c_ulong(HULL_OPS))
    r = _lib.ps_hull(n, e1, i1, a1, e2, i2, a2, mode, CAP, ctypes.byref(oe), ctypes.byref(oi), _out)
    if r != 0:
        return None
    if oe.value < 0:
        return {FALSE}
    return set(_unpack(n, oe.value, oi.value, syms))


def hull(p, q, exact=False):
    """join of two polyhedra. exact=True: only if the union is convex, else None"""
    c1, c2 = p.cons, q.cons
    if c1 == c2:
        return p
    if p.empty():
        return q
    if q.empty():
        return p
    common = c1 & c2
    r1, r2 = c1 - common, c2 - common
    # cheap subset tests
    if all(p.entails(k) for k in r2):
        return q
    if all(q.entails(k) for k in r1):
        return p
    seeds = {v for t, _, _ in (r1 | r2) for v, _ in t}
    # context: common constraints over the seed symbols and one hop around them
    ctx = {k for k in common if any(v in seeds for v, _ in k[0])}
    csyms = seeds | {v for t, _, _ in ctx for v, _ in t}
    if len(csyms) > 26:
        ctx = {k for k in common if all(v in seeds for v, _ in k[0])}
    a, b = set(r1 | ctx), set(r2 | ctx)
    n = len({v for t, _, _ in a | b for v, _ in t})
    if exact:
        res = _hull_call(a, b, 2)
        if res is None:
            return None
    else:
        res = None
        weak = False
        if n <= HULL_N:
            res = _hull_call(a, b, 0)
        if res is None:
            weak = True
            res = _hull_call(a, b, 1)
            if res is None:
                res = set()
        # facets with large coefficients are artefacts of far-apart bounds: the exact ones below are enough
        res = {k for k in res if k is None or k[2] or (len(k[0]) <= 6 and all(abs(q) <= FACET for _, q in k[0]))}
        # constraints of either side that hold on the other
        for k in r1:
            if k not in res and q.entails(k):
                res.add(k)
            elif k[2]:
                for s in (1, -1):
                    kk = norm(Lin(tuple((v, s * x) for v, x in k[0]), s * k[1]), False)
                    if q.entails(kk):
                        res.add(kk)
        for k in r2:
            if k not in res and p.entails(k):
                res.add(k)
            elif k[2]:
                for s in (1, -1):
                    kk = norm(Lin(tuple((v, s * x) for v, x in k[0]), s * k[1]), False)
                    if p.entails(kk):
                        res.add(kk)
        if weak:
            res |= differences(p, q, seeds, common | res)
    res = {k for k in res if k is not None}
    out = Poly(tidy(common | res))
    out._e = False
    return out


def differences(p, q, seeds, have):
    """small bounds on differences that hold on both sides and do not follow from a constraint already there"""
    out = set()
    if DEBUG: print("DIFF", len(seeds))
    if len(seeds) > 14:
        return out
    s = sorted(seeds)
    known = {t for t, _, _ in have}
    for i in s:
        for j in s:
            if i == j:
                continue
            d = sub(sym(i), sym(j))
            if d.t in known:
                continue
            k = ge(d, lin(-64))
            if not p.entails(k) or not q.entails(k):
                continue
            a, b = p.bounds(d)[0], q.bounds(d)[0]
            if a is None or b is None:
                continue
            out.add(ge(d, lin(min(a, b))))
    return out


def widen(old, new):
    """constraints of old that new entails (equalities split into two inequalities)"""
    keep = set()
    for k in old.cons:
        if new.entails(k):
            keep.add(k)
        elif k[2]:
            for s in (1, -1):
                kk = norm(Lin(tuple((v, s * x) for v, x in k[0]), s * k[1]), False)
                if new.entails(kk):
                    keep.add(kk)
    p = Poly(frozenset(keep))
    p._e = False
    return p


def tidy(cons):
    """drop inequalities dominated by a parallel one"""
    best = {}
    for t, c, e in cons:
        if e:
            best[(t, 1)] = c
        else:
            k = (t, 0)
            if k not in best or c < best[k]:
                best[k] = c
    out = set()
    for (t, e), c in best.items():
        if not e:
            d = best.get((t, 1))
            if d is not None and d <= c:
                continue
            d = best.get((tuple((v, -q) for v, q in t), 1))
            if d is not None and -d <= c:
                continue
        out.add((t, c, bool(e)))
    return frozenset(out)


def minimise(p):
    """remove redundant inequalities"""
    cons = set(p.cons)
    for k in sorted(cons, key=lambda k: (k[2], -len(k[0]), k)):
        if k[2]:
            continue
        rest = cons - {k}
        t, c, _ = k
        neg = norm(Lin(tuple((v, -q) for v, q in t), -c - 1), False)
        sl = relevant(rest, [v for v, _ in t])
        if is_empty(set(sl) | {neg}):
            cons = rest
    r = Poly(frozenset(cons))
    r._e = p._e
    return r
