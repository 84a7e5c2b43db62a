"""Abstract values of the analyser."""
from poly import Lin, lin, sym, norm, ge, gt, eq, FALSE, subst


class Int:
    """w-bit integer: congruent to lin modulo 2^w.  hint&1: lin is the exact unsigned value, hint&2: exact signed value.
    bits: optional tuple of w atoms (0, 1 or (Lin, i)), least significant first.  b: the Bool it was extended from."""
    __slots__ = ("w", "lin", "bits", "hint", "b")

    def __init__(self, w, lin_, bits=None, hint=0, b=None):
        self.w = w
        self.lin = lin_
        self.bits = bits
        self.hint = hint
        self.b = b

    def __repr__(self):
        if self.b is not None:
            return "i%d(%r)" % (self.w, self.b)
        if self.lin is not None:
            return "i%d[%r]" % (self.w, self.lin)
        return "i%d{%s}" % (self.w, ",".join(str(x) if isinstance(x, int) else "%r.%d" % x for x in self.bits))

    def key(self):
        return ("I", self.w, self.lin, self.bits, self.hint, self.b)

    def __eq__(self, o):
        return self is o or (isinstance(o, Int) and self.w == o.w and self.lin == o.lin and self.bits == o.bits and
                             self.b == o.b)

    def __hash__(self):
        return hash((self.w, self.lin, self.bits))


def mkint(w, c):
    c &= (1 << w) - 1
    s = c - (1 << w) if w > 1 and c >> (w - 1) else c
    return Int(w, lin(s), None, 3 if s == c else 2)


class Bool:
    """i1: alternatives under which it is true / false; each alternative is a tuple of constraints"""
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t = t
        self.f = f

    def __repr__(self):
        return "B(%r|%r)" % (self.t, self.f)

    def __eq__(self, o):
        return self is o or (isinstance(o, Bool) and self.t == o.t and self.f == o.f)

    def __hash__(self):
        return hash((self.t, self.f))


TRUE = Bool(((),), ())
FALSEB = Bool((), ((),))
ANY = Bool(((),), ((),))


def alts(*als):
    """normalise alternatives given as iterables of constraints"""
    out = []
    for a in als:
        a = tuple(k for k in a if k is not None)
        if FALSE in a:
            continue
        if not a:
            return ((),)
        if a not in out:
            out.append(a)
    return tuple(out)


def bnot(b):
    return Bool(b.f, b.t)


def band(a, b):
    if a == FALSEB or b == FALSEB:
        return FALSEB
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    t = alts(*[x + y for x in a.t for y in b.t])
    f = alts(*(list(a.f) + [x + y for x in a.t for y in b.f]))
    return Bool(t, f)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def cmp_bool(op, a, b):
    """comparison of two Lins as mathematical integers"""
    if op == "eq":
        return Bool(alts((eq(a, b),)), alts((gt(b, a),), (gt(a, b),)))
    if op == "ne":
        return bnot(cmp_bool("eq", a, b))
    if op == "lt":
        return Bool(alts((gt(b, a),)), alts((ge(a, b),)))
    if op == "le":
        return Bool(alts((ge(b, a),)), alts((gt(a, b),)))
    if op == "gt":
        return cmp_bool("lt", b, a)
    if op == "ge":
        return cmp_bool("le", b, a)
    raise ValueError(op)


class Ptr:
    """pointer: obj is an object id, None for null, ('fn', name) for functions"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%r" % (self.obj, self.off)

    def __eq__(self, o):
        return self is o or (isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off)

    def __hash__(self):
        return hash((self.obj, self.off))


NULL = Ptr(None, lin(0))


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.v))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Flt:
    """floating point value, known only through its representation"""
    __slots__ = ("w", "raw")

    def __init__(self, w, raw=None):
        self.w = w
        self.raw = raw

    def __repr__(self):
        return "f%d" % self.w

    def __eq__(self, o):
        return self is o or (isinstance(o, Flt) and self.w == o.w and self.raw is not None and self.raw == o.raw)

    def __hash__(self):
        return hash(self.w)


class Tok:
    """a byte with a provenance mark instead of a value (e.g. never written)"""
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return "<%s>" % self.kind

    def __eq__(self, o):
        return isinstance(o, Tok) and self.kind == o.kind

    def __hash__(self):
        return hash(self.kind)


class _Top:
    def __repr__(self):
        return "TOP"


TOP = _Top()


class Obj:
    """memory object. entries: newest first; ('c', lo, size, val) cell, ('r', lo, hi, content) range with content
    ('set', val) | ('copy', Obj, delta) | ('any',) | ('tok', kind).  base: 'top' | 'zero' | ('tok', kind) | ('init', g)"""
    __slots__ = ("size", "entries", "base", "ro", "watch", "kind", "name", "chain")

    def __init__(self, size, entries=(), base="top", ro=False, watch=(), kind="stack", name="", chain=None):
        self.chain = chain
        self.size = size
        self.entries = entries
        self.base = base
        self.ro = ro
        self.watch = watch
        self.kind = kind
        self.name = name

    def upd(self, **k):
        o = Obj(self.size, self.entries, self.base, self.ro, self.watch, self.kind, self.name, self.chain)
        for a, v in k.items():
            setattr(o, a, v)
        return o

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.size == o.size and self.entries == o.entries and
                             self.base == o.base and self.watch == o.watch and self.chain == o.chain)

    def __hash__(self):
        return hash((self.size, self.entries))


def val_syms(v, out):
    if isinstance(v, Int):
        if v.lin is not None:
            for s, _ in v.lin.t:
                out.add(s)
        if v.bits is not None:
            for a in v.bits:
                if not isinstance(a, int):
                    for s, _ in a[0].t:
                        out.add(s)
        if v.b is not None:
            val_syms(v.b, out)
    elif isinstance(v, Ptr):
        for s, _ in v.off.t:
            out.add(s)
    elif isinstance(v, Agg):
        for x in v.v:
            val_syms(x, out)
    elif isinstance(v, Bool):
        for a in v.t + v.f:
            for k in a:
                for s, _ in k[0]:
                    out.add(s)
    elif isinstance(v, Flt):
        if v.raw is not None:
            val_syms(v.raw, out)


def val_objs(v, out):
    if isinstance(v, Ptr):
        if v.obj is not None:
            out.add(v.obj)
    elif isinstance(v, Agg):
        for x in v.v:
            val_objs(x, out)


def obj_syms(o, out, seen=None):
    for s, _ in o.size.t:
        out.add(s)
    for w in o.watch:
        for s, _ in w.t:
            out.add(s)
    for e in o.entries:
        for s, _ in e[1].t:
            out.add(s)
        if e[0] in "ck":
            val_syms(e[3], out)
        else:
            for s, _ in e[2].t:
                out.add(s)
            c = e[3]
            if c[0] == "set":
                val_syms(c[1], out)
            elif c[0] == "alias":
                for s, _ in c[2].t:
                    out.add(s)
            elif c[0] == "copy":
                for s, _ in c[2].t:
                    out.add(s)
                obj_syms(c[1], out)


def _alts_subst(al, m):
    return tuple(tuple(k for k in (norm(subst(Lin(t, c), m), e) for t, c, e in a) if k is not None) for a in al)


def val_subst(v, m):
    if isinstance(v, Int):
        L = subst(v.lin, m) if v.lin is not None else None
        bits = v.bits
        if bits is not None:
            bits = tuple(a if isinstance(a, int) else (subst(a[0], m), a[1]) for a in bits)
        b = val_subst(v.b, m) if v.b is not None else None
        return Int(v.w, L, bits, v.hint, b)
    if isinstance(v, Ptr):
        o = subst(v.off, m)
        return v if o is v.off else Ptr(v.obj, o)
    if isinstance(v, Agg):
        return Agg([val_subst(x, m) for x in v.v])
    if isinstance(v, Bool):
        if v is TRUE or v is FALSEB or v is ANY:
            return v
        return Bool(_alts_subst(v.t, m), _alts_subst(v.f, m))
    if isinstance(v, Flt):
        return Flt(v.w, val_subst(v.raw, m) if v.raw is not None else None)
    return v


def obj_subst(o, m, seen):
    r = seen.get(id(o))
    if r is not None:
        return r[0]
    ents = []
    for e in o.entries:
        if e[0] in "ck":
            ents.append((e[0], subst(e[1], m), e[2], val_subst(e[3], m)))
        else:
            c = e[3]
            if c[0] == "set":
                c = ("set", val_subst(c[1], m))
            elif c[0] == "copy":
                c = ("copy", obj_subst(c[1], m, seen), subst(c[2], m))
            elif c[0] == "alias":
                c = ("alias", c[1], subst(c[2], m))
            ents.append((e[0], subst(e[1], m), subst(e[2], m), c))
    r = o.upd(entries=tuple(ents), size=subst(o.size, m), watch=tuple(subst(w, m) for w in o.watch))
    if o.chain:
        r.chain = frozenset((f[0],) + tuple(subst(x, m) for x in f[1:]) for f in o.chain)
    seen[id(o)] = (r, o)
    return r
