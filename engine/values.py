"""Symbolic values: immutable, lazily evaluated aggregates over leaf terms."""
from terms import *
import terms as T


class Mat:
    """rows x cols matrix of reals given by an entry function"""
    __slots__ = ("rows", "cols", "_fn", "_memo", "tag")

    def __init__(self, rows, cols, fn, tag=None):
        self.rows, self.cols = P(rows), P(cols)
        self._fn = fn
        self._memo = {}
        self.tag = tag

    def __call__(self, i, j=0):
        i, j = P(i), P(j)
        r = self._memo.get((i, j))
        if r is None:
            r = P(self._fn(i, j))
            self._memo[(i, j)] = r
        return r

    def dims(self):
        return self.rows.iconst(), self.cols.iconst()

    def block(self, r0, c0, nr, nc):
        r0, c0 = P(r0), P(c0)
        return Mat(nr, nc, lambda i, j: self(r0 + i, c0 + j))

    @property
    def T(self):
        return Mat(self.cols, self.rows, lambda i, j: self(j, i))

    def map(self, f):
        return Mat(self.rows, self.cols, lambda i, j: f(self(i, j)))

    def entries(self):
        r, c = self.dims()
        return [self(i, j) for i in range(r) for j in range(c)]

    # spec-level conveniences (no size obligations: contracts use them on sizes they state)
    def __add__(self, o):
        return Mat(self.rows, self.cols, lambda i, j: self(i, j) + o(i, j))

    def __sub__(self, o):
        return Mat(self.rows, self.cols, lambda i, j: self(i, j) - o(i, j))

    def __neg__(self):
        return self.map(lambda x: -x)

    def scale(self, f):
        f = P(f)
        return self.map(lambda x: f * x)

    def __matmul__(self, o):
        return matmul(self, o)

    def set_block(self, r0, c0, nr, nc, m):
        r0, c0, nr, nc = P(r0), P(c0), P(nr), P(nc)
        old = self

        def fn(i, j):
            inb = AND(ge(i, r0), lt(i, r0 + nr), ge(j, c0), lt(j, c0 + nc))
            if inb is TRUE:
                return m(i - r0, j - c0)
            if inb is FALSE:
                return old(i, j)
            return ite(inb, m(i - r0, j - c0), old(i, j))
        # full overwrite?
        if r0 is ZERO and c0 is ZERO and nr is self.rows and nc is self.cols:
            return Mat(self.rows, self.cols, lambda i, j: m(i, j))
        return Mat(self.rows, self.cols, fn)


def matmul(a, b):
    n = a.cols
    return Mat(a.rows, b.cols, lambda i, j: Sum(n, lambda k: a(i, k) * b(k, j)))


def zeros(r, c):
    return Mat(r, c, lambda i, j: ZERO)


def ident(r, c=None):
    return Mat(r, r if c is None else c, lambda i, j: ite(eq(i, j), ONE, ZERO))


def const_mat(r, c, x):
    x = P(x)
    return Mat(r, c, lambda i, j: x)


def vec(*xs):
    xs = [P(x) for x in xs]
    return Mat(len(xs), 1, lambda i, j: pick(xs, i))


def pick(xs, i):
    c = P(i).iconst()
    if c is not None:
        return xs[c] if 0 <= c < len(xs) else T.app("out_of_range", (P(i),))
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = ite(eq(i, k), xs[k], r)
    return r


def mat_of(rows):
    rows = [[P(x) for x in r] for r in rows]
    return Mat(len(rows), len(rows[0]), lambda i, j: pick([pick(r, j) for r in rows], i))


class StructV:
    """record: lazily produced fields with overrides"""
    __slots__ = ("tname", "_get", "_f")

    def __init__(self, tname, get=None, **fields):
        self.tname = tname
        self._get = get
        self._f = dict(fields)

    def get(self, f):
        v = self._f.get(f)
        if v is None:
            if self._get is None:
                raise Unsupported("no field %s in %s" % (f, self.tname))
            v = self._get(f)
            self._f[f] = v
        return v

    def has(self, f):
        return f in self._f or self._get is not None

    def with_(self, **kw):
        old = self
        s = StructV(self.tname, old.get)
        s._f = dict(kw)
        return s

    def known(self):
        return set(self._f)

    def __getattr__(self, n):
        if n.startswith("_") or n in ("tname",):
            raise AttributeError(n)
        return self.get(n)


class SeqV:
    __slots__ = ("len", "_fn", "_memo", "et")

    def __init__(self, n, fn, et=None):
        self.len = P(n)
        self._fn = fn
        self._memo = {}
        self.et = et

    def __call__(self, k):
        k = P(k)
        v = self._memo.get(k)
        if v is None:
            v = self._fn(k)
            self._memo[k] = v
        return v

    def set(self, k, v):
        k = P(k)
        old = self
        return SeqV(self.len, lambda i: merge(eq(i, k), v, lambda: old(i)), self.et)

    def push(self, v):
        old = self
        n = self.len
        return SeqV(n + 1, lambda i: merge(eq(i, n), v, lambda: _safe(old, i)), self.et)


_filters = {}


def removed(s, x):
    """the sequence without its elements equal to x, in the same order (std::remove and erase); known by name only"""
    import terms as T
    b = T.mk_atom("var", "$flt", "I")
    body = s(P(b))
    if not isinstance(body, (Atom, Poly)):
        raise Unsupported("std::remove on structures")
    key = (s.len, body, x)
    nm = "removed%d" % _filters.setdefault(key, len(_filters))
    fv = sorted((s.len.fv | body.fv | x.fv) - {b}, key=lambda a: a.id)
    ps = tuple(P(p) if p.sort in ("I", "R") else p for p in fv)
    sort = body.sort if isinstance(body, Atom) else "I" if body.is_int() else "R"
    return SeqV(T.app(nm + ".len", ps, "I"), lambda i: T.app(nm + "[]", ps + (P(i),), sort), s.et)


def seq_of(xs, et=None):
    xs = list(xs)

    def fn(i):
        c = i.iconst()
        if c is not None and 0 <= c < len(xs):
            return xs[c]
        if not xs:
            raise Unsupported("element of an empty sequence")
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = merge(eq(i, k), xs[k], r)
        return r
    return SeqV(len(xs), fn, et)


class FamV:
    """total map from a leaf term (object, key) to values"""
    __slots__ = ("_fn", "_memo", "vt")

    def __init__(self, fn, vt=None):
        self._fn = fn
        self._memo = {}
        self.vt = vt

    def __call__(self, k):
        v = self._memo.get(k)
        if v is None:
            v = self._fn(k)
            self._memo[k] = v
        return v

    def set(self, k, v):
        old = self
        return FamV(lambda o: merge(eq(o, k), v, lambda: old(o)), self.vt)


class MapV:
    """std::map / std::set (get may be None for sets).  `enum` describes the iteration order of the initial contents."""
    __slots__ = ("_has", "get", "enum", "kt", "vt", "n")

    def __init__(self, has, get, enum=None, kt=None, vt=None, n=None):
        self._has = has
        self.get = get
        self.enum = enum      # (n, key_at(m), idx(key)) or None when unknown
        self.kt, self.vt = kt, vt
        self.n = n

    def has(self, k):
        return bl(self._has(k))

    def set(self, k, v):
        old = self
        get = None
        if self.get is not None:
            get = FamV(lambda o: merge(eq(o, k), v, lambda: old.get(o)), self.vt)
        return MapV(lambda o: OR(eq(o, k), old.has(o)), get, None, self.kt, self.vt, None)

    def erase(self, k):
        old = self
        return MapV(lambda o: AND(NOT(eq(o, k)), old.has(o)), self.get, None, self.kt, self.vt, None)


class BagV:
    """multiset of guarded, parameterised entries: ghost view of the constraints handed to a problem"""
    __slots__ = ("entries",)

    def __init__(self, entries=()):
        self.entries = tuple(entries)

    def add(self, e):
        return BagV(self.entries + (e,))


class Entry:
    __slots__ = ("binders", "guard", "val")

    def __init__(self, val, guard=TRUE, binders=()):
        self.val, self.guard, self.binders = val, guard, tuple(binders)


class Loc:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def at(self, *acc):
        return Loc(self.cell, self.path + (tuple(acc),))

    def __repr__(self):
        return "Loc(%s,%s)" % (self.cell, self.path)


class PtrV:
    """pointer to a location of the local state; None = null"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


NULL = T.lit("null", "Obj")


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class OpaqueV:
    """external value nothing is known about"""
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what


def merge(c, a, b):
    """ite on values; b (and a) may be thunks"""
    c = bl(c)
    if c is TRUE:
        return a() if callable(a) and not isinstance(a, (Mat, SeqV, FamV)) else a
    if c is FALSE:
        return b() if callable(b) and not isinstance(b, (Mat, SeqV, FamV)) else b
    if callable(a) and not isinstance(a, (Mat, SeqV, FamV)):
        a = a()
    if callable(b) and not isinstance(b, (Mat, SeqV, FamV)):
        b = b()
    if a is b:
        return a
    leaf = (Poly, B, Atom)
    if isinstance(a, leaf) and isinstance(b, leaf):
        return ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda i, j: ite(c, a(i, j), b(i, j)))
    if isinstance(a, StructV) and isinstance(b, StructV):
        if type(a).__name__ == type(b).__name__ == "ExtV":
            r = a.merged(c, b)
            if r is not None:
                return r
        return StructV(a.tname, lambda f: merge(c, a.get(f), b.get(f)))
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return SeqV(ite(c, a.len, b.len), lambda k: merge(c, _safe(a, k), _safe(b, k)), a.et)
    if isinstance(a, FamV) and isinstance(b, FamV):
        return FamV(lambda k: merge(c, a(k), b(k)), a.vt)
    if isinstance(a, MapV) and isinstance(b, MapV):
        get = None
        if a.get is not None:
            get = FamV(lambda k: merge(c, a.get(k), b.get(k)), a.vt)
        n = ite(c, a.n, b.n) if a.n is not None and b.n is not None else None
        return MapV(lambda k: ite(c, a.has(k), b.has(k)), get, None, a.kt, a.vt, n)
    if isinstance(a, BagV) and isinstance(b, BagV):
        pre = 0
        while pre < min(len(a.entries), len(b.entries)) and a.entries[pre] is b.entries[pre]:
            pre += 1
        es = list(a.entries[:pre])
        for e in a.entries[pre:]:
            es.append(Entry(e.val, AND(c, e.guard), e.binders))
        for e in b.entries[pre:]:
            es.append(Entry(e.val, AND(NOT(c), e.guard), e.binders))
        return BagV(es)
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.loc.cell == b.loc.cell and a.loc.path == b.loc.path:
        return a
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return OpaqueV("merge")
    if isinstance(a, BottomV):
        return b
    if isinstance(b, BottomV):
        return a
    return BottomV("cannot merge %s and %s" % (type(a).__name__, type(b).__name__))


class BottomV:
    """a value that must not be used (e.g. merge of incompatible things); using it is Unsupported"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


def _safe(s, k):
    try:
        return s(k)
    except Unsupported:
        return BottomV("element outside the sequence")
