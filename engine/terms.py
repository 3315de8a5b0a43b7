"""Term algebra of the verifier.

Numeric terms are polynomials (Poly) with rational coefficients over interned atoms.  Atoms are variables,
applications of uninterpreted or built-in functions, if-then-else, bounded sums and reciprocals.  C++ `double` is
read as a mathematical real and `int`/`size_t` as a mathematical integer (both are declared assumptions).
Boolean terms are interned `B` nodes.
"""
from fractions import Fraction
import itertools

_atoms = {}
_polys = {}
_bools = {}
_cnt = itertools.count(1)
_fresh = itertools.count(1)

NONNEG = set()          # names of vars / functions known to be >= 0


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation)."""


class Atom:
    __slots__ = ("id", "kind", "data", "sort", "fv", "h", "nonneg", "_z3", "skey_")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _fv_of(x):
    if isinstance(x, (Atom, Poly, B)):
        return x.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _fv_of(y)
        return r
    return frozenset()


def _h_of(x):
    if isinstance(x, (Atom, Poly, B)):
        return x.h
    if isinstance(x, tuple):
        return max([_h_of(y) for y in x], default=0)
    return 0


def mk_atom(kind, data, sort):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = next(_cnt)
        a.kind, a.data, a.sort = kind, data, sort
        a._z3 = None
        a.skey_ = None
        if kind == "var":
            a.fv = frozenset([a])
            a.h = 0
        elif kind == "sum":
            hi, k, body = data
            a.fv = _fv_of(hi) | (_fv_of(body) - {k})
            a.h = max(_h_of(hi), _h_of(body) + 1)
        else:
            a.fv = _fv_of(data)
            a.h = _h_of(data)
        if kind == "var":
            a.nonneg = data in NONNEG
        elif kind == "app":
            a.nonneg = data[0] in NONNEG or data[0].endswith((".rows", ".cols", ".len"))
        elif kind == "ite":
            a.nonneg = sort in ("I", "R") and data[1].is_nonneg() and data[2].is_nonneg()
        elif kind == "sum":
            a.nonneg = data[2].is_nonneg()
        else:
            a.nonneg = False
        _atoms[key] = a
    return a


class Poly:
    __slots__ = ("t", "fv", "h", "id", "_int", "_z3", "_nn")

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return _mk(d)

    __radd__ = __add__

    def __neg__(self):
        return _mk({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = _mmul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        if len(d) > 20000:
            raise Unsupported("polynomial too large")
        return _mk(d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def iconst(self):
        c = self.const()
        return None if c is None or c.denominator != 1 else int(c)

    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(a.sort == "I" for a, _ in m) for m, c in self.t)
        return self._int

    def atoms(self):
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        return s

    def is_nonneg(self):
        if self._nn is None:
            self._nn = all(c > 0 and all(a.nonneg or e % 2 == 0 for a, e in m) for m, c in self.t)
        return self._nn

    def atom(self):
        """the atom if the polynomial is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 and self.t[0][0][0][1] == 1:
            return self.t[0][0][0][0]
        return None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("Poly used as bool: %r" % self)


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def _mk(d):
    key = tuple(sorted(d.items(), key=lambda p: [(x.id, e) for x, e in p[0]]))
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = key
        p.id = next(_cnt)
        fv = set()
        h = 0
        for m, _ in key:
            for a, _e in m:
                fv |= a.fv
                h = max(h, a.h)
        p.fv = frozenset(fv)
        p.h = h
        p._int = None
        p._z3 = None
        p._nn = None
        _polys[key] = p
    return p


ZERO = _mk({})
ONE = _mk({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return _mk({(): Fraction(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        return P(Fraction(repr(x)) if "e" not in repr(x) and "inf" not in repr(x) else Fraction(x))
    if isinstance(x, Atom):
        return _mk({((x, 1),): Fraction(1)})
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    raise TypeError("not numeric: %r" % (x,))


def var(name, sort="R"):
    return P(mk_atom("var", name, sort))


def fresh(prefix, sort="R", nonneg=False):
    n = "%s!%d" % (prefix, next(_fresh))
    if nonneg:
        NONNEG.add(n)
    a = mk_atom("var", n, sort)
    return P(a) if sort in ("I", "R") else a


def app(f, args, sort="R"):
    """args: tuple of Poly/Atom(opaque)/B"""
    args = tuple(args)
    a = mk_atom("app", (f,) + args, sort)
    return P(a) if sort in ("I", "R") else a


def bapp(f, args):
    return mk_b("bapp", (f,) + tuple(args))


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return P(mk_atom("inv", ZERO, "R"))
        return P(1 / c)
    if len(p.t) == 1:
        m, c = p.t[0]
        r = P(1 / c)
        for a, e in m:
            if a.kind == "inv":
                r = r * (a.data ** e)      # inv(inv(x)) = x  (x != 0 side condition tracked by the caller)
            else:
                r = r * _mk({((mk_atom("inv", P(a), "R"), e),): Fraction(1)})
        return r
    # normalise: leading coefficient 1
    c = p.t[0][1]
    q = p * P(1 / c)
    return P(1 / c) * P(mk_atom("inv", q, "R"))


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("kind", "data", "id", "fv", "h", "_z3")

    def __repr__(self):
        return show_b(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("B used as bool: %r" % self)


def mk_b(kind, data):
    key = (kind, data)
    b = _bools.get(key)
    if b is None:
        b = B()
        b.kind, b.data = kind, data
        b.id = next(_cnt)
        if kind == "forall":
            vs, body = data
            b.fv = _fv_of(body) - frozenset(vs)
        else:
            b.fv = _fv_of(data)
        b.h = _h_of(data) + (1 if kind == "forall" else 0)
        b._z3 = None
        _bools[key] = b
    return b


TRUE = mk_b("true", ())
FALSE = mk_b("false", ())


def bl(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Poly):
        return NOT(eq(x, ZERO))
    raise TypeError("not boolean: %r" % (x,))


def bvar(name):
    return mk_b("bvar", name)


_nots = {}


def NOT(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.data[0]
    if b.kind == "le":
        p = b.data[0]
        return le(ONE - p, ZERO) if p.is_int() else mk_cmp("lt", -p)
    if b.kind == "lt":
        return mk_cmp("le", -b.data[0])
    r = _nots.get(b.id)
    if r is None:
        if b.kind == "and":
            r = OR(*[NOT(x) for x in b.data])
        elif b.kind == "or":
            r = AND(*[NOT(x) for x in b.data])
        else:
            return mk_b("not", (b,))
        _nots[b.id] = r
    return r


def AND(*xs):
    s = []
    seen = set()

    def add(x):
        x = bl(x)
        if x.kind == "and":
            for y in x.data:
                if not add(y):
                    return False
            return True
        if x is FALSE:
            return False
        if x is TRUE or x in seen:
            return True
        if NOT(x) in seen:
            return False
        seen.add(x)
        s.append(x)
        return True
    for x in xs:
        if not add(x):
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda b: b.id)
    return mk_b("and", tuple(s))


def OR(*xs):
    s = []
    seen = set()

    def add(x):
        x = bl(x)
        if x.kind == "or":
            for y in x.data:
                if not add(y):
                    return False
            return True
        if x is TRUE:
            return False
        if x is FALSE or x in seen:
            return True
        if x.kind != "and" and NOT(x) in seen:
            return False
        seen.add(x)
        s.append(x)
        return True
    for x in xs:
        if not add(x):
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda b: b.id)
    return mk_b("or", tuple(s))


def IMP(a, b):
    return OR(NOT(a), b)


def mk_cmp(kind, p):
    c = p.const()
    if c is not None:
        return bl({"le": c <= 0, "lt": c < 0, "eq": c == 0}[kind])
    if kind == "eq":
        lead = p.t[-1][1]
        if lead != 1:
            p2 = p * P(1 / lead)
            if p.is_int():
                # keep integral: divide by gcd, positive leading coefficient
                from math import gcd
                g = 0
                for m, cc in p.t:
                    g = gcd(g, abs(int(cc)))
                cst = [cc for m, cc in p.t if m == ()]
                g2 = 0
                for m, cc in p.t:
                    if m != ():
                        g2 = gcd(g2, abs(int(cc)))
                if cst and int(cst[0]) % g2 != 0:
                    return FALSE
                p2 = p * P(Fraction(1 if lead > 0 else -1, g))
            p = p2
    else:
        lead = abs(p.t[-1][1])
        if p.is_int():
            from math import gcd, floor
            g2 = 0
            for m, cc in p.t:
                if m != ():
                    g2 = gcd(g2, abs(int(cc)))
            if g2 > 1:
                # sum + c <= 0  ->  sum/g + ceil(c/g) <= 0
                cst = sum([int(cc) for m, cc in p.t if m == ()])
                if kind == "le":
                    q = (p - cst) * P(Fraction(1, g2)) + P(-((-cst) // g2))
                    p = q
            if p.const() is not None:
                return mk_cmp(kind, p)
        elif lead != 1:
            p = p * P(1 / lead)
        if kind == "le" and p.is_int() is False and (-p).is_nonneg():
            return TRUE
        if kind == "le" and (-p).is_nonneg():
            return TRUE
        if kind == "lt" and p.is_nonneg():
            return FALSE
        if kind == "le" and p.is_int() and (p - ONE).is_nonneg():
            return FALSE
    return mk_b(kind, (p,))


def le(a, b):
    return mk_cmp("le", P(a) - P(b))


def lt(a, b):
    p = P(a) - P(b)
    if p.is_int():
        return mk_cmp("le", p + ONE)
    return mk_cmp("lt", p)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    """equality of any two leaf terms"""
    if isinstance(a, B) or isinstance(b, B):
        a, b = bl(a), bl(b)
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return NOT(b)
        if b is FALSE:
            return NOT(a)
        return OR(AND(a, b), AND(NOT(a), NOT(b)))
    if isinstance(a, Atom) and isinstance(b, Atom) and a.sort not in ("I", "R"):
        if a is b:
            return TRUE
        if a.kind == "lit" and b.kind == "lit":
            return FALSE
        if a.kind == "new" and b.kind in ("new", "lit"):
            return FALSE
        if b.kind == "new" and a.kind == "lit":
            return FALSE
        if a.kind == "ite" and b.kind == "ite" and a.data[0] is b.data[0]:
            c = a.data[0]
            return OR(AND(c, eq(a.data[1], b.data[1])), AND(NOT(c), eq(a.data[2], b.data[2])))
        for x, y in ((a, b), (b, a)):
            if x.kind == "ite":
                return OR(AND(x.data[0], eq(x.data[1], y)), AND(NOT(x.data[0]), eq(x.data[2], y)))
        if a.kind == "new" and b.kind != "new" and not _may_be_new(b, a):
            return FALSE
        if b.kind == "new" and a.kind != "new" and not _may_be_new(a, b):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk_b("eqo", (a, b))
    return mk_cmp("eq", P(a) - P(b))


def _may_be_new(a, n):
    # a symbolic object of the initial state cannot be one allocated later; loop-havocked ones may be
    name = a.data if a.kind == "var" else a.data[0] if a.kind == "app" else "hv:"
    return str(name).startswith("hv:")


def _cong(x, y, d, depth=3):
    """x equals y whenever d == 0"""
    if x is y:
        return True
    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(_cong(u, v, d, depth) for u, v in zip(x, y))
    if isinstance(x, Poly) and isinstance(y, Poly):
        if len(x.t) != len(y.t) and len(x.t) + len(y.t) > 8:
            return False
        e = x - y
        if e is d or -e is d:
            return True
        return depth > 0 and len(x.t) == 1 == len(y.t) and x.t[0][1] == y.t[0][1] and len(x.t[0][0]) == 1 == len(y.t[0][0]) \
            and x.t[0][0][0][1] == y.t[0][0][0][1] and _cong(x.t[0][0][0][0], y.t[0][0][0][0], d, depth)
    if isinstance(x, Atom) and isinstance(y, Atom):
        return depth > 0 and x.kind == y.kind == "app" and x.sort == y.sort and len(x.data) == len(y.data) and x.data[0] == y.data[0] \
            and all(_cong(u, v, d, depth - 1) for u, v in zip(x.data[1:], y.data[1:]))
    if isinstance(x, B) and isinstance(y, B):
        return depth > 0 and x.kind == y.kind == "bapp" and _cong(x.data, y.data, d, depth - 1)
    return isinstance(x, str) and x == y


def ite(c, a, b):
    c = bl(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "eq" and isinstance(c.data[0], Poly) and len(c.data[0].t) == 2 and _cong(a, b, c.data[0]):
        return b
    if isinstance(a, B) or isinstance(b, B):
        a, b = bl(a), bl(b)
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return NOT(c)
        return OR(AND(c, a), AND(NOT(c), b))
    if isinstance(a, Atom) and a.sort not in ("I", "R"):
        if c.kind == "not":
            c, a, b = c.data[0], b, a
        return mk_atom("ite", (c, a, b), a.sort)
    a, b = P(a), P(b)
    if a is b:
        return a
    if c.kind == "not" or (c.kind == "or"):
        c, a, b = NOT(c), b, a
    elif c.kind in ("le", "lt"):
        n = NOT(c)
        if n.id < c.id:
            c, a, b = n, b, a
    # same condition nested
    a = _assume1(a, c, True)
    b = _assume1(b, c, False)
    if a is b:
        return a
    # pull out common additive part
    da, db = dict(a.t), dict(b.t)
    common = {m: cc for m, cc in da.items() if db.get(m) == cc}
    if common:
        cp = _mk(common)
        return cp + ite(c, a - cp, b - cp)
    sort = "I" if (a.is_int() and b.is_int()) else "R"
    return P(mk_atom("ite", (c, a, b), sort))


def _assume1(p, c, val):
    """replace top-level ite atoms of p having exactly condition c"""
    hit = [x for x in p.atoms() if x.kind == "ite" and x.data[0] is c]
    if not hit:
        return p
    return map_atoms(p, lambda x: (x.data[1] if val else x.data[2]) if (x.kind == "ite" and x.data[0] is c) else None)


def map_atoms(p, f):
    """Rebuild poly replacing atoms for which f returns non-None."""
    out = ZERO
    changed = False
    for m, c in p.t:
        r = None
        keep = []
        for a, e in m:
            x = f(a)
            if x is None:
                keep.append((a, e))
            else:
                changed = True
                x = P(x)
                for _ in range(e):
                    r = x if r is None else r * x
        mono = _mk({tuple(keep): c})
        out = out + (mono if r is None else mono * r)
    return out if changed else p


# ------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """m: dict Atom(var or any atom) -> term. Applies everywhere (bound variables excluded)."""
    if not m:
        return t
    keys = frozenset(m)
    varkeys = all(k.kind == "var" for k in keys)
    if memo is None:
        memo = {}
    return _subst(t, m, keys, varkeys, memo)


def _subst(t, m, keys, varkeys, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, keys, varkeys, memo) for x in t)
    if not isinstance(t, (Poly, Atom, B)):
        return t
    if varkeys and not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if isinstance(t, Poly):
        def f(a):
            if varkeys and not (a.fv & keys):
                return None
            x = _subst(a, m, keys, varkeys, memo)
            return None if x is a else x
        r = map_atoms(t, f)
    elif isinstance(t, Atom):
        if t in m:
            r = m[t]
        else:
            r = rebuild_atom(t, lambda x: _subst(x, m, keys, varkeys, memo))
    else:
        r = rebuild_b(t, lambda x: _subst(x, m, keys, varkeys, memo))
    memo[t] = r
    return r


def rebuild_atom(t, s):
    k = t.kind
    if k in ("var", "lit", "new"):
        return t
    if k == "app":
        args = tuple(s(x) for x in t.data[1:])
        if args == t.data[1:]:
            return t
        f = BUILTIN.get(t.data[0])
        if f:
            return f(*args)
        r = mk_atom("app", (t.data[0],) + args, t.sort)
        return r
    if k == "ite":
        c = s(t.data[0])
        if c is TRUE:
            return s(t.data[1])
        if c is FALSE:
            return s(t.data[2])
        return ite(c, s(t.data[1]), s(t.data[2]))
    if k == "sum":
        hi, kv, body = t.data
        nk = mk_atom("var", "$s!%d" % next(_fresh), "I")
        NONNEG.add(nk.data)
        nk.nonneg = True
        body2 = s(subst(body, {kv: P(nk)}))
        return mk_sum(s(hi), nk, body2)
    if k == "inv":
        return inv(s(t.data))
    raise Unsupported("rebuild atom %s" % k)


def rebuild_b(t, s):
    k = t.kind
    if k in ("true", "false", "bvar"):
        return t
    if k in ("le", "lt", "eq"):
        return mk_cmp(k, s(t.data[0]))
    if k == "not":
        return NOT(s(t.data[0]))
    if k == "and":
        return AND(*[s(x) for x in t.data])
    if k == "or":
        return OR(*[s(x) for x in t.data])
    if k == "bapp":
        return mk_b("bapp", (t.data[0],) + tuple(s(x) for x in t.data[1:]))
    if k == "eqo":
        return eq(s(t.data[0]), s(t.data[1]))
    if k == "forall":
        vs, body = t.data
        nv = tuple(mk_atom("var", "$q!%d" % next(_fresh), v.sort) for v in vs)
        body2 = s(subst(body, {v: (P(n) if n.sort in "IR" else n) for v, n in zip(vs, nv)}))
        return forall(nv, body2)
    raise Unsupported("rebuild bool %s" % k)


def forall(vs, body):
    vs = tuple(v.atom() if isinstance(v, Poly) else v for v in vs)
    if body is TRUE or body is FALSE:
        return body
    vs = tuple(v for v in vs if v in body.fv)
    if not vs:
        return body
    # canonical names by height
    m = {}
    cv = []
    for n, v in enumerate(vs):
        c = mk_atom("var", "$q_%s%d_%d" % (v.sort, body.h, n), v.sort)
        m[v] = P(c) if c.sort in ("I", "R") else c
        cv.append(c)
    if any(c in body.fv and c not in vs for c in cv):
        m, cv = {}, list(vs)
    body = subst(body, m) if m else body
    return mk_b("forall", (tuple(cv), body))


def assume_in(t, c, val, memo=None):
    """Simplify t under the assumption that boolean c is val (exact literal replacement, everywhere)."""
    if memo is None:
        memo = {}
    nc = NOT(c)
    return _assume(t, c, nc, val, memo)


def _assume(t, c, nc, val, memo):
    if isinstance(t, tuple):
        return tuple(_assume(x, c, nc, val, memo) for x in t)
    if not isinstance(t, (Poly, Atom, B)):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if isinstance(t, Poly):
        r = map_atoms(t, lambda a: (lambda x: None if x is a else x)(_assume(a, c, nc, val, memo)))
    elif isinstance(t, Atom):
        if t.kind in ("var", "lit", "new"):
            r = t
        elif t.kind == "sum" and t.data[1] in c.fv:
            r = t
        else:
            r = rebuild_atom(t, lambda x: _assume(x, c, nc, val, memo)) if _mentions_cond(t) else t
    else:
        if t is c:
            r = TRUE if val else FALSE
        elif t is nc:
            r = FALSE if val else TRUE
        else:
            r = rebuild_b(t, lambda x: _assume(x, c, nc, val, memo))
    memo[t] = r
    return r


_mc = {}


def _mentions_cond(a):
    r = _mc.get(a)
    if r is None:
        if isinstance(a, tuple):
            return any(_mentions_cond(x) for x in a)
        if isinstance(a, B):
            r = True
        elif isinstance(a, Poly):
            r = any(_mentions_cond(x) for x in a.atoms())
        elif isinstance(a, Atom):
            r = a.kind == "ite" or (a.kind not in ("var", "lit", "new") and _mentions_cond(a.data))
        else:
            return False
        _mc[a] = r
    return r


# ------------------------------------------------------------------- sums
def max0(p):
    if p.is_nonneg():
        return p
    c = p.const()
    if c is not None:
        return p if c > 0 else ZERO
    return ite(gt(p, ZERO), p, ZERO)


def tmin(a, b):
    a, b = P(a), P(b)
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = P(a), P(b)
    return ite(le(a, b), b, a)


def bound_var():
    a = mk_atom("var", "$s!%d" % next(_fresh), "I")
    NONNEG.add(a.data)
    a.nonneg = True
    return a


def Sum(hi, f):
    """sum_{k=0}^{hi-1} f(k)"""
    hi = P(hi)
    c = hi.iconst()
    if c is not None and c <= 24:
        r = ZERO
        for k in range(c):
            r = r + P(f(P(k)))
        return r
    k = bound_var()
    return mk_sum(hi, k, P(f(P(k))))


def mk_sum(hi, k, body):
    hi, body = P(hi), P(body)
    c = hi.iconst()
    if c is not None and c <= 24:
        r = ZERO
        for i in range(c):
            r = r + subst(body, {k: P(i)})
        return r
    if not body.t:
        return ZERO
    # peel constants: hi = p + c, c>0, p >= 0
    cst = [cc for m, cc in hi.t if m == ()]
    if cst and cst[0] > 0 and cst[0] <= 8 and cst[0].denominator == 1:
        p = hi - P(cst[0])
        if p.is_nonneg():
            r = mk_sum(p, k, body)
            for i in range(int(cst[0])):
                r = r + subst(body, {k: p + P(i)})
            return r
    out = ZERO
    for m, cc in body.t:
        free = []
        dep = []
        for a, e in m:
            (dep if k in a.fv else free).append((a, e))
        coef = _mk({tuple(free): cc})
        if not dep:
            out = out + coef * max0(hi)
            continue
        out = out + coef * _sum_mono(hi, k, tuple(dep))
    return out


def _lin(p, k):
    """p = c*k + r with c const, r free of k -> (c, r), else None"""
    c = Fraction(0)
    r = {}
    for m, cc in p.t:
        if any(a is k for a, _ in m):
            if len(m) == 1 and m[0][1] == 1:
                c += cc
            else:
                return None
        else:
            r[m] = cc
    r = _mk(r)
    if k in r.fv:
        return None
    return c, r


def _solvable(lit, k):
    if lit.kind in ("le", "lt", "eq"):
        l = _lin(lit.data[0], k)
        return l is not None and abs(l[0]) == 1 and (lit.kind != "lt") and l[1].is_int()
    return k not in lit.fv


def _conj(c):
    return list(c.data) if c.kind == "and" else [c]


def _sum_mono(hi, k, mono):
    # look for an ite factor whose (possibly negated) condition is a conjunction with a solvable k-literal
    for i, (a, e) in enumerate(mono):
        if a.kind == "ite" and k in a.data[0].fv:
            c, x, y = a.data
            rest = _mk({tuple(mono[:i] + mono[i + 1:]): Fraction(1)})
            for cond, p, q in ((c, x, y), (NOT(c), y, x)):
                lits = _conj(cond)
                if cond.kind == "or":
                    continue
                if any(k in l.fv and _solvable(l, k) for l in lits):
                    pe, qe = p ** e, q ** e
                    # sum q*rest + sum_{cond} (p-q)*rest
                    return mk_sum(hi, k, qe * rest) + _sum_guard(hi, k, lits, (pe - qe) * rest)
    body = _mk({mono: Fraction(1)})
    return _sum_atom(hi, k, body)


def _sum_atom(hi, k, body):
    # canonical bound variable by height of body
    h = body.h
    cv = mk_atom("var", "$k%d" % (h + 1), "I")
    NONNEG.add(cv.data)
    cv.nonneg = True
    if cv is not k:
        body = subst(body, {k: P(cv)})
    if body.h != h:
        # cannot happen for pure renaming
        raise Unsupported("sum height")
    return P(mk_atom("sum", (hi, cv, body), "I" if body.is_int() else "R"))


def _sum_guard(hi, k, lits, body):
    """sum over 0<=k<hi with all lits true, of body"""
    if not body.t:
        return ZERO
    free = [l for l in lits if k not in l.fv]
    dep = [l for l in lits if k in l.fv]
    if free:
        return ite(AND(*free), _sum_guard(hi, k, dep, body), ZERO)
    for l in dep:
        if l.kind == "eq":
            s = _lin(l.data[0], k)
            if s and abs(s[0]) == 1 and s[1].is_int():
                e = -s[1] if s[0] == 1 else s[1]
                rest = [subst(x, {k: e}) for x in dep if x is not l]
                cond = AND(ge(e, ZERO), lt(e, hi), *rest)
                return ite(cond, subst(body, {k: e}), ZERO)
    lo = ZERO
    rest = []
    for l in dep:
        if l.kind == "le" and _solvable(l, k):
            s, r = _lin(l.data[0], k)
            if s == 1:      # k + r <= 0 -> k <= -r -> k < -r+1
                hi = tmin(hi, -r + ONE)
            else:           # -k + r <= 0 -> k >= r
                lo = tmax(lo, r)
        else:
            rest.append(l)
    if rest:
        body = ite(AND(*rest), body, ZERO)
    if lo is ZERO:
        return mk_sum2(hi, k, body)
    nk = bound_var()
    return mk_sum2(hi - lo, nk, subst(body, {k: P(nk) + lo}))


def mk_sum2(hi, k, body):
    return mk_sum(hi, k, body)


# -------------------------------------------------------------- functions
BUILTIN = {}


def builtin(name):
    def d(f):
        BUILTIN[name] = f
        return f
    return d


@builtin("sqrt")
def sqrt(x):
    x = P(x)
    c = x.const()
    if c is not None and c >= 0:
        from math import isqrt
        n, d = c.numerator, c.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return P(Fraction(isqrt(n), isqrt(d)))
    return app("sqrt", (x,))


def _atan2_of(x):
    """y, x, x^2+y^2 when the argument is an atan2(y, x)"""
    if len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
        a, e = x.t[0][0][0]
        if e == 1 and a.kind == "app" and a.data[0] == "atan2":
            y, x_ = a.data[1], a.data[2]
            r2 = y * y + x_ * x_
            for b in r2.atoms():
                if b.kind == "app" and b.data[0] == "sin":
                    c = P(mk_atom("app", ("cos", b.data[1]), "R"))
                    if r2 is P(b) * P(b) + c * c:
                        r2 = ONE
                        break
            return y, x_, r2
    return None


@builtin("sin")
def sin(x):
    x = P(x)
    if x is ZERO:
        return ZERO
    a = _atan2_of(x)
    if a is not None:
        y, x_, r2 = a
        return y * inv(sqrt(r2))
    if x.t[0][1] < 0:
        return -app("sin", (-x,))
    return app("sin", (x,))


@builtin("cos")
def cos(x):
    x = P(x)
    if x is ZERO:
        return ONE
    a = _atan2_of(x)
    if a is not None:
        y, x_, r2 = a
        return ite(gt(r2, ZERO), x_ * inv(sqrt(r2)), ONE)
    if x.t[0][1] < 0:
        x = -x
    return app("cos", (x,))


def tabs(x):
    x = P(x)
    if x.const() is None and max(x.t, key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1] < 0:
        x = -x
    return ite(ge(x, ZERO), x, -x)


@builtin("floor")
def floor(x):
    x = P(x)
    c = x.const()
    if c is not None:
        return P(c.numerator // c.denominator)
    if x.is_int():
        return x
    return app("floor", (x,), "I")


def trunc(x):
    x = P(x)
    if x.is_int():
        return x
    return ite(ge(x, ZERO), floor(x), -floor(-x))


def tround(x):
    x = P(x)
    if x.is_int():
        return x
    h = Fraction(1, 2)
    return ite(ge(x, ZERO), floor(x + h), -floor(-x + h))


@builtin("idiv")
def ediv(a, n):
    """floor division by positive constant n"""
    a, n = P(a), P(n)
    c = n.iconst()
    if c is None or c <= 0:
        return app("idiv", (a, n), "I")
    if c == 1:
        return a
    q = {}
    r = {}
    for m, cc in a.t:
        if cc.denominator == 1 and int(cc) % c == 0:
            q[m] = cc / c
        elif m == () and cc.denominator == 1:
            q[m] = Fraction(int(cc) // c)
            r[m] = Fraction(int(cc) % c)
            if q[m] == 0:
                del q[m]
        else:
            r[m] = cc
    rp = _mk(r)
    if rp.const() is not None:
        return _mk(q)
    return _mk(q) + app("idiv", (rp, n), "I")


def lit(text, sort="Str"):
    return mk_atom("lit", text, sort)


def new_obj(tag):
    return mk_atom("new", "%s#%d" % (tag, next(_fresh)), "Obj")


# ---------------------------------------------------------------- printing
def show(p, lim=400):
    out = []
    for m, c in p.t:
        s = "*".join(show_atom(a) + ("^%d" % e if e > 1 else "") for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
    return " + ".join(out) if out else "0"


def show_any(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, B):
        return show_b(x)
    return str(x)


def show_atom(a):
    if a.kind in ("var", "lit", "new"):
        return str(a.data)
    if a.kind == "app":
        return "%s(%s)" % (a.data[0], ", ".join(show_any(x) for x in a.data[1:]))
    if a.kind == "ite":
        return "ite(%s, %s, %s)" % tuple(show_any(x) for x in a.data)
    if a.kind == "sum":
        return "sum[%s<%s](%s)" % (a.data[1].data, show_any(a.data[0]), show_any(a.data[2]))
    if a.kind == "inv":
        return "1/(%s)" % show_any(a.data)
    return a.kind


def show_b(b):
    k = b.kind
    if k in ("true", "false"):
        return k
    if k == "bvar":
        return b.data
    if k in ("le", "lt", "eq"):
        return "(%s %s 0)" % (show(b.data[0]), {"le": "<=", "lt": "<", "eq": "=="}[k])
    if k == "not":
        return "!" + show_b(b.data[0])
    if k == "and":
        return "(" + " && ".join(show_b(x) for x in b.data) + ")"
    if k == "or":
        return "(" + " || ".join(show_b(x) for x in b.data) + ")"
    if k == "bapp":
        return "%s(%s)" % (b.data[0], ", ".join(show_any(x) for x in b.data[1:]))
    if k == "eqo":
        return "(%s == %s)" % (show_any(b.data[0]), show_any(b.data[1]))
    if k == "forall":
        return "(forall %s. %s)" % (",".join(v.data for v in b.data[0]), show_b(b.data[1]))
    return k


PI = var("pi")
