"""Contracts of CubicSpline and CubicSpline3D (C09)."""
from spec import *

CS = "placo::tools::CubicSpline"
C3 = "placo::tools::CubicSpline3D"
PT = CS + "::Point"


def poly(p, q):
    """the cubic through two points with their slopes, in the time elapsed since the first"""
    T_ = q.t - p.t
    k = inv(T_)
    a = (2 * (p.x - q.x) + T_ * (p.dx + q.dx)) * k * k * k
    b = (3 * (q.x - p.x) - T_ * (2 * p.dx + q.dx)) * k * k
    return a, b, p.dx, p.x


def increasing(pts):
    i, j = T.var("$p", "I"), T.var("$q", "I")
    return forall((i.atom(), j.atom()), IMP(AND(ge(i, 0), lt(i, j), lt(j, pts.len)), lt(pts(i).t, pts(j).t)))


def splines(s):
    """what the cache holds once computed"""
    pts = s["_points"]

    def at(k):
        a, b, c, d = poly(pts(k), pts(k + 1))
        return StructV(CS + "::Spline", None, poly=StructV(CS + "::Polynom", None, a=a, b=b, c=c, d=d), t_start=pts(k).t, t_end=pts(k + 1).t)
    return SeqV(ite(ge(pts.len, 2), pts.len - 1, 0), at, CS + "::Spline")


class F:
    """field access by subscript (names with a leading underscore)"""

    def __init__(self, w):
        self.w = w

    def __getitem__(self, n):
        return W.__getattr__(self.w, n) if isinstance(self.w, W) else self.w.get(n)


def cached(c):
    """the cache is up to date or flagged"""
    c.represents(c.this, "_splines", splines(F(c.this)), NOT(c.this.dirty))


def value(s, t, order):
    """name -> condition linking the result r to the points"""
    pts = F(s)["_points"]
    n = pts.len
    t = P(t)
    tc = ite(lt(t, pts(0).t), pts(0).t, ite(gt(t, pts(n - 1).t), pts(n - 1).t, t))
    i = T.fresh("$i", "I")
    a, b, c, d = poly(pts(P(i)), pts(P(i) + 1))
    u = tc - pts(P(i)).t
    v = [d + c * u + b * u * u + a * u * u * u, c + 2 * b * u + 3 * a * u * u, 2 * b + 6 * a * u][order]
    strict = order == 2
    within = AND(ge(P(i), 0), lt(P(i) + 1, n), (lt if strict else le)(pts(P(i)).t, tc), (lt if strict else le)(tc, pts(P(i) + 1).t))

    def f(r):
        return AND(IMP(eq(n, 0), eq(r, 0)), IMP(eq(n, 1), eq(r, [pts(0).x, pts(0).dx, P(0)][order])),
                   forall((i,), IMP(within, eq(r, v))))
    return f


def named_value(s, t, order):
    """the value as a function of the points and the time (they determine it)"""
    pts = F(s)["_points"]
    q = pts(P(GEN))
    return T.app("spline%d" % order, (pts.len, q.t, q.x, q.dx, P(t)))


GEN = T.var("$gen", "I").atom()


def polynom(a, b, c, d):
    return StructV(CS + "::Polynom", None, a=P(a), b=P(b), c=P(c), d=P(d))


@contract(CS + "::fit", "double,double,double,double,double,double", "C09")
def _(c):
    t1, x1, d1, t2, x2, d2 = c.args
    c.requires(eq(t1, 0), gt(t2, 0))
    k = inv(t2)
    c.returns(polynom((2 * (x1 - x2) + t2 * (d1 + d2)) * k * k * k, (3 * (x2 - x1) - t2 * (2 * d1 + d2)) * k * k, d1, x1))


@contract(CS + "::compute_splines", "", "C09")
def _(c):
    s = c.this
    c.requires(increasing(F(s)["_points"]))
    c.set(s, "_splines", splines(F(s)))


@contract(CS + "::interpolation", "double,ValueType", "C09")
def _(c):
    s = c.this
    c.requires(increasing(F(s)["_points"]))
    cached(c)
    c.requires(OR(*[eq(c.arg(1), k) for k in range(3)]))
    fs = [value(s, c.arg(0), k) for k in range(3)]
    for k in range(3):
        c.ensures("order %d: derivative of the cubic through the neighbouring points" % k,
                  lambda r, post, k=k: IMP(eq(c.arg(1), k), fs[k](r)))
    c.set(s, "dirty", FALSE)
    c.set(s, "_splines", splines(F(s)))


def getter(name, order):
    @contract(CS + "::" + name, "double", "C09")
    def _(c):
        s = c.this
        c.requires(increasing(F(s)["_points"]))
        cached(c)
        f = value(s, c.arg(0), order)
        c.ensures("is the %s of the cubic through the neighbouring points" % name, lambda r, post: f(r))
        if c.mode == "call":
            c.returns(named_value(s, c.arg(0), order))
        c.set(s, "dirty", FALSE)
        c.set(s, "_splines", splines(F(s)))


for k, nm in enumerate(("pos", "vel", "acc")):
    getter(nm, k)


@contract(CS + "::CubicSpline", "bool", "C09")
def _(c):
    c.returns(StructV(CS, None, angular=c.arg(0), dirty=TRUE, _points=SeqV(0, None, PT), _splines=SeqV(0, None, CS + "::Spline")))


def add(c, s, t, x, dx):
    pts = F(s)["_points"]
    n = pts.len
    if P(n).const() == 0:
        c.set(s, "_points", SeqV(1, lambda k: StructV(PT, None, t=P(t), x=P(x), dx=P(dx)), PT))
        c.set(s, "dirty", TRUE)
        return
    last = pts(n - 1)
    c.throws(AND(gt(n, 0), le(t, last.t)))
    x2 = ite(AND(s.angular, gt(n, 0)), last.x + wrap_angle(x - last.x), x)
    c.set(s, "_points", SeqV(n + 1, lambda k: cond_struct(lt(k, n), raw(pts(k)), StructV(PT, None, t=P(t), x=x2, dx=P(dx))), PT))
    c.set(s, "dirty", TRUE)


@contract(CS + "::add_point", "double,double,double", "C09")
def _(c):
    add(c, c.this, *c.args)


def cond_struct(cnd, a, b):
    return StructV(PT, None, **{f: ite(cnd, a.get(f), b.get(f)) for f in ("t", "x", "dx")})


def wrap_angle(a):
    return T.app("atan2", (T.sin(a), T.cos(a)))


@contract(CS + "::clear", "", "C09")
def _(c):
    s = c.this
    c.set(s, "_points", SeqV(0, None, PT))
    c.set(s, "_splines", SeqV(0, None, CS + "::Spline"))


@contract(CS + "::duration", "", "C09")
def _(c):
    pts = F(c.this)["_points"]
    c.returns(ite(eq(pts.len, 0), 0, pts(pts.len - 1).t - pts(0).t))


@contract(C3 + "::duration", "", "C09")
def _(c):
    pts = F(c.this.xSpline)["_points"]
    c.returns(ite(eq(pts.len, 0), 0, pts(pts.len - 1).t - pts(0).t))


AXES = ("xSpline", "ySpline", "zSpline")


def getter3(name, order):
    @contract(C3 + "::" + name, "double", "C09")
    def _(c):
        s = c.this
        fs = []
        for a in AXES:
            sp = getattr(s, a)
            c.requires(increasing(F(sp)["_points"]))
            c.represents(sp, "_splines", splines(F(sp)), NOT(sp.dirty))
            fs.append(value(sp, c.arg(0), order))
            c.set(sp, "dirty", FALSE)
            c.set(sp, "_splines", splines(F(sp)))
        c.ensures("has three components", lambda r, post: AND(eq(r.rows, 3), eq(r.cols, 1)))
        for k, a in enumerate(AXES):
            c.ensures("component %d is the %s of its spline" % (k, name), lambda r, post, k=k: fs[k](r(k)))


for k, nm in enumerate(("pos", "vel", "acc")):
    getter3(nm, k)


@contract(C3 + "::add_point", "double,Vector3d,Vector3d", "C09")
def _(c):
    s = c.this
    t, x, dx = c.args
    for k, a in enumerate(AXES):
        sp = getattr(s, a)
        add(c, sp, t, x(k), dx(k))


@contract(C3 + "::clear", "", "C09")
def _(c):
    for a in AXES:
        sp = getattr(c.this, a)
        c.set(sp, "_points", SeqV(0, None, PT))
        c.set(sp, "_splines", SeqV(0, None, CS + "::Spline"))
