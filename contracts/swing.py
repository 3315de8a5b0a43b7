"""Contracts of the swing-foot trajectories (C21)."""
from spec import *
import spline
from spline import F, PT, CS, increasing, value

SF = "placo::humanoid::SwingFoot"
SC = "placo::humanoid::SwingFootCubic"
SQ = "placo::humanoid::SwingFootQuintic"


def ev(co, u, k, order=0):
    """derivative of a polynomial of coefficient vectors co (highest degree first) at u, component k"""
    n = len(co) - 1
    r = P(0)
    for i, c in enumerate(co):
        e = n - i
        f = 1
        for q in range(order):
            f *= e - q
        if f:
            r = r + c(k) * powi(u, e - order) * f
    return r


def powi(u, n):
    r = P(1)
    for _ in range(n):
        r = r * u
    return r


def cubic_co(s):
    return [s.a, s.b, s.c, s.d]


def quintic_co(s):
    return [s.a, s.b, s.c, s.d, s.e, s.f]


def getters(cls, co):
    for nm, order in (("pos", 0), ("vel", 1)):
        @contract(cls + "::Trajectory::" + nm, "double", "C21")
        def _(c, order=order):
            s = c.this
            u = c.arg(0) - s.t_start
            c.returns(Mat(3, 1, lambda i, j:
                          ite(eq(i, 0), ev(co(s), u, 0, order), ite(eq(i, 1), ev(co(s), u, 1, order), ev(co(s), u, 2, order)))))


getters(SF, cubic_co)
getters(SQ, quintic_co)


@contract(SF + "::make_trajectory", "double,double,double,Vector3d,Vector3d", "C21")
def _(c):
    c.relative(1, 0)
    t0, t1, h, a, b = c.args
    c.requires(lt(t0, t1))
    D = t1 - t0
    c.ensures("times", lambda r, post: AND(eq(r.t_start, t0), eq(r.t_end, t1)))
    for k in range(3):
        c.ensures("starts at the start (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), P(0), k), a(k)))
        c.ensures("ends at the target (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), D, k), b(k)))
    for k in range(2):
        c.ensures("starts at rest horizontally (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), P(0), k, 1), 0))
        c.ensures("ends at rest horizontally (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), D, k, 1), 0))
    for q in (1, 3):
        c.ensures("height at %d/4" % q, lambda r, post, q=q: eq(ev(cubic_co(r), D * Fraction(q, 4), 2), h))


@contract(SF + "::remake_trajectory", "Trajectory,double,Vector3d", "C21")
def _(c):
    o, t, b = c.args
    c.requires(lt(t, o.t_end))
    u, D = t - o.t_start, o.t_end - o.t_start
    c.ensures("times", lambda r, post: AND(eq(r.t_start, o.t_start), eq(r.t_end, o.t_end)))
    for k in range(3):
        c.ensures("continues the position (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), u, k), ev(cubic_co(o), u, k)))
        c.ensures("continues the velocity (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), u, k, 1), ev(cubic_co(o), u, k, 1)))
    for k in range(2):
        c.ensures("ends at the target (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), D, k), b(k)))
        c.ensures("ends at rest horizontally (%d)" % k, lambda r, post, k=k: eq(ev(cubic_co(r), D, k, 1), 0))
    c.ensures("keeps the height", lambda r, post: AND(*[eq(getattr(r, f)(2), getattr(o, f)(2)) for f in "abcd"]))


@contract(SQ + "::make_trajectory", "double,double,double,Vector3d,Vector3d", "C21")
def _(c):
    c.relative(1, 0)
    t0, t1, h, a, b = c.args
    c.requires(lt(t0, t1))
    D = t1 - t0
    c.ensures("times", lambda r, post: AND(eq(r.t_start, t0), eq(r.t_end, t1)))
    for k in range(3):
        c.ensures("starts at the start (%d)" % k, lambda r, post, k=k: eq(ev(quintic_co(r), P(0), k), a(k)))
        c.ensures("ends at the target (%d)" % k, lambda r, post, k=k: eq(ev(quintic_co(r), D, k), b(k)))
        c.ensures("starts at rest (%d)" % k, lambda r, post, k=k: eq(ev(quintic_co(r), P(0), k, 1), 0))
        c.ensures("ends at rest (%d)" % k, lambda r, post, k=k: eq(ev(quintic_co(r), D, k, 1), 0))
    for k in range(2):
        c.ensures("starts with no acceleration (%d)" % k, lambda r, post, k=k: eq(ev(quintic_co(r), P(0), k, 2), 0))
        c.ensures("ends with no acceleration (%d)" % k, lambda r, post, k=k: eq(ev(quintic_co(r), D, k, 2), 0))
    for q in (1, 3):
        c.ensures("height at %d/4" % q, lambda r, post, q=q: eq(ev(quintic_co(r), D * Fraction(q, 4), 2), h))


AX = ("x", "y", "z")


def getter3(name, order):
    @contract(SC + "::Trajectory::" + name, "double", "C21")
    def _(c):
        fs = []
        for a in AX:
            sp = getattr(c.this, a)
            c.requires(increasing(F(sp)["_points"]))
            c.represents(sp, "_splines", spline.splines(F(sp)), NOT(sp.dirty))
            fs.append(value(sp, c.arg(0), order))
            c.set(sp, "dirty", FALSE)
            c.set(sp, "_splines", spline.splines(F(sp)))
        c.ensures("has three components", lambda r, post: AND(eq(r.rows, 3), eq(r.cols, 1)))
        for k, a in enumerate(AX):
            c.ensures("component %d is the %s of its spline" % (k, name), lambda r, post, k=k: fs[k](r(k)))
        if c.mode == "call":
            c.returns(named3(c.this, c.arg(0), order))


def named3(s, t, order):
    v = [spline.named_value(getattr(s, a), t, order) for a in AX]
    return Mat(3, 1, lambda i, j: ite(eq(i, 0), v[0], ite(eq(i, 1), v[1], v[2])))


getter3("pos", 0)
getter3("vel", 1)


@contract(SC + "::make_trajectory", "double,double,double,double,Vector3d,Vector3d,double,Vector3d", "C21")
def _(c):
    t0, dur, h, rise, a, b, el, v = c.args
    c.requires(gt(dur, 0), ge(el, 0), lt(el, 1), lt(rise, 1))
    vs = t0 - el * dur
    t1 = vs + dur
    half = Fraction(1, 2)
    c.split(gt(rise, 0), gt(vs + dur * half * (1 - rise), t0), gt(vs + dur * half * (1 + rise), t0), gt(vs + dur * half, t0))

    def at(pts, k, t, x, dx):
        p = pts(k)
        return AND(eq(p.t, t), eq(p.x, x), eq(p.dx, dx))
    for k in range(2):
        c.ensures("%s: from the start to the target at rest" % AX[k], lambda r, post, k=k: AND(
            eq(F(getattr(r, AX[k]))["_points"].len, 2), at(F(getattr(r, AX[k]))["_points"], P(0), t0, a(k), v(k)),
            at(F(getattr(r, AX[k]))["_points"], P(1), t1, b(k), P(0))))

    def z(r, post):
        p = F(r.z)["_points"]
        two = gt(rise, 0)
        ta = ite(two, vs + dur * half * (1 - rise), vs + dur * half)
        tb = vs + dur * half * (1 + rise)
        na = ite(gt(ta, t0), 1, 0)
        nb = ite(AND(two, gt(tb, t0)), 1, 0)
        n = na + nb
        return AND(eq(p.len, n + 2), at(p, P(0), t0, a(2), v(2)), at(p, n + 1, t1, b(2), P(0)),
                   IMP(eq(na, 1), at(p, P(1), ta, h, P(0))), IMP(eq(nb, 1), at(p, 1 + na, tb, h, P(0))))
    c.ensures("z: from the start through the height to the target at rest", z)
    c.ensures("nothing was evaluated yet", lambda r, post: AND(*[AND(getattr(r, q).dirty, NOT(getattr(r, q).angular)) for q in AX]))
    for q in AX:
        c.ensures("%s: increasing times" % q, lambda r, post, q=q: increasing(F(getattr(r, q))["_points"]))
