"""Contracts of humanoid::LIPM and LIPM::Trajectory (C20), over the contracts of Integrator (C06) and Expression (C01)."""
from spec import *
from expr import *
from integrator import *
from fractions import Fraction

LIPM = "placo::humanoid::LIPM"
LTR = LIPM + "::Trajectory"
G = Fraction(980665, 100000)


def tr_fields(w):
    return {f: raw(getattr(w, f)) for f in TRF}


def vec2(x, y):
    return Mat(2, 1, lambda i, j: ite(eq(i, 0), x, y))


def traj(c):
    """the two coordinates of the trajectory: third-order integrators"""
    out = []
    for w in (c.this.x, c.this.y):
        s = tr_fields(w)
        inv_trajectory(c, s)
        c.requires(eq(s["order"], 3))
        out.append(s)
    return out


def tv(c, f):
    """f(diff -> value of a coordinate at t) stacked over x and y"""
    sx, sy = traj(c)
    t = c.arg(0)
    c.returns(vec2(f(lambda d: tr_value(sx, t, P(d))), f(lambda d: tr_value(sy, t, P(d)))))


for name, d in (("pos", 0), ("vel", 1), ("acc", 2), ("jerk", 3)):
    def mk(d):
        def k(c):
            tv(c, lambda q: q(d))
        return k
    contract(LTR + "::" + name, "double", "C20")(mk(d))


@contract(LTR + "::dcm", "double,double", "C20")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    tv(c, lambda q: q(0) + inv(w) * q(1))


@contract(LTR + "::zmp", "double,double", "C20")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    tv(c, lambda q: q(0) - inv(w) * q(2))


@contract(LTR + "::dzmp", "double,double", "C20")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    tv(c, lambda q: q(1) - inv(w) * q(3))


# ---------------------------------------------------------------- expressions
def iexpr(s, step0, diff):
    """Integrator::expr(step0, diff) for a single derivative"""
    v = s.variable
    n = v.k_end - v.k_start
    step = ite(eq(step0, -1), n, step0)
    if diff == 3:
        return var_row(v, tmin(step, n - 1))
    return steps(s, step, P(diff))


def inv_lipm(c, s):
    for q in (s.x, s.y):
        inv_integrator(c, q)
        inv_power(c, q)
        c.requires(eq(q.order, 3), ge(q.variable.k_end - q.variable.k_start, 1))


def bad_step(s, step0):
    out = FALSE
    for q in (s.x, s.y):
        n = q.variable.k_end - q.variable.k_start
        out = OR(out, lt(step0, -1), gt(step0, n))
    return out


def stack(a, b):
    n = a.A.rows
    return expr(Mat(n + b.A.rows, tmax(a.A.cols, b.A.cols), lambda i, j: ite(lt(i, n), padA(a, i, j), padA(b, i - n, j))),
                Mat(n + b.A.rows, 1, lambda i, j: ite(lt(i, n), a.b(i), b.b(i - n))))


def le_(c, f):
    s, k = c.this, c.arg(0)
    inv_lipm(c, s)
    c.throws(bad_step(s, k))
    c.returns(stack(f(lambda d: iexpr(s.x, k, d)), f(lambda d: iexpr(s.y, k, d))))


for name, d in (("pos", 0), ("vel", 1), ("acc", 2), ("jerk", 3)):
    def mk2(d):
        def k(c):
            le_(c, lambda q: q(d))
        return k
    contract(LIPM + "::" + name, "int", "C20")(mk2(d))


@contract(LIPM + "::dcm", "int,double", "C20")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    le_(c, lambda q: e_add(q(0), e_scale(q(1), inv(w))))


@contract(LIPM + "::zmp", "int,double", "C20")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    le_(c, lambda q: e_add(q(0), e_scale(q(2), inv(w)), -1))


@contract(LIPM + "::dzmp", "int,double", "C20")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    le_(c, lambda q: e_add(q(1), e_scale(q(3), inv(w)), -1))


@contract(LIPM + "::t_end", "", "C20")
def _(c):
    c.returns(c.this.t_start + c.this.timesteps * c.this.dt)


@contract(LIPM + "::compute_omega", "double", "C20")
def _(c):
    h = c.arg(0)
    c.requires(gt(h, 0))
    c.returns(sqrt(G * inv(h)))


# ---------------------------------------------------------------- construction
def new_var(c, p, n0, size, path):
    """effect of Problem::add_variable"""
    v = c.new(VAR, path)
    c.set(v, "k_start", n0)
    c.set(v, "k_end", n0 + size)
    c.set(v, "version", P(0))
    c.set(v, "problem", p.obj)
    c.set(v, "value", zeros(0, 1))
    return v


def build(c, p, dt, n, t0, X, Y):
    c.requires(ge(p.n_variables, 0), ge(n, 0))
    n0 = p.n_variables
    vx = new_var(c, p, n0, n, "x_var")
    vy = new_var(c, p, n0 + n, n, "y_var")
    c.set(p, "n_variables", n0 + 2 * n)
    c.set(p, "variables", p.variables.v.push(vx.obj).push(vy.obj))
    def integ(v, lo, X0):
        class V:
            obj, k_start, k_end = v.obj, lo, lo + n
        s = integrator(V, X0, shift(P(3)), dt)
        s._f["t_start"] = P(t0)
        return s
    return StructV(LIPM, None, dt=P(dt), timesteps=P(n), t_start=P(t0), x_var=vx.obj, y_var=vy.obj,
                   x=integ(vx, n0, X), y=integ(vy, n0 + n, Y))


@contract(LIPM + "::LIPM", "Problem,double,int,double,Vector2d,Vector2d,Vector2d", "C20")
def _(c):
    p, dt, n, t0, p0, v0, a0 = c.args
    ini = lambda k: e_const(Mat(3, 1, lambda i, j: ite(eq(i, 0), p0(k), ite(eq(i, 1), v0(k), a0(k)))))
    c.returns(build(c, p, dt, n, t0, ini(0), ini(1)))


def from_previous(c):
    p, dt, n, t0, prev = c.args
    inv_lipm(c, prev)
    fin = lambda q: steps(q, q.variable.k_end - q.variable.k_start, P(-1))
    return build(c, p, dt, n, t0, fin(prev.x), fin(prev.y))


@contract(LIPM + "::LIPM", "Problem,double,int,double,LIPM", "C20")
def _(c):
    c.returns(from_previous(c))


@contract(LIPM + "::build_LIPM_from_previous", "Problem,double,int,double,LIPM", "C20")
def _(c):
    c.returns(from_previous(c))


@contract(LIPM + "::get_trajectory", "", "C20")
def _(c):
    s = c.this
    ox, _ = updated(c, s.x)
    oy, _ = updated(c, s.y)
    ox["t_start"], oy["t_start"] = s.x.t_start, s.y.t_start
    c.returns(StructV(LTR, None, x=StructV(TR, None, **ox), y=StructV(TR, None, **oy)))
