"""Contracts of Integrator and Integrator::Trajectory (C06)."""
from spec import *
from expr import *

IT = "placo::problem::Integrator"
TR = IT + "::Trajectory"
ANY = OpaqueV("unspecified")


def expm(M):
    k = mat_key(M)
    return Mat(M.rows, M.cols, lambda i, j: T.app("expm", k + (P(i), P(j))))


def AB(M, order, dt):
    Me = expm(M.map(lambda x: x * dt))
    return Me.block(0, 0, order, order), Me.block(0, order, order, 1)


def shift(order):
    return Mat(order + 1, order + 1, lambda i, j: ite(eq(j, i + 1), 1, 0))


def powers(A, order):
    """k, i, j -> entry of A^k"""
    return spec_rec("Apow", lambda ks, p: ite(eq(ks[0], ks[1]), P(1), P(0)),
                    lambda prev, m, ks, p: Sum(order, lambda t: A(ks[0], t) * prev([t, ks[1]])), (), 2)


def bad_diff(order, diff, all_):
    return OR(lt(diff, ite(all_, -1, 0)), gt(diff, order))


@contract(IT + "::upper_shift_matrix", "int", "C06")
def _(c):
    n = c.arg(0)
    c.requires(ge(n, 0))
    c.returns(shift(n))


@contract(IT + "::check_diff", "int,int,bool", "C06")
def _(c):
    c.throws(bad_diff(c.arg(0), c.arg(1), c.arg(2)))


@contract(IT + "::AB_matrices", "MatrixXd,int,double", "C06")
def _(c):
    M, n, dt = c.args
    c.requires(ge(n, 0), eq(M.rows, n + 1), eq(M.cols, n + 1))
    A, B_ = AB(M, n, dt)
    c.returns(StructV("pair", None, first=A, second=B_))


def integrator(v, X0, M, dt):
    order, N = M.rows - 1, v.k_end - v.k_start
    A, B_ = AB(M, order, dt)
    pw = powers(A, order)
    return StructV(IT, None, variable=v.obj, N=N, order=order, dt=P(dt), M=M, A=A, B=B_, X0=raw(X0), t_start=P(0), version=P(0),
                   final_transition_matrix=Mat(order, N, lambda i, j: Sum(order, lambda t: pw(N - 1 - j, i, t) * B_(t))),
                   a_powers=MapV(lambda k: AND(ge(k, 0), le(k, N)), FamV(lambda k: Mat(order, order, lambda i, j: pw(k, i, j))),
                                 kt="int"),
                   trajectory=ANY)


@contract(IT + "::Integrator", "Variable,Expression,MatrixXd,double", "C06")
def _(c):
    v, X0, M, dt = c.args
    c.requires(ge(M.rows, 1), eq(M.cols, M.rows), ge(v.k_end, v.k_start))
    c.returns(integrator(v, X0, M, dt))


@contract(IT + "::Integrator", "Variable,Expression,int,double", "C06")
def _(c):
    v, X0, n, dt = c.args
    c.requires(ge(n, 0), ge(v.k_end, v.k_start))
    c.throws(NOT(eq(X0.A.rows, n)))
    c.returns(integrator(v, X0, shift(n), dt))


def inv_integrator(c, s):
    """object invariant established by the constructors"""
    v = s.variable
    wf(c, s.X0)
    c.requires(ge(v.k_start, 0), ge(v.k_end, v.k_start), eq(s.N, v.k_end - v.k_start), ge(s.order, 0),
               eq(s.M.rows, s.order + 1), eq(s.M.cols, s.order + 1),
               eq(s.A.rows, s.order), eq(s.A.cols, s.order), eq(s.B.rows, s.order), eq(s.B.cols, 1),
               eq(s.final_transition_matrix.rows, s.order), eq(s.final_transition_matrix.cols, s.N),
               eq(s.X0.A.rows, s.order), NOT(sconst(s.X0)))


def inv_power(c, s):
    m = s.a_powers.v
    k = T.var("$p", "I")
    c.requires(forall((k.atom(),), IMP(AND(ge(k, 0), le(k, s.N)),
                                       AND(m.has(k), eq(m.get(k).rows, s.order), eq(m.get(k).cols, s.order)))))


def state(s, step, i):
    """row i of the state at a step: coefficients and offset"""
    v, N, n = s.variable, s.N, s.order
    F_, pw, X0 = s.final_transition_matrix, s.a_powers.v.get(step), s.X0
    A = lambda j: ite(AND(ge(j, v.k_start), lt(j, v.k_start + step)), F_(i, N - step + j - v.k_start), 0) + \
        Sum(n, lambda t: pw(i, t) * padA(X0, t, j))
    b = Sum(n, lambda t: pw(i, t) * X0.b(t))
    return A, b


def var_row(v, k):
    """expression of the k-th component of the variable"""
    return expr(Mat(1, v.k_end, lambda i, j: ite(eq(j, v.k_start + k), 1, 0)), zeros(1, 1))


def steps(s, step, diff):
    v, n = s.variable, s.order
    rows = ite(eq(diff, -1), n, 1)
    row = lambda i: ite(eq(diff, -1), i, diff)
    return expr(Mat(rows, tmax(v.k_end, s.X0.A.cols), lambda i, j: state(s, step, row(i))[0](j)),
                Mat(rows, 1, lambda i, j: state(s, step, row(i))[1]))


@contract(IT + "::expr", "int,int", "C06")
def _(c):
    s, step0, diff = c.this, c.arg(0), c.arg(1)
    inv_integrator(c, s)
    v = s.variable
    n = v.k_end - v.k_start
    step = ite(eq(step0, -1), n, step0)
    inv_power(c, s)
    c.requires(ge(n, 1), ge(s.order, 1))
    c.throws(OR(bad_diff(s.order, diff, TRUE), lt(step, 0), gt(step, n)))
    c.returns(merge(eq(diff, s.order), var_row(v, tmin(step, n - 1)), steps(s, step, diff)))


def exprt(s, t, diff):
    v, n = s.variable, s.order
    tt = t - s.t_start
    N = v.k_end - v.k_start
    step = tmax(tmin(N - 1, T.trunc(tt * inv(s.dt))), 0)
    r = tt - step * s.dt
    A, B_ = AB(s.M, n, r)
    cols = tmax(v.k_end, s.X0.A.cols)
    rows = ite(eq(diff, -1), n, 1)
    row = lambda i: ite(eq(diff, -1), i, diff)
    full = expr(Mat(rows, cols, lambda i, j: Sum(n, lambda t: A(row(i), t) * state(s, step, t)[0](j)) +
                    ite(eq(j, v.k_start + step), B_(row(i)), 0)),
                Mat(rows, 1, lambda i, j: Sum(n, lambda t: A(row(i), t) * state(s, step, t)[1])))
    return step, merge(eq(diff, n), var_row(v, step), full)


@contract(IT + "::expr_t", "double,int", "C06")
def _(c):
    s, t, diff = c.this, c.arg(0), c.arg(1)
    inv_integrator(c, s)
    v = s.variable
    step, r = exprt(s, t, diff)
    inv_power(c, s)
    c.requires(gt(s.dt, 0), ge(v.k_end - v.k_start, 1), ge(s.order, 1))
    c.throws(bad_diff(s.order, diff, TRUE))
    c.returns(r)


@contract(TR + "::duration", "", "C06")
def _(c):
    c.returns(c.this.variable_value.rows * c.this.dt)


def tr_value(s, t, diff):
    """s: variable_value, t_start, dt, order, M, keyframes"""
    n = s["variable_value"].rows
    tt = t - s["t_start"]
    dt, order = s["dt"], s["order"]
    k = T.floor(tt * inv(dt))
    k = ite(lt(k, 0), 0, k)
    k = ite(ge(k, n), n - 1, k)
    rem = tmax(0, tmin(dt, tt - k * dt))
    kf = s["keyframes"].get(k)
    A, B_ = AB(s["M"], order, rem)
    return ite(eq(diff, order), s["variable_value"](k),
               Sum(order, lambda t: A(diff, t) * kf(t)) + B_(diff) * s["variable_value"](k))


TRF = ("variable_value", "t_start", "dt", "order", "M", "keyframes")


def inv_trajectory(c, s, cond=TRUE):
    """object invariant of a trajectory"""
    k = T.var("$p", "I")
    m = s["keyframes"]
    c.requires(IMP(cond, AND(gt(s["dt"], 0), ge(s["variable_value"].rows, 1), ge(s["order"], 0), eq(s["M"].rows, s["order"] + 1),
               eq(s["M"].cols, s["order"] + 1),
               forall((k.atom(),), IMP(AND(ge(k, 0), le(k, s["variable_value"].rows)), AND(m.has(k), eq(m.get(k).rows, s["order"])))))))


@contract(TR + "::value", "double,int", "C06")
def _(c):
    s = {f: raw(getattr(c.this, f)) for f in TRF}
    inv_trajectory(c, s)
    c.throws(bad_diff(s["order"], c.arg(1), FALSE))
    c.returns(tr_value(s, c.arg(0), c.arg(1)))


def frames(s, v):
    """k, i -> component i of the state at step k: X0, then A X + B u"""
    x = v.problem.x
    X0 = s.X0
    return spec_rec("Xk", lambda ks, p: Sum(X0.A.cols, lambda k: X0.A(ks[0], k) * x(k)) + X0.b(ks[0]),
                    lambda prev, m, ks, p: Sum(s.order, lambda t: s.A(ks[0], t) * prev([t, ks[1]])) + s.B(ks[0]) * v.value(m), (), 2)


def updated(c, s=None):
    """-> new trajectory fields; the effect of update_trajectory"""
    s = s or c.this
    v = s.variable
    inv_integrator(c, s)
    n = v.k_end - v.k_start
    c.requires(eq(v.value.rows, n), ge(v.problem.x.rows, s.X0.A.cols))
    c.throws(eq(v.version, 0))
    new = NOT(eq(s.version, v.version))
    X = frames(s, v)
    tr = s.trajectory
    old = tr.keyframes.v
    kf = MapV(lambda k: OR(old.has(k), AND(ge(k, 0), le(k, n))),
              FamV(lambda k: merge(AND(ge(k, 0), le(k, n)), Mat(s.order, 1, lambda i, j: X(k, i, j)), lambda: old.get(k))), kt="int")
    out = {f: merge(new, raw(getattr(s, f)), raw(getattr(tr, f))) for f in ("M", "dt", "order", "t_start")}
    out["variable_value"] = merge(new, v.value, tr.variable_value)
    out["keyframes"] = merge(new, kf, old)
    for f in out:
        c.set(tr, f, out[f])
    c.set(s, "version", v.version)
    return out, new


@contract(IT + "::update_trajectory", "", "C06")
def _(c):
    updated(c)


@contract(IT + "::get_trajectory", "", "C06")
def _(c):
    out, new = updated(c)
    c.returns(StructV(TR, None, **out))


@contract(IT + "::value", "double,int", "C06")
def _(c):
    s = c.this
    out, new = updated(c)
    v = s.variable
    inv_trajectory(c, {f: raw(getattr(s.trajectory, f)) for f in TRF}, NOT(new))
    c.requires(gt(s.dt, 0), ge(v.k_end - v.k_start, 1))
    c.throws(bad_diff(out["order"], c.arg(1), FALSE))
    c.returns(tr_value(out, c.arg(0), c.arg(1)))
