"""Contracts of the contacts (C16): the constraints and objectives each contact adds on its forces; their Jacobians."""
from spec import *
from robot import *
from expr import *
import problem
from kin_tasks import rows
from fractions import Fraction

DT = "placo::dynamics::"
HEAP.update([DT + "Task", DT + "DynamicsSolver", DT + "Contact", DT + "Constraint"])
half = Fraction(1, 2)


def push_all(c, p, new):
    """constraints appended to the problem, in this order: (expression, type, priority, weight)"""
    seq = p.constraints.v
    for k, (e, type_, prio, w) in enumerate(new):
        o = c.pushed(p, "constraints", PC, k)
        for f, x in dict(expression=e, type=P(type_), priority=P(prio), weight=P(w), is_active=FALSE).items():
            c.set(o, f, x)
        seq = seq.push(o.obj)
    if new:
        c.set(p, "constraints", seq)


def comb(e, *terms):
    """sum of k * row r of the expression e, over terms (k, r)"""
    return expr(Mat(1, e.A.cols, lambda i, j: sum((P(k) * e.A(r, j) for k, r in terms), P(0))),
                Mat(1, 1, lambda i, j: sum((P(k) * e.b(r) for k, r in terms), P(0))))


def plus(a, b):
    return expr(Mat(1, a.A.cols, lambda i, j: a.A(i, j) + b.A(i, j)), Mat(1, 1, lambda i, j: a.b(i) + b.b(i)))


def part(e, start, n):
    return expr(e.A.block(start, 0, n, e.A.cols), e.b.block(start, 0, n, 1))


def surface(R, e):
    """the force (first three rows) in the surface frame"""
    RT = R.T
    return expr(matmul(RT, e.A.block(0, 0, 3, e.A.cols)), matmul(RT, e.b.block(0, 0, 3, 1)))


def ge0(e):
    return (e, INEQUALITY, HARD, 1)


def zero(e, w):
    return (e, EQUALITY, SOFT, w)


def cone(e, mu):
    """|fx| <= mu fz and |fy| <= mu fz"""
    out = []
    for r in (0, 1):
        out += [ge0(comb(e, (mu, 2), (-1, r))), ge0(comb(e, (mu, 2), (1, r)))]
    return out


def between(m, f, l):
    """-l/2 f <= m <= l/2 f"""
    s = lambda e, k: expr(e.A.scale(k), e.b.scale(k))
    return [ge0(plus(s(f, l * half), s(m, -1))), ge0(plus(s(f, l * half), m))]


def forces(c, n):
    f = c.this.f
    wf(c, f)
    c.requires(eq(f.A.rows, n))
    return f


@contract(DT + "Contact::size", "", "C16")
def _(c):
    c.returns(c.this.J.rows)


@contract(DT + "Contact::add_constraints", "Problem", "C16")
def _(c):
    w, f = c.this, c.this.f
    wf(c, f)
    wfor, = c.split(gt(w.weight_forces, 0))
    push_all(c, c.arg(0), [zero(f, w.weight_forces)] if wfor else [])


@contract(DT + "PointContact::add_constraints", "Problem", "C16")
def _(c):
    w, f = c.this, forces(c, 3)
    uni, wf_, wt = c.split(w.unilateral, gt(w.weight_forces, 0), gt(w.weight_tangentials, 0))
    fs = surface(w.R_world_surface, f)
    new = []
    if uni:
        new += [ge0(part(fs, 2, 1))] + cone(fs, w.mu)
    if wf_:
        new.append(zero(f, w.weight_forces))
    if wt:
        new.append(zero(part(fs, 0, 2), w.weight_tangentials))
    push_all(c, c.arg(0), new)


@contract(DT + "Contact6D::add_constraints", "Problem", "C16")
def _(c):
    w, f = c.this, forces(c, 6)
    c.throws(AND(w.unilateral, OR(eq(w.length, 0), eq(w.width, 0))))
    uni, wf_, wt, wm = c.split(w.unilateral, gt(w.weight_forces, 0), gt(w.weight_tangentials, 0), gt(w.weight_moments, 0))
    new = []
    if uni:
        new += [ge0(part(f, 2, 1))] + between(part(f, 4, 1), part(f, 2, 1), w.length) + between(part(f, 3, 1), part(f, 2, 1), w.width) + cone(f, w.mu)
    if wf_:
        new.append(zero(part(f, 0, 3), w.weight_forces))
    if wt:
        new.append(zero(part(f, 0, 2), w.weight_tangentials))
    if wm:
        new.append(zero(part(f, 3, 3), w.weight_moments))
    push_all(c, c.arg(0), new)


@contract(DT + "LineContact::add_constraints", "Problem", "C16")
def _(c):
    w, f = c.this, forces(c, 5)
    c.throws(AND(w.unilateral, eq(w.length, 0)))
    uni, wf_, wt, wm = c.split(w.unilateral, gt(w.weight_forces, 0), gt(w.weight_tangentials, 0), gt(w.weight_moments, 0))
    fs = surface(w.R_world_surface, f)
    new = []
    if uni:
        new += [ge0(part(fs, 2, 1))] + between(part(f, 3, 1), part(fs, 2, 1), w.length) + cone(fs, w.mu)
    if wf_:
        new.append(zero(fs, w.weight_forces))
    if wt:
        new.append(zero(part(fs, 0, 2), w.weight_tangentials))
    if wm:
        new.append(zero(part(f, 3, 2), w.weight_moments))
    push_all(c, c.arg(0), new)


@contract(DT + "ExternalWrenchContact::add_constraints", "Problem", "C16")
def _(c):
    w, f = c.this, forces(c, 6)
    c.requires(eq(w.w_ext.rows, 6), eq(w.w_ext.cols, 1))
    push_all(c, c.arg(0), [(expr(f.A, Mat(6, 1, lambda i, j: f.b(i) - w.w_ext(i))), EQUALITY, HARD, 1)])


def linked(c):
    s = c.this.solver
    c.requires(eq(s.N, nv(s.robot)), ge(s.N, 6))
    return s, s.robot


@contract(DT + "PointContact::update", "", "C16")
def _(c):
    A = c.this.position_task.A
    c.throws(NOT(eq(A.rows, 3)))
    c.set(c.this, "J", A)


@contract(DT + "Contact6D::update", "", "C16")
def _(c):
    s, r = linked(c)
    a, b = jac(r, c.this.position_task.frame_index, LOCAL), jac(r, c.this.orientation_task.frame_index, LOCAL)
    c.set(c.this, "J", Mat(6, nv(r), lambda i, j: ite(lt(i, 3), a(i, j), b(i, j))))


@contract(DT + "LineContact::update", "", "C16")
def _(c):
    s, r = linked(c)
    a, b = jac(r, c.this.position_task.frame_index, LWA), c.this.orientation_task.A
    c.requires(eq(b.cols, nv(r)))
    c.throws(NOT(eq(b.rows, 2)))
    c.set(c.this, "J", Mat(5, nv(r), lambda i, j: ite(lt(i, 3), a(i, j), b(i - 3, j))))


@contract(DT + "ExternalWrenchContact::update", "", "C16")
def _(c):
    s, r = linked(c)
    c.set(c.this, "J", jac(r, c.this.frame_index, c.this.reference))


@contract(DT + "PuppetContact::update", "", "C16")
def _(c):
    s, r = linked(c)
    c.set(c.this, "J", ident(s.N))


@contract(DT + "TaskContact::update", "", "C16")
def _(c):
    c.set(c.this, "J", c.this.task.A)


@contract(DT + "Contact6D::zmp", "", "C16")
def _(c):
    w = c.this.wrench
    c.requires(eq(w.rows, 6), NOT(eq(w(2), 0)))
    c.returns(vec(-w(4) * inv(w(2)), w(3) * inv(w(2)), 0))


@contract(DT + "LineContact::zmp", "", "C16")
def _(c):
    w = c.this.wrench
    R = c.this.R_world_surface
    fz = sum((R(k, 2) * w(k) for k in range(3)), P(0))
    c.requires(eq(w.rows, 5), NOT(eq(fz, 0)))
    c.returns(vec(-w(3) * inv(fz), 0, 0))
