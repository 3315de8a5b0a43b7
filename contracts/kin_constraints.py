"""Contracts of the kinematics constraints (C14): the constraint each add_constraint() appends to the problem."""
from spec import *
from robot import *
from expr import *
import problem
from polygon import polygon
from kin_tasks import linked, rows, sub3, unit

KT = "placo::kinematics::"


def append(c, p, e, type_, k=0):
    """one more constraint in the problem, with the priority and weight of this object"""
    n = c.pushed(p, "constraints", PC, k)
    c.set(n, "expression", e)
    c.set(n, "type", P(type_))
    c.set(n, "priority", ite(eq(c.this.priority, 0), HARD, SOFT))
    c.set(n, "weight", c.this.weight)
    c.set(n, "is_active", FALSE)
    c.set(p, "constraints", p.constraints.v.push(n.obj))


def below(J, value, bound):
    """value + J dq <= bound, stated as bound - value - J dq >= 0"""
    return expr(Mat(J.rows, J.cols, lambda i, j: -J(i, j)), Mat(J.rows, 1, lambda i, j: bound(i) - value(i)))


@contract(KT + "DistanceConstraint::add_constraint", "Problem", "C14")
def _(c):
    s, r = linked(c)
    a, b = c.this.frame_a, c.this.frame_b
    ab = sub3(pose(r, b).translation, pose(r, a).translation)
    u = unit(ab)
    J = rows(jac(r, b, LWA), 0, 3) - rows(jac(r, a, LWA), 0, 3)
    append(c, c.arg(0), below(Mat(1, nv(r), lambda i, j: sum((u(k) * J(k, j) for k in range(3)), P(0))),
                              lambda i: sqrt(squared_norm(ab)), lambda i: c.this.distance_max), INEQUALITY)


def relative(c, r):
    """pose of b in a, and the angular velocity of b with respect to a, expressed in a"""
    a, b = c.this.frame_a, c.this.frame_b
    c.name_products()
    Tab = named(aff_mul(aff_inv(pose(r, a)), pose(r, b)))
    J = matmul(Tab.linear, rows(jac(r, b, LOCAL), 3, 3)) - rows(jac(r, a, LOCAL), 3, 3)
    return Tab, J


def dot(u, J):
    return Mat(1, J.cols, lambda i, j: sum((u(k) * J(k, j) for k in range(3)), P(0)))


@contract(KT + "YawConstraint::add_constraint", "Problem", "C14")
def _(c):
    s, r = linked(c)
    Tab, J = relative(c, r)
    x = Mat(3, 1, lambda i, j: Tab.linear(i, 0))
    yaw = T.app("atan2", (x(1), x(0)))
    h2 = x(0) * x(0) + x(1) * x(1)
    h = sqrt(h2)
    # unit vector along which a rotation turns the projection of x
    ax = unit(cross(x, unit(vec(-x(1), x(0), 0))))
    k = ite(gt(h, 0), inv(h), 1)
    Jy = dot(ax, J)
    append(c, c.arg(0), below(Mat(2, nv(r), lambda i, j: ite(eq(i, 0), 1, -1) * k * Jy(0, j)),
                              lambda i: ite(eq(i, 0), yaw, -yaw), lambda i: c.this.angle_max), INEQUALITY)


@contract(KT + "ConeConstraint::add_constraint", "Problem", "C14")
def _(c):
    s, r = linked(c)
    w = c.this
    c.requires(ge(w.N, 1))
    Tab, J = relative(c, r)
    z = Mat(3, 1, lambda i, j: Tab.linear(i, 2))
    a0 = T.app("atan2", (z(1), z(0)))

    def al(k):
        return a0 + P(k) * 2 * w.range * inv(w.N) - w.range

    def A(k, j):
        return -(T.sin(al(k)) * J(0, j)) + T.cos(al(k)) * J(1, j)
    append(c, c.arg(0), below(Mat(w.N, nv(r), A), lambda k: T.app("atan2", (T.cos(al(k)) * z(0) + T.sin(al(k)) * z(1), z(2))), lambda i: w.angle_max), INEQUALITY)


@contract(KT + "JointSpaceHalfSpacesConstraint::add_constraint", "Problem", "C14")
def _(c):
    s, r = linked(c)
    w = c.this
    q = r.state.q
    A, b = w.A, w.b
    c.requires(eq(q.rows, nv(r) + 1), eq(q.cols, 1), eq(b.cols, 1))
    c.throws(NOT(eq(A.rows, b.rows)))
    c.throws(NOT(eq(A.cols, q.rows)))
    append(c, c.arg(0), below(Mat(A.rows, nv(r), lambda i, j: ite(lt(j, 6), 0, A(i, j + 1))),
                              lambda i: Sum(nv(r) - 6, lambda k: A(i, k + 7) * q(k + 7)), lambda i: b(i)), INEQUALITY)


@contract(KT + "CoMPolygonConstraint::add_constraint", "Problem", "C14")
def _(c):
    s, r = linked(c)
    w = c.this
    c.throws(AND(w.dcm, OR(eq(s.dt, 0), eq(w.omega, 0))))
    J, com = opaque(r, "com_jacobian", 3, nv(r)), opaque(r, "com_world", 3, 1)
    k = ite(w.dcm, 1 + inv(s.dt * w.omega), 1)
    append(c, c.arg(0), polygon(expr(Mat(2, nv(r), lambda i, j: k * J(i, j)), Mat(2, 1, lambda i, j: com(i, 0))), w.polygon, w.margin), INEQUALITY)
