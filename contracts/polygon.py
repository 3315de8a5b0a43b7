"""Contracts of PolygonConstraint (C07)."""
from spec import *
from expr import *

PG = "placo::problem::PolygonConstraint"


def polygon(e, poly, margin):
    """row i: signed distance to the edge i -> i+1 (inside of a clockwise polygon) minus the margin"""
    n = poly.len

    def nxt(i):
        return ite(eq(i + 1, n), 0, i + 1)

    def nrm(i):
        a, b = poly(i), poly(nxt(i))
        dx, dy = b(0) - a(0), b(1) - a(1)
        l = sqrt(dx * dx + dy * dy)
        f = ite(gt(dx * dx + dy * dy, 0), inv(l), 1)
        return dy * f, -dx * f

    def A(i, j):
        nx, ny = nrm(i)
        return nx * e.A(0, j) + ny * e.A(1, j)

    def b(i, j):
        nx, ny = nrm(i)
        a = poly(i)
        return nx * (e.b(0) - a(0)) + ny * (e.b(1) - a(1)) - margin
    return expr(Mat(n, e.A.cols, A), Mat(n, 1, b))


def ret(c, e):
    c.returns(StructV(PC, None, expression=e, type=P(INEQUALITY), priority=P(HARD), weight=P(1), is_active=FALSE))


@contract(PG + "::in_polygon_xy", "Expression,vector<Vector2d>,double", "C07")
def _(c):
    e = c.arg(0)
    wf(c, e)
    c.throws(NOT(eq(e.A.rows, 2)))
    ret(c, polygon(e, c.arg(1), c.arg(2)))


@contract(PG + "::in_polygon", "Expression,Expression,vector<Vector2d>,double", "C07")
def _(c):
    ex, ey = c.arg(0), c.arg(1)
    wf(c, ex, ey)
    c.requires(eq(ex.A.rows, 1), eq(ey.A.rows, 1))
    e = expr(Mat(2, tmax(ex.A.cols, ey.A.cols), lambda i, j: ite(eq(i, 0), padA(ex, 0, j), padA(ey, 0, j))),
             Mat(2, 1, lambda i, j: ite(eq(i, 0), ex.b(0), ey.b(0))))
    ret(c, polygon(e, c.arg(2), c.arg(3)))
