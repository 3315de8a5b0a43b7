"""Contracts of Segment (C10)."""
from spec import *

SG = "placo::tools::Segment"
EPS = P(Fraction(1, 100000))


def sub(a, b):
    return (a(0) - b(0), a(1) - b(1))


def crs(u, v):
    return u[0] * v[1] - u[1] * v[0]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1]


class S:
    def __init__(self, start, end):
        self.p, self.v = start, sub(end, start)
        self.len = sqrt(dot(self.v, self.v))


def seg(w):
    return S(w.start, w.end)


def proper(c, *ss):
    """segments with two distinct ends"""
    for s in ss:
        c.requires(gt(dot(s.v, s.v), 0))


def parallel(a, b, eps):
    return lt(tabs(crs(a.v, b.v)) * inv(a.len * b.len), eps)  # sine of the angle


def aligned(a, pt, eps):
    b = S(a.p, pt)
    return OR(lt(b.len, eps), parallel(a, b, eps))


def lambdas(a, b):
    """parameters on a and on b of the common point of the two lines"""
    d = sub(b.p, a.p)
    k = inv(crs(a.v, b.v))
    return crs(d, b.v) * k, crs(d, a.v) * k


@contract(SG + "::Segment", "Vector2d,Vector2d", "C10")
def _(c):
    c.returns(StructV(SG, None, start=c.arg(0), end=c.arg(1)))


@contract(SG + "::norm", "", "C10")
def _(c):
    c.returns(seg(c.this).len)


@contract(SG + "::is_parallel", "Segment,double", "C10")
def _(c):
    a, b = seg(c.this), seg(c.arg(0))
    proper(c, a, b)
    c.returns(parallel(a, b, c.arg(1)))


@contract(SG + "::is_point_aligned", "Vector2d,double", "C10")
def _(c):
    a = seg(c.this)
    proper(c, a)
    c.requires(gt(c.arg(1), 0))
    c.returns(aligned(a, c.arg(0), c.arg(1)))


@contract(SG + "::is_segment_aligned", "Segment,double", "C10")
def _(c):
    a = seg(c.this)
    proper(c, a)
    c.requires(gt(c.arg(1), 0))
    c.returns(AND(aligned(a, c.arg(0).start, c.arg(1)), aligned(a, c.arg(0).end, c.arg(1))))


@contract(SG + "::is_point_in_segment", "Vector2d,double", "C10")
def _(c):
    a = seg(c.this)
    proper(c, a)
    c.requires(gt(c.arg(1), 0))
    b = S(a.p, c.arg(0))
    c.returns(AND(aligned(a, c.arg(0), c.arg(1)), ge(dot(a.v, b.v), 0), le(dot(a.v, b.v), dot(a.v, a.v))))


def two(c):
    a, b = seg(c.this), seg(c.arg(0))
    proper(c, a, b)
    c.throws(parallel(a, b, EPS))
    return (a, b) + lambdas(a, b)


@contract(SG + "::get_lambdas", "Segment", "C10")
def _(c):
    a, b, l1, l2 = two(c)
    c.returns(StructV("pair", None, first=l1, second=l2))
    for k in (0, 1):
        c.ensures("the parameters locate the same point on both lines (coordinate %d)" % k,
                  lambda r, post, k=k: eq(a.p(k) + r.get("first") * a.v[k], b.p(k) + r.get("second") * b.v[k]))


@contract(SG + "::line_pass_through", "Segment", "C10")
def _(c):
    a, b, l1, l2 = two(c)
    c.returns(AND(ge(l1, 0), le(l1, 1)))


@contract(SG + "::half_line_pass_through", "Segment", "C10")
def _(c):
    a, b, l1, l2 = two(c)
    c.returns(AND(ge(l1, 0), le(l1, 1), ge(l2, 0)))


@contract(SG + "::intersects", "Segment", "C10")
def _(c):
    a, b, l1, l2 = two(c)
    c.returns(AND(ge(l1, 0), le(l1, 1), ge(l2, 0), le(l2, 1)))


@contract(SG + "::lines_intersection", "Segment", "C10")
def _(c):
    a, b, l1, l2 = two(c)
    c.returns(vec(b.p(0) + l2 * b.v[0], b.p(1) + l2 * b.v[1]))
