"""Segment predicates against exact rational arithmetic."""
from fractions import Fraction as Fr
import numpy as np, placo
from common import Driver

d = Driver("pairs of segments with ends on a small integer grid (exact oracle in rationals) and with random real ends; epsilon 1e-5")
rng = d.rng
EPS = 1e-5


def pt():
    return rng.integers(-4, 5, size=2).astype(float)


def fr(p):
    return [Fr(float(x)) for x in p]


def cr(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def case(p):
    A, B, C, D = p
    a, b, c, e = map(fr, p)
    u, v = sub(b, a), sub(e, c)
    s, t = placo.Segment(A, B), placo.Segment(C, D)
    data = dict(this=[A, B], other=[C, D])
    par = abs(float(cr(u, v))) / (np.hypot(*[float(x) for x in u]) * np.hypot(*[float(x) for x in v])) < EPS
    d.eq(s.norm(), np.linalg.norm(B - A), "norm", **data)
    d.true(s.is_parallel(t, EPS) == par, "is_parallel", **data)
    if par:
        for n in ("intersects", "line_pass_through", "half_line_pass_through", "lines_intersection"):
            d.throws(lambda: getattr(s, n)(t), n + " of parallels", **data)
    else:
        w = sub(c, a)
        l1, l2 = cr(w, v) / cr(u, v), cr(w, u) / cr(u, v)
        near = min(abs(float(x)) for x in (l1, l1 - 1, l2, l2 - 1)) < 1e-9 and not all(float(x) == int(x) for q in p for x in q)
        if not near:
            i1, i2 = 0 <= l1 <= 1, 0 <= l2 <= 1
            exact = min(abs(float(x)) for x in (l1, l1 - 1, l2, l2 - 1)) > 1e-9 or all((l.denominator & (l.denominator - 1)) == 0 for l in (l1, l2))
            if exact:
                d.true(s.line_pass_through(t) == i1, "line_pass_through", **data)
                d.true(s.intersects(t) == (i1 and i2), "intersects", **data)
                d.true(s.half_line_pass_through(t) == (i1 and l2 >= 0), "half_line_pass_through", **data)
        X = np.array(s.lines_intersection(t)).flatten()
        d.eq(X, [float(a[k] + l1 * u[k]) for k in range(2)], "lines_intersection", 1e-7, **data)
    # point tests
    def sine(x):
        q = sub(fr(x), a)
        n = np.hypot(*[float(y) for y in q])
        return 0. if n < EPS else abs(float(cr(u, q))) / (np.hypot(*[float(y) for y in u]) * n)
    for x in (C, D, A, B, (A + B) / 2, A + 2 * (B - A), A - (B - A)):
        q = sub(fr(x), a)
        al = sine(x) < EPS
        dd = q[0] * u[0] + q[1] * u[1]
        d.true(s.is_point_aligned(x, EPS) == al, "is_point_aligned", point=x, **data)
        d.true(s.is_point_in_segment(x, EPS) == (al and 0 <= dd <= u[0] * u[0] + u[1] * u[1]), "is_point_in_segment", point=x, **data)
    d.true(s.is_segment_aligned(t, EPS) == (sine(C) < EPS and sine(D) < EPS), "is_segment_aligned", **data)


@d.test
def grid():
    for _ in range(d.n(1500)):
        p = [pt() for _ in range(4)]
        if (p[0] == p[1]).all() or (p[2] == p[3]).all():
            continue
        d.case("%s" % [x.tolist() for x in p])
        case(p)


@d.test
def reals():
    for _ in range(d.n(300)):
        p = [rng.normal(size=2) * rng.choice([.01, 1, 100]) for _ in range(4)]
        d.case("%s" % [x.tolist() for x in p])
        A, B, C, D = p
        s, t = placo.Segment(A, B), placo.Segment(C, D)
        u, v = B - A, D - C
        if abs(cr(u, v)) < 1e-3 * np.linalg.norm(u) * np.linalg.norm(v):
            continue
        l1, l2 = np.linalg.solve(np.array([u, -v]).T, C - A)
        if min(abs(x) for x in (l1, l1 - 1, l2, l2 - 1)) > 1e-6:
            d.true(s.intersects(t) == (0 <= l1 <= 1 and 0 <= l2 <= 1), "intersects", ends=p)
            d.true(t.intersects(s) == s.intersects(t), "symmetry", ends=p)
            d.true(s.line_pass_through(t) == (0 <= l1 <= 1), "line", ends=p)
            d.true(s.half_line_pass_through(t) == (0 <= l1 <= 1 and l2 >= 0), "half line", ends=p)
        d.eq(np.array(s.lines_intersection(t)).flatten(), A + l1 * u, "lines_intersection", 1e-6, ends=p)


@d.test
def accessors():
    s = placo.Segment(np.array([1., 2.]), np.array([3., 4.]))
    d.case("setters")
    s.end = np.array([7., 8.])
    d.eq(np.array(s.start).flatten(), [1, 2], "start")
    d.eq(np.array(s.end).flatten(), [7, 8], "end")
    s.start = np.array([5., 6.])
    d.eq(np.array(s.start).flatten(), [5, 6], "start")
    d.eq(np.array(s.end).flatten(), [7, 8], "end")


d.run()
