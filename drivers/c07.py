"""Polygon constraints: one inequality per edge, tight exactly at the margin."""
import numpy as np, placo
from common import Driver

d = Driver("random convex clockwise polygons (2-9 vertices), margins of both signs, random 2D expressions; signed distances to the edges computed independently")
rng = d.rng


def polygon():
    n = int(rng.integers(3, 10))
    a = np.sort(rng.uniform(0, 2 * np.pi, size=n))[::-1]      # clockwise
    while np.min(np.abs(np.diff(np.concatenate([a, [a[0] - 2 * np.pi]])))) < .15:
        a = np.sort(rng.uniform(0, 2 * np.pi, size=n))[::-1]
    c = rng.normal(size=2)
    r = rng.uniform(.2, 3, size=2)
    return [c + r * np.array([np.cos(t), np.sin(t)]) for t in a]


def dist(poly, p):
    out = []
    for k in range(len(poly)):
        A, B = poly[k], poly[(k + 1) % len(poly)]
        e = (B - A) / np.linalg.norm(B - A)
        # inside lies on the right of a clockwise edge
        out.append(-(e[0] * (p - A)[1] - e[1] * (p - A)[0]))
    return np.array(out)


@d.test
def edges():
    for _ in range(d.n(200)):
        poly = polygon()
        m = float(np.float32(rng.choice([0., .1, .5, -.2])))
        pr = placo.Problem()
        pr.add_variable(int(rng.integers(1, 4)))
        n = pr.n_variables
        e = placo.Expression()
        e.A, e.b = np.asfortranarray(rng.normal(size=(2, n))), rng.normal(size=2)
        if n == 1:
            e.A = np.asfortranarray(rng.normal(size=(2, 1)))
        d.case("polygon of %d vertices margin %g" % (len(poly), m))
        data = dict(polygon=poly, margin=m)
        c = placo.PolygonConstraint.in_polygon_xy(e, poly, m)
        c2 = placo.PolygonConstraint.in_polygon(e.slice(0, 1), e.slice(1, 1), poly, m)
        d.true(c.expression.rows() == len(poly), "one inequality per edge", **data)
        for _ in range(3):
            x = rng.normal(size=n)
            pt = np.atleast_1d(e.value(x))
            want = dist(poly, pt) - m
            d.eq(np.atleast_1d(c.expression.value(x)), want, "signed distance minus margin", x=x, **data)
            d.eq(np.atleast_1d(c2.expression.value(x)), want, "x/y variant", x=x, **data)
        d.true(c.priority == "hard" and c.weight == 1., "hard constraint", **data)
    for rows in (1, 3, 4):
        e = placo.Expression()
        e.A, e.b = np.asfortranarray(rng.normal(size=(rows, 3))), rng.normal(size=rows)
        d.case("expression of %d rows" % rows)
        d.throws(lambda: placo.PolygonConstraint.in_polygon_xy(e, polygon(), 0.), "expression of %d rows" % rows)


@d.test
def solved():
    """the point of the polygon (shrunk by the margin) closest to a target"""
    for _ in range(d.n(30)):
        poly = polygon()
        inner = dist(poly, np.mean(poly, axis=0)).min()
        m = float(np.float32(inner * .5)) if inner > 0 else 0.
        pr = placo.Problem()
        x = pr.add_variable(2)
        d.case("solve in polygon of %d vertices" % len(poly))
        pr.add_constraint(placo.PolygonConstraint.in_polygon_xy(x.expr(), poly, m))
        t = np.mean(poly, axis=0) + rng.normal(size=2) * 4
        pr.add_constraint(x.expr() == t).configure("soft", 1.)
        pr.solve()
        v = np.atleast_1d(x.value)
        d.true(dist(poly, v).min() > m - 1e-6, "margin kept", polygon=poly, margin=m, x=v)
        # projections on the shrunk polygon: sampling can not do better
        for _ in range(20):
            w = np.mean(poly, axis=0) + rng.normal(size=2)
            if dist(poly, w).min() >= m:
                d.true(np.linalg.norm(w - t) >= np.linalg.norm(v - t) - 1e-4, "closest point", polygon=poly, margin=m, x=v, w=w, t=t)


d.run()
