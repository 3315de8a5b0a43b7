"""Cubic splines against a Hermite oracle, with interleaved additions, clears and evaluations."""
import math
import numpy as np, placo
from common import Driver

d = Driver("splines of 0-7 random points, evaluated inside, at and outside their knots, with interleaved additions and clears; 3D splines")
rng = d.rng


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


class Oracle:
    def __init__(self, angular=False):
        self.p, self.angular = [], angular

    def add(self, t, x, dx):
        if self.angular and self.p:
            x = self.p[-1][1] + wrap(x - self.p[-1][1])
        self.p.append((t, x, dx))

    def at(self, t, k):
        p = self.p
        if not p:
            return [0.]
        if len(p) == 1:
            return [[p[0][1], p[0][2], 0.][k]]
        t = min(max(t, p[0][0]), p[-1][0])
        out = []
        for (t1, x1, d1), (t2, x2, d2) in zip(p, p[1:]):
            if t1 <= t <= t2:
                T = t2 - t1
                M = np.array([[0, 0, 0, 1], [0, 0, 1, 0], [T ** 3, T * T, T, 1], [3 * T * T, 2 * T, 1, 0]])
                c = np.linalg.solve(M, [x1, d1, x2, d2])
                out.append(np.polyval(np.polyder(c, k), t - t1))
        return out

    def duration(self):
        return self.p[-1][0] - self.p[0][0] if self.p else 0.


def check(s, o):
    ts = [float(rng.uniform(-2, 12)) for _ in range(4)] + [p[0] for p in o.p]
    for t in ts:
        for k, f in enumerate((s.pos, s.vel, s.acc)):
            got, want = f(t), o.at(t, k)
            d.true(any(abs(got - w) <= 1e-6 * (1 + abs(w)) for w in want), "derivative %d" % k, t=t, points=o.p, got=got, want=want)
    d.eq(s.duration(), o.duration(), "duration", points=o.p)


@d.test
def histories():
    for c in range(d.n(120)):
        ang = bool(rng.integers(0, 2))
        s, o = placo.CubicSpline(ang), Oracle(ang)
        t = float(rng.uniform(-1, 3))
        d.case("history %d angular %s" % (c, ang))
        for _ in range(int(rng.integers(1, 10))):
            r = rng.random()
            if r < .6:
                t += float(rng.uniform(.1, 2))
                x, dx = float(rng.normal() * 4), float(rng.normal())
                s.add_point(t, x, dx)
                o.add(t, x, dx)
                if rng.random() < .3:
                    d.eq(s.duration(), o.duration(), "duration before evaluation", points=o.p)
            elif r < .7:
                s.clear()
                o.p = []
                t = float(rng.uniform(-1, 3))
            elif r < .8 and o.p:
                d.throws(lambda: s.add_point(o.p[-1][0] - float(rng.choice([0., .5])), 1., 0.), "point added in the past", points=o.p)
                check(s, o)
            else:
                check(s, o)
        check(s, o)
        check(s, o)


@d.test
def continuity():
    for c in range(d.n(30)):
        s = placo.CubicSpline()
        t = 0.
        pts = []
        for _ in range(5):
            pts.append((t, float(rng.normal()), float(rng.normal())))
            s.add_point(*pts[-1])
            t += float(rng.uniform(.2, 1.5))
        d.case("continuity %d" % c)
        for t, x, dx in pts:
            for e in (-1e-9, 0, 1e-9):
                d.eq(s.pos(t + e), x, "value at a knot", 1e-5, points=pts)
                d.eq(s.vel(t + e), dx, "slope at a knot", 1e-4, points=pts)
        for t in rng.uniform(pts[0][0] + .01, pts[-1][0] - .01, size=20):
            if min(abs(t - p[0]) for p in pts) > 1e-3:
                h = 1e-5
                d.eq((s.pos(t + h) - s.pos(t - h)) / (2 * h), s.vel(t), "velocity is the derivative", 1e-4, points=pts, t=t)
                d.eq((s.vel(t + h) - s.vel(t - h)) / (2 * h), s.acc(t), "acceleration is the derivative", 1e-4, points=pts, t=t)


@d.test
def three():
    for c in range(d.n(40)):
        s, os = placo.CubicSpline3D(), [Oracle() for _ in range(3)]
        t = 0.
        d.case("3D %d" % c)
        for q in range(int(rng.integers(1, 6))):
            t += float(rng.uniform(.2, 2))
            x, dx = rng.normal(size=3), rng.normal(size=3)
            s.add_point(t, x, dx)
            for o, a, b in zip(os, x, dx):
                o.add(t, a, b)
            if rng.random() < .2:
                s.clear()
                for o in os:
                    o.p = []
            for u in rng.uniform(-1, 10, size=4):
                for k, f in enumerate((s.pos, s.vel, s.acc)):
                    d.eq(np.array(f(float(u))).flatten(), [o.at(float(u), k)[0] for o in os], "3D derivative %d" % k, 1e-6, t=u, points=[o.p for o in os])
            d.eq(s.duration(), os[0].duration(), "3D duration")


d.run()
