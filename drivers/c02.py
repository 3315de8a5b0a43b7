"""Comparisons build the constraint they read as; configure sets priority and weight."""
import numpy as np, placo
from common import Driver

d = Driver("random expressions compared with expressions, vectors and numbers on either side: the constraint's expression "
           "against left-right (or its opposite), its default priority/weight, and its meaning through a small QP")
rng = d.rng


def mk(rows, cols):
    e = placo.Expression()
    e.A = rng.normal(size=(rows, cols))
    e.b = rng.normal(size=rows)
    return e


def val(e, x):
    return np.asarray(e.value(x)).reshape(-1)


@d.test
def expressions():
    for _ in range(d.n(150)):
        n = int(rng.integers(1, 5))
        e, g = mk(n, int(rng.integers(0, 5))), mk(n, int(rng.integers(0, 5)))
        v = rng.normal(size=n)
        f = float(np.float32(rng.normal()))
        d.case("comparison rows=%d" % n)
        c0 = placo.Expression.from_vector(v)
        cf = placo.Expression.from_double(f)
        ops = [("e>=g", e >= g, e, g, 1), ("e<=g", e <= g, e, g, -1), ("e==g", e == g, e, g, 0),
               ("e>=v", e >= v, e, c0, 1), ("e<=v", e <= v, e, c0, -1), ("e==v", e == v, e, c0, 0),
               ("v>=e", e.__le__(v), e, c0, -1), ("v<=e", e.__ge__(v), e, c0, 1),
               ("e>=f", e >= f, e, cf, 1), ("e<=f", e <= f, e, cf, -1), ("e==f", e == f, e, cf, 0),
               ("f>=e", f >= e, cf, e, 1), ("f<=e", f <= e, cf, e, -1)]
        for name, c, l, r, s in ops:
            for _k in range(2):
                x = rng.normal(size=8)
                diff = val(l, x) - val(r, x)
                if s < 0:
                    diff = -diff
                got = val(c.expression, x)
                ok = d.eq(np.abs(got), np.abs(diff), name + ": |expression|", x=x)
                if s != 0:
                    d.eq(got, diff, name + ": expression >= 0", x=x)
                elif ok and got.size:
                    d.true(np.allclose(got, diff) or np.allclose(got, -diff), name + ": expression == 0")
            d.true(c.priority == "hard" and c.weight == 1.0 and not c.is_active, name + ": defaults", priority=c.priority,
                   weight=c.weight)
            w = float(rng.uniform(.1, 9))
            p = ["hard", "soft"][int(rng.integers(2))]
            before = val(c.expression, x)
            c.configure(p, w)
            d.true(c.priority == p and c.weight == w, "configure", got=[c.priority, c.weight], want=[p, w])
            d.eq(val(c.expression, x), before, "configure leaves the expression")
        d.throws(lambda: e >= mk(n + 1, 2), "comparison of different sizes") if n > 1 else None


@d.test
def meaning():
    """the type of the constraint: one-sided or two-sided"""
    for _ in range(d.n(60)):
        t, k = float(np.float32(rng.normal())), float(rng.normal())
        for op in range(9):
            d.case("meaning op=%d target=%g bound=%g" % (op, t, k))
            p = placo.Problem()
            x = p.add_variable(1)
            e = x.expr()
            c = placo.Expression.from_double(k)
            v = np.array([k])
            cons = [lambda: e >= k, lambda: e <= k, lambda: e == k, lambda: e >= c, lambda: e <= c, lambda: e == c,
                    lambda: k >= e, lambda: k <= e, lambda: e == v][op]()
            p.add_constraint(cons)
            p.add_constraint(e == t).configure("soft", 1.)
            p.solve()
            lo = op in (0, 3, 7)
            hi = op in (1, 4, 6)
            want = max(t, k) if lo else min(t, k) if hi else k
            d.eq(np.asarray(x.value).reshape(-1), [want], "solution", 1e-5)


@d.test
def overloads():
    d.cpp("c02")


d.run()
