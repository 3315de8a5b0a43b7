"""Polynomials and their derivatives against numpy."""
import numpy as np, placo
from common import Driver

d = Driver("polynomials of degree 0-18, derivatives 0-degree+3, random points; ProblemPolynom expressions at random decision vectors")
rng = d.rng


@d.test
def values():
    for _ in range(d.n(150)):
        n = int(rng.integers(1, 20))
        c = rng.normal(size=n)
        p = placo.Polynom(c)
        d.case("degree %d" % (n - 1))
        for k in range(n + 3):
            x = float(rng.normal())
            q = np.polyder(c, k) if k < n else np.zeros(1)
            d.eq(p.value(x, k), np.polyval(q, x), "value", 1e-7, c=c, x=x, derivative=k)
            if k == 0:
                d.eq(p.value(0., k), c[-1], "value at 0", c=c)
        for deg in range(n):
            for k in range(n + 1):
                w = 1.
                for i in range(k):
                    w *= deg - i
                d.eq(placo.Polynom.derivative_coefficient(deg, k), w if k <= deg else 0., "derivative_coefficient", degree=deg, k=k)


@d.test
def problem_polynom():
    for _ in range(d.n(100)):
        n = int(rng.integers(1, 9))
        pr = placo.Problem()
        if rng.random() < .5:
            pr.add_variable(3)
        v = pr.add_variable(n)
        pp = placo.ProblemPolynom(v)
        xs = rng.normal(size=pr.n_variables)
        c = xs[v.k_start:v.k_end]
        d.case("problem polynom of %d coefficients" % n)
        for k in range(n + 2):
            x = float(np.float32(rng.normal()))
            q = np.polyder(c, k) if k < n else np.zeros(1)
            d.eq(np.atleast_1d(pp.expr(x, k).value(xs)), [np.polyval(q, x)], "expression", 1e-8, c=c, x=x, derivative=k)
            if k == 0:
                d.eq(np.atleast_1d(pp.expr(x).value(xs)), [np.polyval(q, x)], "expression", 1e-8, c=c, x=x)
        pr.add_constraint(v.expr() == c)
        pr.solve()
        P = pp.get_polynom()
        for k in range(n):
            x = float(rng.normal())
            d.eq(P.value(x, k), np.polyval(np.polyder(c, k), x), "solved polynom", 1e-5, c=c, x=x, derivative=k)


d.run()
