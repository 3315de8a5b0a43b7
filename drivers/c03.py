"""Variables own disjoint consecutive slices of the decision vector, and expr() selects them."""
import numpy as np, placo
from common import Driver

d = Driver("random sequences of variables (sizes 1-6): offsets, expr(start, rows) selectors, values after a solve that pins every component")
rng = d.rng


@d.test
def slices():
    for _ in range(d.n(120)):
        p = placo.Problem()
        sizes = [int(rng.integers(1, 7)) for _ in range(int(rng.integers(1, 6)))]
        d.case("sizes %s" % sizes)
        vs, k = [], 0
        for s in sizes:
            v = p.add_variable(s)
            d.true(v.k_start == k and v.k_end == k + s, "slice", got=[v.k_start, v.k_end], want=[k, k + s])
            k += s
            vs.append((v, s, k - s))
            d.true(p.n_variables == k, "n_variables", got=p.n_variables, want=k)
        for v, s, k0 in vs:
            d.true(v.k_start == k0 and v.k_end == k0 + s, "slice kept", got=[v.k_start, v.k_end], want=[k0, k0 + s])
            for st in range(-1, s):
                for r in [-1] + list(range(0, s - max(st, 0) + 1)):
                    e = v.expr(st, r)
                    a = max(st, 0)
                    n = s - a if r == -1 else r
                    A = np.zeros((n, k0 + s))
                    for i in range(n):
                        A[i, k0 + a + i] = 1
                    d.eq(np.asarray(e.A).reshape(n, -1) if n else np.zeros((0, k0 + s)), A, "expr A", start=st, rows=r, k_start=k0)
                    d.eq(np.asarray(e.b).reshape(-1), np.zeros(n), "expr b")
            d.eq(np.asarray(v.expr().A).reshape(s, -1), np.eye(k0 + s)[k0:], "expr()")
        xs = rng.normal(size=k)
        for v, s, k0 in vs:
            p.add_constraint(v.expr() == xs[k0:k0 + s])
        p.solve()
        for v, s, k0 in vs:
            d.eq(np.asarray(v.value).reshape(-1), xs[k0:k0 + s], "value", 1e-6)
        d.eq(np.asarray(p.x).reshape(-1)[:k], xs, "x", 1e-6)
        p.clear_constraints()
        p.clear_variables()
        d.true(p.n_variables == 0, "cleared")
        v = p.add_variable(2)
        d.true(v.k_start == 0 and v.k_end == 2, "after clear", got=[v.k_start, v.k_end])


d.run()
