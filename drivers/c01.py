"""Expressions evaluate as the algebra says, on random sizes and operands."""
import numpy as np, placo
from common import Driver

d = Driver("random expressions (0-5 rows, 0-6 columns, scalar/constant/general), every operator, evaluated at random points "
           "and compared with the same operation on the values; exception exactly on incompatible shapes")
rng = d.rng


def mk(rows, cols):
    e = placo.Expression()
    A = rng.normal(size=(rows, cols))
    b = rng.normal(size=rows)
    e.A = A.reshape(rows, cols)
    e.b = b
    return e, A, b


def rnd(mn=0):
    k = rng.integers(6)
    if k == 0:
        return mk(1, 0)
    if k == 1:
        return mk(1, int(rng.integers(0, 6)))
    if k == 2:
        return mk(int(rng.integers(mn, 6)), 0)
    return mk(int(rng.integers(mn, 6)), int(rng.integers(0, 7)))


def val(A, b, x):
    return A @ x[: A.shape[1]] + b


def chk(e, rows, cols, f, what, /, **data):
    """e has the given size and value f(x) for random x"""
    d.true(e.rows() == rows and e.cols() == cols and len(e) == rows and np.asarray(e.b).size == rows, what + ": size",
           **dict(data, rows=e.rows(), cols=e.cols(), want=[rows, cols]))
    for _ in range(2):
        x = rng.normal(size=9)
        w = np.asarray(f(x), float)
        d.eq(np.asarray(e.value(x)), w, what + ": value", x=x, **data)
        A = np.asarray(e.A).reshape(e.rows(), e.cols())
        d.eq(A @ x[: e.cols()] + np.asarray(e.b).reshape(-1), w, what + ": A x + b", x=x, **data)


@d.test
def observers():
    for _ in range(d.n(60)):
        e, A, b = rnd()
        d.case("observers %s" % (A.shape,))
        d.true(e.is_scalar() == (A.shape[0] == 1), "is_scalar", shape=A.shape)
        d.true(e.is_constant() == (A.shape[1] == 0), "is_constant", shape=A.shape)
        chk(e, A.shape[0], A.shape[1], lambda x: val(A, b, x), "expression")
        v = rng.normal(size=int(rng.integers(0, 5)))
        chk(placo.Expression.from_vector(v), v.size, 0, lambda x: v, "from_vector", v=v)
        f = float(np.float32(rng.normal()))
        chk(placo.Expression.from_double(f), 1, 0, lambda x: [f], "from_double", f=f)


@d.test
def slices():
    for _ in range(d.n(60)):
        e, A, b = rnd(1)
        n = A.shape[0]
        if n == 0:
            continue
        s = int(rng.integers(0, n + 1))
        r = int(rng.integers(-1, n - s + 1))
        d.case("slice rows=%d start=%d rows=%d" % (n, s, r))
        k = n - s if r < 0 else r
        chk(e.slice(s, r), k, A.shape[1], lambda x: val(A, b, x)[s:s + k], "slice")


@d.test
def binary():
    for _ in range(d.n(250)):
        e, A, b = rnd()
        g, C, c = rnd()
        if rng.random() < .6 and A.shape[0] != C.shape[0]:
            g, C, c = mk(A.shape[0], int(rng.integers(0, 7)))
        d.case("binary %s %s" % (A.shape, C.shape))
        sc1, sc2 = A.shape == (1, 0), C.shape == (1, 0)
        data = dict(A=A, b=b, C=C, c=c)
        cols = max(A.shape[1], C.shape[1])
        if sc1 or sc2 or A.shape[0] == C.shape[0]:
            rows = C.shape[0] if sc1 else A.shape[0]
            chk(e + g, rows, cols, lambda x: val(A, b, x) + val(C, c, x), "sum", **data)
            chk(e - g, rows, cols, lambda x: val(A, b, x) - val(C, c, x), "difference", **data)
        else:
            d.throws(lambda: e + g, "sum of different sizes", **data)
            d.throws(lambda: e - g, "difference of different sizes", **data)
        if (A.shape[0] == 1 and C.shape[1] == 0) or (C.shape[0] == 1 and A.shape[1] == 0):
            one = A.shape[0] == 1 and C.shape[1] == 0
            chk(e * g, C.shape[0] if one else A.shape[0], A.shape[1] if one else C.shape[1],
                lambda x: val(A, b, x) * val(C, c, x), "product", **data)
        else:
            d.throws(lambda: e * g, "product of two non-constant or non-scalar expressions", **data)
        chk(e / g, A.shape[0] + C.shape[0], cols, lambda x: np.concatenate([val(A, b, x), val(C, c, x)]), "stack", **data)
        # operands are not modified
        d.eq(np.asarray(e.A).reshape(A.shape), A, "left operand unchanged")
        d.eq(np.asarray(g.b).reshape(-1), c, "right operand unchanged")


@d.test
def unary_and_scalars():
    for _ in range(d.n(120)):
        e, A, b = rnd()
        f = float(np.float32(rng.normal()))
        n, m = A.shape
        v = rng.normal(size=n)
        d.case("scalar/vector operands %s" % (A.shape,))
        data = dict(A=A, b=b, f=f, v=v)
        V = lambda x: val(A, b, x)
        chk(-e, n, m, lambda x: -V(x), "negation", **data)
        chk(e * f, n, m, lambda x: f * V(x), "e * f", **data)
        chk(f * e, n, m, lambda x: f * V(x), "f * e", **data)
        chk(e + f, n, m, lambda x: V(x) + f, "e + f", **data)
        chk(f + e, n, m, lambda x: V(x) + f, "f + e", **data)
        chk(e - f, n, m, lambda x: V(x) - f, "e - f", **data)
        chk(f - e, n, m, lambda x: f - V(x), "f - e", **data)
        chk(e.piecewise_add(f), n, m, lambda x: V(x) + f, "piecewise_add", **data)
        if n >= 1:
            chk(e + v, n, m, lambda x: V(x) + v, "e + v", **data)
            chk(e - v, n, m, lambda x: V(x) - v, "e - v", **data)
            chk(e.__radd__(v), n, m, lambda x: V(x) + v, "v + e", **data)
            chk(e.__rsub__(v), n, m, lambda x: v - V(x), "v - e", **data)
            chk(e.sum(), 1, m, lambda x: [V(x).sum()], "sum()", **data)
            chk(e.mean(), 1, m, lambda x: [V(x).mean()], "mean()", **data)
            w = rng.normal(size=n + int(rng.choice([-1, 1, 3]))) if n > 1 else rng.normal(size=n + 2)
            d.throws(lambda: e + w, "e + v of another size", w=w, **data)
            d.throws(lambda: e - w, "e - v of another size", w=w, **data)
            d.throws(lambda: e.__radd__(w), "v + e of another size", w=w, **data)
            d.throws(lambda: e.__rsub__(w), "v - e of another size", w=w, **data)
            B = rng.normal(size=(2, n + 1))
            d.throws(lambda: e.left_multiply(B), "left_multiply with another size", M=B, **data)
            d.throws(lambda: e.__rmul__(B), "M * e with another size", M=B, **data)
            M = rng.normal(size=(int(rng.integers(1, 5)), n))
            if M.shape != (1, 1):
                chk(e.left_multiply(M), M.shape[0], m, lambda x: M @ V(x), "left_multiply", M=M, **data)
                chk(e.__rmul__(M), M.shape[0], m, lambda x: M @ V(x), "M * e", M=M, **data)


d.run()
