"""The optimum found by Problem::solve is the optimum of the problem the user stated (KKT conditions, independent of the solver)."""
import numpy as np, placo
from scipy.optimize import nnls
from common import Driver

d = Driver("random QPs (1-10 variables, 0-6 constraints of every type and priority, trailing columns missing, zero columns), the four "
           "settings of use_sparsity/rewrite_equalities; KKT conditions of the stated problem, slices, active sets, malformed and infeasible problems")
rng = d.rng.g   # plain draws: degenerate numbers only exercise the limits of the external QP solver


def expr(A, b):
    e = placo.Expression()
    e.A = np.asfortranarray(A)
    e.b = b
    return e


def gen(n, feas):
    """random constraints feasible at x0: list of (kind, prio, w, A, b)"""
    x0 = rng.normal(size=n)
    cs = []
    neq = 0
    for _ in range(int(rng.integers(0, 7))):
        kind = rng.choice(["eq", "ge", "le", "limit"])
        prio = rng.choice(["hard", "soft"])
        cols = int(rng.integers(1, n + 1))
        rows = int(rng.integers(1, 4))
        A = rng.normal(size=(rows, cols))
        for j in range(cols):
            if rng.random() < .3:
                A[:, j] = 0
        b = rng.normal(size=rows)
        w = float(np.float32(rng.choice([0.1, 1., 3., 20.])))
        if prio == "hard":
            if kind == "eq":
                if neq + rows > n - 1 or not np.all(np.abs(A).sum(1) > .1) or np.linalg.matrix_rank(A) < rows:
                    continue
                neq += rows
                b = -A @ x0[:cols]
            elif kind == "ge":
                b = -A @ x0[:cols] + np.abs(rng.normal(size=rows)) * (rng.random(rows) < .7)
            elif kind == "le":
                b = -A @ x0[:cols] - np.abs(rng.normal(size=rows)) * (rng.random(rows) < .7)
        if kind == "limit":
            if prio == "hard":
                b = -A @ x0[:cols] + rng.normal(size=rows) * .1
            t = np.abs(rng.normal(size=rows)) + .4
            cs.append((kind, prio, w, A, b, t))
        else:
            cs.append((kind, prio, w, A, b, None))
    # equalities must have full rank together
    E = [np.pad(c[3], ((0, 0), (0, n - c[3].shape[1]))) for c in cs if c[0] == "eq" and c[1] == "hard"]
    if E:
        s = np.linalg.svd(np.vstack(E), compute_uv=False)
        if np.vstack(E).shape[0] > n or s[-1] < .2:
            return gen(n, feas)
    return cs


def build(n, cs, reg, sp, rw, sizes):
    p = placo.Problem()
    p.regularization = reg
    p.use_sparsity = sp
    p.rewrite_equalities = rw
    vs = [p.add_variable(s) for s in sizes]
    hs = []
    for kind, prio, w, A, b, t in cs:
        e = expr(A, b)
        if kind == "eq":
            c = p.add_constraint(e == 0.)
        elif kind == "ge":
            c = p.add_constraint(e >= 0.)
        elif kind == "le":
            c = p.add_constraint(e <= 0.)
        else:
            c = p.add_limit(e, t)
        c.configure(prio, w)
        hs.append(c)
    return p, vs, hs


def rows_of(n, c):
    """(A, b) with A x + b >= 0 (inequalities) or == 0"""
    kind, prio, w, A, b, t = c
    A = np.pad(A, ((0, 0), (0, n - A.shape[1])))
    if kind == "le":
        return -A, -b
    if kind == "limit":
        return np.vstack([-A, A]), np.concatenate([t - b, t + b])
    return A, b


def kkt(n, cs, reg, x, what, data):
    g = reg * x
    ineqs, eqs = [], []
    for c in cs:
        A, b = rows_of(n, c)
        r = A @ x + b
        if c[0] == "eq":
            if c[1] == "hard":
                d.true(np.all(np.abs(r) < 1e-5), what + ": hard equality enforced", r=r, **data)
                eqs.append(A)
            else:
                g = g + c[2] * A.T @ r
        elif c[1] == "hard":
            d.true(np.all(r > -1e-6), what + ": hard inequality enforced", r=r, **data)
            ineqs.append(A[r < 1e-5])
        else:
            g = g + c[2] * A.T @ np.minimum(r, 0)
    cols = [np.zeros((n, 0))]
    for A in eqs:
        cols += [A.T, -A.T]
    for A in ineqs:
        cols.append(A.T)
    M = np.hstack(cols)
    if M.shape[1]:
        lam, res = nnls(M, g, maxiter=200 * (1 + M.shape[1]))
    else:
        res = np.linalg.norm(g)
    scale = 1 + sum(c[2] * (np.abs(c[3]).max() ** 2) for c in cs if c[1] == "soft")
    d.true(res < 1e-5 * scale, what + ": stationarity of the stated cost", residual=res, gradient=g, **data)


def plain(cs):
    return [[c[0], c[1], c[2], c[3].tolist(), c[4].tolist(), None if c[5] is None else c[5].tolist()] for c in cs]


@d.test
def optimum():
    for it in range(d.n(150)):
        sizes = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
        n = sum(sizes)
        cs = gen(n, True)
        reg = float(rng.choice([1e-3, .1, 1.]))
        sols = []
        for sp in (False, True):
            for rw in (False, True):
                d.case("qp n=%d constraints=%d sparsity=%s rewrite=%s" % (n, len(cs), sp, rw))
                data = dict(constraints=plain(cs), reg=reg, sizes=sizes, sp=sp, rw=rw)
                p, vs, hs = build(n, cs, reg, sp, rw, sizes)
                p.solve()
                x = np.atleast_1d(p.x)[:n]
                kkt(n, cs, reg, x, "solve", data)
                sols.append(x)
                k = 0
                for v, s in zip(vs, sizes):
                    d.eq(np.atleast_1d(v.value), x[k:k + s], "slice of the solution", **data)
                    k += s
                # active: equalities always; a hard inequality only when one of its rows is tight
                for c, h in zip(cs, hs):
                    A, b = rows_of(n, c)
                    r = A @ x + b
                    if c[0] == "eq":
                        d.true(h.is_active, "equalities are active", **data)
                    elif c[1] == "hard":
                        if h.is_active:
                            d.true(r.min() < 1e-5, "an active hard inequality has a tight row", r=r, **data)
                    elif r.max() < -1e-3:
                        d.true(h.is_active, "a violated soft inequality is active", r=r, **data)
                    elif r.min() > 1e-3:
                        d.true(not h.is_active, "a strictly satisfied soft inequality is inactive", r=r, **data)
                # solving again changes nothing
                if it % 5 == 0:
                    p.solve()
                    d.eq(np.atleast_1d(p.x)[:n], x, "second solve", 1e-6, **data)
        for s in sols[1:]:
            d.eq(s, sols[0], "the options do not change the optimum", 1e-4, constraints=plain(cs), reg=reg, sizes=sizes)


@d.test
def active_sets():
    """one-dimensional boxes whose tight side is known"""
    for _ in range(d.n(40)):
        n = int(rng.integers(1, 5))
        lo, hi = -np.abs(rng.normal(size=n)) - .2, np.abs(rng.normal(size=n)) + .2
        tgt = rng.choice([-4., 0., 4.], size=n)
        rw = bool(rng.random() < .5)
        p = placo.Problem()
        p.rewrite_equalities = rw
        v = p.add_variable(n)
        extra = p.add_variable(1)
        pin = p.add_constraint(extra.expr() == 1.)
        cl, ch = [], []
        order = rng.permutation(n)
        for k in order:
            cl.append((k, p.add_constraint(v.expr(int(k), 1) >= float(lo[k]))))
        soft = p.add_constraint(v.expr() == tgt)
        soft.configure("soft", 2.)
        for k in order:
            ch.append((k, p.add_constraint(v.expr(int(k), 1) <= float(hi[k]))))
        d.case("box %s target %s" % (n, tgt.tolist()))
        p.solve()
        lo32, hi32 = np.float32(lo).astype(float), np.float32(hi).astype(float)
        want = np.clip(tgt, lo32, hi32)
        d.eq(np.atleast_1d(v.value), want, "box optimum", 1e-5)
        for k, c in cl:
            d.true(c.is_active == bool(tgt[k] < lo32[k]), "lower bound active exactly when tight", k=int(k), tgt=tgt, lo=lo)
        for k, c in ch:
            d.true(c.is_active == bool(tgt[k] > hi32[k]), "upper bound active exactly when tight", k=int(k), tgt=tgt, hi=hi)
        # moving the target inside releases the bounds
        soft.configure("soft", 0.)
        s2 = p.add_constraint(v.expr() == np.zeros(n))
        s2.configure("soft", 1.)
        p.solve()
        d.true(not any(c.is_active for _, c in cl + ch), "bounds released at the next solve")


@d.test
def rejected():
    for _ in range(d.n(60)):
        n = int(rng.integers(1, 5))
        kind = rng.choice(["cols", "empty", "rows", "infeasible", "inf_eq"])
        typ, prio = rng.choice(["eq", "ge"]), rng.choice(["hard", "soft"])
        p = placo.Problem()
        p.rewrite_equalities = bool(rng.random() < .5)
        p.use_sparsity = bool(rng.random() < .5)
        x = p.add_variable(n)
        p.add_constraint(x.expr(0, 1) >= -1.)
        d.case("rejected %s %s %s n=%d" % (kind, typ, prio, n))
        if kind == "infeasible":
            p.add_constraint(x.expr(0, 1) <= -2.)
            d.throws(p.solve, "infeasible inequalities")
            continue
        if kind == "inf_eq":
            p.rewrite_equalities = False
            p.add_constraint(x.expr(0, 1) == 1.)
            p.add_constraint(x.expr(0, 1) <= .5)
            d.throws(p.solve, "equality against inequality")
            continue
        if kind == "cols":
            e = expr(rng.normal(size=(2, n + int(rng.integers(1, 4)))), rng.normal(size=2))
        elif kind == "empty":
            e = expr(np.zeros((0, n)), np.zeros(0))
        else:
            e = expr(rng.normal(size=(3, n)), rng.normal(size=2))
        if kind == "rows":
            # only reachable by building the constraint from an inconsistent expression
            try:
                c = p.add_constraint(e == 0.) if typ == "eq" else p.add_constraint(e >= 0.)
            except Exception:
                continue
        else:
            c = p.add_constraint(e == 0.) if typ == "eq" else p.add_constraint(e >= 0.)
        c.configure(prio, 1.)
        d.throws(p.solve, "malformed constraint (%s)" % kind, kind=kind, typ=typ, prio=prio)


@d.test
def clearing():
    for _ in range(d.n(20)):
        n = int(rng.integers(1, 5))
        p = placo.Problem()
        x = p.add_variable(n)
        d.case("clear_constraints n=%d" % n)
        p.add_constraint(x.expr() == np.full(n, 2.))
        p.solve()
        p.clear_constraints()
        p.add_constraint(x.expr() == np.full(n, 5.)).configure("soft", 1.)
        p.solve()
        d.eq(np.atleast_1d(x.value), np.full(n, 5.), "only the constraints added after clearing count", 1e-5)


d.run()
