"""A problem stated independently (through placo's own problem formulation, whose solver is decided by C01-C04) to compare solutions with."""
import numpy as np, placo


def expr(A, b):
    e = placo.Expression()
    e.A = np.asfortranarray(np.array(A, float, ndmin=2))
    e.b = np.array(b, float).reshape(-1)
    return e


class QP:
    def __init__(self, n):
        self.n, self.cs, self.scaled = n, [], []
        self.hard_rows = []

    def add(self, kind, A, b, prio="hard", w=1.):
        """A x + b kind 0"""
        A = np.array(A, float, ndmin=2)
        if A.shape[1] != self.n:
            raise ValueError("columns")
        if prio == "scaled":
            self.scaled.append((A, np.array(b, float).reshape(-1)))
            return
        if prio == "hard" and kind == "eq":
            self.hard_rows.append(A)
        self.cs.append((kind, A, np.array(b, float).reshape(-1), prio, float(np.float32(w))))

    def conditioned(self, tol=.03):
        """hard equalities are independent"""
        rows = list(self.hard_rows) + [A for A, b in self.scaled]
        if not rows:
            return True
        E = np.vstack(rows)
        return E.shape[0] <= self.n and np.linalg.svd(E, compute_uv=False)[-1] > tol

    def solve(self):
        p = placo.Problem()
        v = p.add_variable(self.n)
        s = p.add_variable(1) if self.scaled else None
        for kind, A, b, prio, w in self.cs:
            e = expr(A, b)
            c = p.add_constraint(e == 0. if kind == "eq" else (e >= 0. if kind == "ge" else e <= 0.))
            c.configure(prio, w)
        if s is not None:
            z = np.zeros((1, self.n + 1))
            z[0, -1] = 1
            p.add_constraint(expr(z, [0.]) >= 0.).configure("hard", 1.)
            p.add_constraint(expr(z, [-1.]) <= 0.).configure("hard", 1.)
            p.add_constraint(expr(z, [-1.]) == 0.).configure("soft", 1.)
            for A, b in self.scaled:
                # A x = s * error  (b is minus the error)
                p.add_constraint(expr(np.hstack([A, b.reshape(-1, 1)]), np.zeros(len(b))) == 0.).configure("hard", 1.)
        p.solve()
        self.scale = float(s.value[0]) if s is not None else None
        return np.array(v.value)
