"""Integrator expressions and trajectories against an independent simulation of the continuous dynamics."""
import numpy as np, placo
from scipy.linalg import expm
from common import Driver

d = Driver("integrators of order 1-4 and random linear systems, 1-12 steps, constant and decision-dependent initial states, variables at an offset, "
           "every step and derivative, random times inside, between and outside of the steps, start times; solved problems")
rng = d.rng


def sim(M, order, x0, us, dt, t):
    """state after time t with the inputs held over each step (exact propagation), and the input in force"""
    N = len(us)
    x = np.array(x0, float)
    k = 0
    while k < N and t >= (k + 1) * dt - 1e-12 and k + 1 <= N - 1:
        E = expm(M * dt)
        x = E[:order, :order] @ x + E[:order, order] * us[k]
        k += 1
    E = expm(M * (t - k * dt))
    return E[:order, :order] @ x + E[:order, order] * us[k], us[k]


def setup():
    order = int(rng.integers(1, 5))
    N = int(rng.integers(1, 13))
    dt = float(np.float32(rng.choice([.05, .1, .25, 1.])))
    p = placo.Problem()
    pre = p.add_variable(int(rng.integers(1, 4))) if rng.random() < .6 else None
    x0v = p.add_variable(order) if rng.random() < .4 else None
    u = p.add_variable(N)
    post = p.add_variable(2) if rng.random() < .5 else None
    x0 = rng.normal(size=order)
    custom = x0v is None and rng.random() < .5
    if custom:
        M = np.zeros((order + 1, order + 1))
        M[:order, :] = rng.normal(size=(order, order + 1)) * .6
        I = placo.Integrator(u, x0, np.asfortranarray(M), dt)
    else:
        M = np.eye(order + 1, k=1)
        I = placo.Integrator(u, x0v.expr() if x0v else placo.Expression.from_vector(x0), order, dt)
    return p, I, u, x0v, x0, M, order, N, dt, pre, post


@d.test
def expressions():
    for _ in range(d.n(60)):
        p, I, u, x0v, x0, M, order, N, dt, pre, post = setup()
        n = p.n_variables
        x = rng.normal(size=n)
        us = x[u.k_start:u.k_end]
        s0 = x[x0v.k_start:x0v.k_end] if x0v else x0
        d.case("expressions order=%d N=%d dt=%g" % (order, N, dt))
        data = dict(order=order, N=N, dt=dt, M=M, x0=s0, u=us)
        d.eq(I.M, M, "system matrix", **data)
        E = expm(M * dt)
        d.eq(I.A, E[:order, :order], "A", 1e-9, **data)
        d.eq(np.asarray(I.B).reshape(-1), E[:order, order], "B", 1e-9, **data)
        for step in list(range(0, N + 1)) + [-1]:
            k = N if step == -1 else step
            st = np.array(s0, float)
            for i in range(k):
                st = E[:order, :order] @ st + E[:order, order] * us[i]
            d.eq(np.atleast_1d(I.expr(step).value(x)), st, "state at a step", 1e-8, step=step, **data)
            d.eq(np.atleast_1d(I.expr(step, -1).value(x)), st, "state at a step", 1e-8, step=step, **data)
            for diff in range(order):
                d.eq(np.atleast_1d(I.expr(step, diff).value(x)), [st[diff]], "derivative at a step", 1e-8, step=step, diff=diff, **data)
            d.eq(np.atleast_1d(I.expr(step, order).value(x)), [us[min(k, N - 1)]], "input at a step", 1e-8, step=step, **data)
        ts = [0., dt / 2, (N - 1) * dt + dt / 3, N * dt] + list(rng.uniform(0, N * dt, size=6))
        t0 = float(np.float32(rng.choice([0., 1.5, -2.]))) 
        I.t_start = t0
        for t in ts:
            st, uu = sim(M, order, s0, us, dt, t)
            if abs(t / dt - round(t / dt)) < 1e-6 and 0 < t < N * dt:
                continue
            d.eq(np.atleast_1d(I.expr_t(t0 + t).value(x)), st, "state at a time", 1e-6, t=t, **data)
            for diff in range(order):
                d.eq(np.atleast_1d(I.expr_t(t0 + t, diff).value(x)), [st[diff]], "derivative at a time", 1e-6, t=t, diff=diff, **data)
            d.eq(np.atleast_1d(I.expr_t(t0 + t, order).value(x)), [uu], "input at a time", 1e-6, t=t, **data)
        for bad in (N + 1, N + 3, -2, -5):
            d.throws(lambda: I.expr(bad), "step %d of %d" % (bad, N), **data)
            d.throws(lambda: I.expr(bad, 0), "step %d of %d" % (bad, N), **data)
            d.throws(lambda: I.expr(bad, order), "step %d of %d" % (bad, N), **data)
        for bad in (order + 1, order + 2, -2):
            d.throws(lambda: I.expr(0, bad), "derivative %d of order %d" % (bad, order), **data)
            d.throws(lambda: I.expr_t(t0, bad), "derivative %d of order %d" % (bad, order), **data)
        d.throws(lambda: I.value(t0, 0), "value before any solve", **data)
        d.throws(lambda: I.get_trajectory(), "trajectory before any solve", **data)
    for o in range(1, 6):
        d.eq(placo.Integrator.upper_shift_matrix(o), np.eye(o + 1, k=1), "upper_shift_matrix")
        p = placo.Problem()
        u = p.add_variable(3)
        d.case("initial state of the wrong size")
        d.throws(lambda: placo.Integrator(u, placo.Expression.from_vector(np.zeros(o + 1)), o, .1), "initial state of the wrong size")


@d.test
def trajectories():
    for _ in range(d.n(60)):
        p, I, u, x0v, x0, M, order, N, dt, pre, post = setup()
        t0 = float(np.float32(rng.choice([0., 1.5, -2.])))
        I.t_start = t0
        d.case("trajectory order=%d N=%d dt=%g" % (order, N, dt))
        for rnd in range(2):
            p.clear_constraints()
            tgt = rng.normal(size=p.n_variables)
            k = 0
            for v in (pre, x0v, u, post):
                if v is not None:
                    p.add_constraint(v.expr() == tgt[v.k_start:v.k_end])
            p.solve()
            x = np.atleast_1d(p.x)[:p.n_variables]
            us = np.atleast_1d(u.value)
            s0 = x[x0v.k_start:x0v.k_end] if x0v else x0
            data = dict(order=order, N=N, dt=dt, M=M, x0=s0, u=us, solve=rnd)
            T = I.get_trajectory()
            d.eq(T.duration(), N * dt, "duration", 1e-7, **data)
            for t in [1e-9, dt / 2, (N - 1) * dt + dt / 3, N * dt] + list(rng.uniform(0, N * dt, size=6)):
                if abs(t / dt - round(t / dt)) < 1e-6 and 1e-8 < t < N * dt:
                    continue
                st, uu = sim(M, order, s0, us, dt, t)
                for diff in range(order):
                    d.eq(T.value(t0 + t, diff), st[diff], "trajectory value", 1e-6, t=t, diff=diff, **data)
                    d.eq(I.value(t0 + t, diff), st[diff], "integrator value", 1e-6, t=t, diff=diff, **data)
                    d.eq(np.atleast_1d(I.expr_t(t0 + t, diff).value(x)), [T.value(t0 + t, diff)], "expression and trajectory agree", 1e-6, t=t, **data)
                d.eq(T.value(t0 + t, order), uu, "input", 1e-6, t=t, **data)
            end, _ = sim(M, order, s0, us, dt, N * dt)
            for out in (.1, 1., 50.):
                d.eq(T.value(t0 - out, order), us[0], "input before the start", 1e-6, **data)
                d.eq(T.value(t0 + N * dt + out, order), us[-1], "input after the end", 1e-6, **data)
                for diff in range(order):
                    d.eq(T.value(t0 - out, diff), s0[diff], "state before the start", 1e-6, diff=diff, **data)
                    d.eq(T.value(t0 + N * dt + out, diff), end[diff], "state after the end", 1e-6, diff=diff, **data)
            for bad in (-1, order + 1):
                d.throws(lambda: T.value(t0, bad), "derivative out of range", **data)


d.run()
