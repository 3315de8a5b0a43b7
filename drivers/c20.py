"""LIPM expressions and trajectories against the closed form of piecewise-constant jerk."""
import numpy as np, placo
from common import Driver

d = Driver("1-3 chained LIPMs of 1-12 steps at random jerks: expressions at every step at random decision vectors, trajectories at random times "
           "after solving, zmp/dcm/dzmp relations and derivatives, continuity across chained LIPMs")
rng = d.rng


def prop(s, j, t):
    p, v, a = s
    return np.array([p + v * t + a * t * t / 2 + j * t ** 3 / 6, v + a * t + j * t * t / 2, a + j * t])


def state(s0, js, dt, t):
    s = np.array(s0, float)
    k = min(max(int(np.floor(t / dt + 1e-9)), 0), len(js) - 1)
    for i in range(k):
        s = prop(s, js[i], dt)
    s = prop(s, js[k], max(0., min(dt, t - k * dt)))
    return np.array([s[0], s[1], s[2], js[k]])


QS = {"dcm": lambda s, w: s[0] + s[1] / w, "zmp": lambda s, w: s[0] - s[2] / w, "dzmp": lambda s, w: s[1] - s[3] / w}


@d.test
def lipms():
    for it in range(d.n(60)):
        p = placo.Problem()
        if rng.random() < .5:
            p.add_variable(int(rng.integers(1, 4)))
        n, dt = int(rng.integers(1, 13)), float(np.float32(rng.choice([.05, .1, .3])))
        t0 = float(np.float32(rng.choice([0., 1.25, -3.])))
        pos, vel, acc = (rng.normal(size=2) for _ in range(3))
        L = [placo.LIPM(p, dt, n, t0, pos, vel, acc)]
        T0, NS, DT = [t0], [n], [dt]
        for _ in range(int(rng.integers(0, 3))):
            n, dt = int(rng.integers(1, 9)), float(np.float32(rng.choice([.05, .1, .3])))
            t0 = T0[-1] + NS[-1] * DT[-1]
            if rng.random() < .3:
                t0 += 1.
            L.append(placo.LIPM.build_LIPM_from_previous(p, dt, n, t0, L[-1]))
            T0.append(t0); NS.append(n); DT.append(dt)
        d.case("chain of %s steps dt %s t0 %s" % (NS, DT, T0))
        data = dict(pos=pos, vel=vel, acc=acc, steps=NS, dt=DT, t0=T0)
        N = p.n_variables
        w = float(np.float32(rng.uniform(.5, 6)))
        h = float(rng.uniform(.1, 2))
        d.eq(placo.LIPM.compute_omega(h), np.sqrt(9.80665 / h), "compute_omega", h=h)

        def idx(l):
            """decision variables of the jerks"""
            A = [np.pad(m, ((0, 0), (0, N - m.shape[1]))) for m in (np.atleast_2d(l.jerk(k).A) for k in range(l.timesteps))]
            for m in A:
                d.true(np.all(np.isin(m, (0, 1))) and np.all(m.sum(axis=1) == 1), "a jerk is a decision variable", A=m, **data)
            return [[int(np.argmax(m[c])) for m in A] for c in range(2)]

        def inputs(l, x):
            return [np.array(x)[idx(l)[c]] for c in range(2)]

        def initial(k, x):
            s = [np.array([pos[c], vel[c], acc[c]]) for c in range(2)]
            for i in range(k):
                js = inputs(L[i], x)
                s = [state(s[c], js[c], DT[i], NS[i] * DT[i])[:3] for c in range(2)]
            return s

        seen = set()
        for l in L:
            for v in idx(l):
                r = set(v)
                d.true(len(r) == l.timesteps and not (r & seen), "own decision variables", **data)
                seen |= r
        x = rng.normal(size=N)
        for k, l in enumerate(L):
            d.eq([l.dt, l.timesteps, l.t_start], [DT[k], NS[k], T0[k]], "parameters", **data)
            d.eq(l.t_end, T0[k] + NS[k] * DT[k], "t_end", **data)
            s0, js = initial(k, x), inputs(l, x)
            for step in list(range(NS[k] + 1)) + [-1]:
                q = NS[k] if step == -1 else step
                s = [state(s0[c], js[c], DT[k], q * DT[k]) for c in range(2)]
                for i, f in enumerate(("pos", "vel", "acc", "jerk")):
                    d.eq(getattr(l, f)(step).value(x), [s[0][i], s[1][i]], f + " expression", 1e-7, step=step, x=x, **data)
                for f in QS:
                    d.eq(getattr(l, f)(step, w).value(x), [QS[f](s[0], w), QS[f](s[1], w)], f + " expression", 1e-6, step=step, w=w, x=x, **data)
            for bad in (NS[k] + 1, -2):
                d.throws(lambda: l.pos(bad), "step %d of %d" % (bad, NS[k]), **data)
        d.throws(lambda: L[0].get_trajectory(), "trajectory before solving", **data)
        for rep in range(2):
            # solve for chosen inputs
            tgt = rng.normal(size=N)
            p.clear_constraints()
            for l in L:
                ix = idx(l)
                for q in range(l.timesteps):
                    p.add_constraint(l.jerk(q) == np.array([tgt[ix[0][q]], tgt[ix[1][q]]]))
            p.solve()
            x = np.atleast_1d(p.x)[:N]
            for k, l in enumerate(L):
                tr = l.get_trajectory()
                s0, js = initial(k, x), inputs(l, x)
                end = NS[k] * DT[k]
                for u in [0., 1e-9, DT[k] / 2, end - DT[k] / 3, end] + list(rng.uniform(0, end, size=4)):
                    t = T0[k] + float(u)
                    if abs(u / DT[k] - round(u / DT[k])) < 1e-6 and u > 1e-6 and u != end:
                        continue
                    s = [state(s0[c], js[c], DT[k], u) for c in range(2)]
                    for i, f in enumerate(("pos", "vel", "acc", "jerk")):
                        d.eq(getattr(tr, f)(t), [s[0][i], s[1][i]], f + " of the trajectory", 1e-5, t=t, solve=rep, **data)
                    for f in QS:
                        d.eq(getattr(tr, f)(t, w), [QS[f](s[0], w), QS[f](s[1], w)], f + " of the trajectory", 1e-4, t=t, w=w, solve=rep, **data)
                for step in range(NS[k] + 1):
                    t = T0[k] + step * DT[k]
                    for f in ("pos", "vel", "acc"):
                        d.eq(getattr(tr, f)(t), getattr(l, f)(step).value(x), f + ": expression and trajectory agree", 1e-5, t=t, step=step, **data)
                    for f in ("dcm", "zmp"):
                        d.eq(getattr(tr, f)(t, w), getattr(l, f)(step, w).value(x), f + ": expression and trajectory agree", 1e-4, t=t, step=step, w=w, **data)
                if k:
                    pt = L[k - 1].get_trajectory()
                    te = T0[k - 1] + NS[k - 1] * DT[k - 1]
                    for f in ("pos", "vel", "acc"):
                        d.eq(getattr(tr, f)(T0[k]), getattr(pt, f)(te), f + " continuous from the previous", 1e-5, **data)
                e = 1e-5
                t = T0[k] + (int(rng.integers(0, NS[k])) + .5) * DT[k]
                for f, g, a in (("pos", "vel", ()), ("vel", "acc", ()), ("acc", "jerk", ()), ("zmp", "dzmp", (w,))):
                    fd = (np.array(getattr(tr, f)(t + e, *a)) - np.array(getattr(tr, f)(t - e, *a))) / (2 * e)
                    d.eq(fd, getattr(tr, g)(t, *a), "%s is the derivative of %s" % (g, f), 1e-3, t=t, w=w, **data)


d.run()
