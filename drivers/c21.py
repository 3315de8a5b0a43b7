"""Swing-foot trajectories."""
import numpy as np, placo
from common import Driver

d = Driver("random start/end times, heights, rise ratios, elapsed ratios, feet and velocities: end positions and velocities, heights, "
           "velocity against finite differences, continuity of remade trajectories")
rng = d.rng


def fd(tr, t, h):
    return (np.asarray(tr.pos(t + h)) - np.asarray(tr.pos(t - h))) / (2 * h)


def times():
    t0 = float(rng.choice([0., rng.uniform(-3, 3), 50.]))
    return t0, t0 + float(rng.choice([.3, 1., rng.uniform(.1, 2)]))


@d.test
def cubic_polynomial():
    for it in range(d.n(150)):
        t0, t1 = times()
        D = t1 - t0
        h = float(rng.uniform(-.1, .3))
        a, b = rng.normal(size=3), rng.normal(size=3)
        d.case(("SwingFoot", t0, t1))
        data = dict(t0=t0, t1=t1, h=h, start=a, target=b)
        tr = placo.SwingFoot.make_trajectory(t0, t1, h, a, b)

        def ends(tr, b, z=True):
            d.eq(tr.pos(t1)[:2], b[:2], "ends at the target", 1e-6, **data)
            d.eq(tr.vel(t1)[:2], [0, 0], "ends at rest horizontally", 1e-5, **data)
        ends(tr, b)
        d.eq(tr.pos(t0), a, "starts at the start", 1e-7, **data)
        d.eq(tr.pos(t1)[2], b[2], "ends at the target height", 1e-6, **data)
        d.eq(tr.vel(t0)[:2], [0, 0], "starts at rest horizontally", 1e-6, **data)
        for q in (.25, .75):
            d.eq(tr.pos(t0 + q * D)[2], h, "height at %s" % q, 1e-6, **data)
        for t in rng.uniform(t0, t1, size=3):
            d.eq(tr.vel(t), fd(tr, t, D * 1e-4), "vel is the derivative of pos", 1e-4, t=t, **data)
        t = float(t0 + rng.choice([0., .5, rng.uniform(0, .9)]) * D)
        b2 = rng.normal(size=3)
        re = placo.SwingFoot.remake_trajectory(tr, t, b2)
        d.eq(re.pos(t), tr.pos(t), "remade: continues the position", 1e-5, t=t, **data)
        d.eq(re.vel(t), tr.vel(t), "remade: continues the velocity", 1e-4, t=t, **data)
        d.eq(re.pos(t1)[:2], b2[:2], "remade: ends at the new target", 1e-5, t=t, **data)
        d.eq(re.vel(t1)[:2], [0, 0], "remade: ends at rest horizontally", 1e-4, t=t, **data)
        d.eq(re.pos(t1)[2], b[2], "remade: keeps the height profile", 1e-5, t=t, **data)
        d.eq(re.vel(t + .05 * D), fd(re, t + .05 * D, D * 1e-4), "remade: vel is the derivative of pos", 1e-3, t=t, **data)


@d.test
def quintic():
    for it in range(d.n(120)):
        t0, t1 = times()
        D = t1 - t0
        h = float(rng.uniform(-.1, .3))
        a, b = rng.normal(size=3), rng.normal(size=3)
        d.case(("SwingFootQuintic", t0, t1))
        data = dict(t0=t0, t1=t1, h=h, start=a, target=b)
        tr = placo.SwingFootQuintic.make_trajectory(t0, t1, h, a, b)
        d.eq(tr.pos(t0), a, "starts at the start", 1e-6, **data)
        d.eq(tr.pos(t1), b, "ends at the target", 1e-5, **data)
        d.eq(tr.vel(t0), [0, 0, 0], "starts at rest", 1e-5, **data)
        d.eq(tr.vel(t1), [0, 0, 0], "ends at rest", 1e-4, **data)
        for q in (.25, .75):
            d.eq(tr.pos(t0 + q * D)[2], h, "height at %s" % q, 1e-5, **data)
        for t, w in ((t0, "start"), (t1, "end")):
            e = D * 1e-5
            d.eq((np.asarray(tr.vel(t + e)) - np.asarray(tr.vel(t - e)))[:2] / (2 * e), [0, 0], "no acceleration at the " + w, 1e-2 * (1 + np.abs(b - a).max()) / D ** 2, **data)
        for t in rng.uniform(t0, t1, size=3):
            d.eq(tr.vel(t), fd(tr, t, D * 1e-4), "vel is the derivative of pos", 1e-4, t=t, **data)


@d.test
def cubic_spline():
    for it in range(d.n(200)):
        t0, t1 = times()
        dur = t1 - t0
        h = float(rng.uniform(-.1, .3))
        a, b = rng.normal(size=3), rng.normal(size=3)
        rise = float(rng.choice([-.2, 0., .2, rng.uniform(0, .9)]))
        el = float(rng.choice([0., .2, rng.uniform(0, .9)]))
        v = np.zeros(3) if rng.random() < .4 else rng.normal(size=3)
        d.case(("SwingFootCubic", t0, dur, rise, el))
        data = dict(t0=t0, duration=dur, h=h, rise=rise, elapsed=el, start=a, target=b, vel=v)
        tr = placo.SwingFootCubic.make_trajectory(t0, dur, h, rise, a, b, el, v)
        vs, te = t0 - el * dur, t0 + (1 - el) * dur
        ts = [vs + dur / 2 * (1 - rise), vs + dur / 2 * (1 + rise)] if rise > 0 else [vs + dur / 2]
        if any(abs(t - t0) < 2e-2 * dur for t in ts):
            continue
        d.eq(tr.pos(t0), a, "starts at the start", 1e-7, **data)
        d.eq(tr.pos(te), b, "ends at the target", 1e-6, **data)
        d.eq(tr.pos(te + 1.), b, "stays at the target", 1e-6, **data)
        knots = sorted([t0, te] + [t for t in ts if t > t0])
        tol = 1e-6 * (1 + np.abs(np.r_[a, b, v, h]).max()) / min(np.diff(knots)) ** 2
        d.eq(tr.vel(t0), v, "starts with the given velocity", tol, **data)
        d.eq(tr.vel(te), [0, 0, 0], "ends at rest", tol, **data)
        for t in ts:
            if t > t0:
                d.eq(tr.pos(t)[2], h, "height at the rise times", 1e-6, t=t, **data)
                d.eq(tr.vel(t)[2], 0, "vertical velocity at the rise times", tol, t=t, **data)
        if len(ts) == 2 and ts[0] > t0:
            t = float(rng.uniform(*ts))
            d.eq(tr.pos(t)[2], h, "plateau", 1e-6, t=t, **data)
        # horizontally: one cubic
        u = float(rng.uniform(0, 1))
        t, L = t0 + u * (te - t0), te - t0
        H = [2 * u ** 3 - 3 * u ** 2 + 1, (u ** 3 - 2 * u ** 2 + u) * L, -2 * u ** 3 + 3 * u ** 2]
        d.eq(tr.pos(t)[:2], (H[0] * a + H[1] * v + H[2] * b)[:2], "horizontal cubic", 1e-6, t=t, **data)
        for t in rng.uniform(t0, te, size=3):
            if min(abs(t - x) for x in ts + [t0, te]) > 2e-4 * dur:
                d.eq(tr.vel(t), fd(tr, t, dur * 1e-4), "vel is the derivative of pos", 1e2 * tol, t=t, **data)


d.run()
