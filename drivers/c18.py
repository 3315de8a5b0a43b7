"""Footstep plans: clipping, opposite placement, overlap, planners."""
import numpy as np, placo
from common import Driver

d = Driver("random walk parameters, displacements (zero, tiny, on axes, large) and floor frames: the three clips against their definition, overlap against "
           "a separating-axis test on densely sampled directions, opposite and clipped footsteps, repetitive plans of 0-12 steps, naive plans to random targets")
rng = d.rng
L, R = placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right


def other(s):
    return R if s == L else L


def params():
    p = placo.HumanoidParameters()
    u = lambda a, b: float(rng.uniform(a, b))
    p.feet_spacing, p.foot_width, p.foot_length = u(.1, .25), u(.04, .12), u(.08, .25)
    p.walk_max_dx_forward, p.walk_max_dx_backward = u(.03, .3), u(.02, .2)
    p.walk_max_dy, p.walk_max_dtheta = u(.02, .2), u(.1, .8)
    p.walk_dtheta_spacing = u(0, .1)
    return p


def frame(flat=True):
    T = np.eye(4)
    a = rng.uniform(-3, 3)
    T[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
    T[:2, 3] = rng.uniform(-2, 2, size=2)
    T[2, 3] = rng.choice([0., .3])
    return T


def local(dx, dy, dth):
    T = np.eye(4)
    T[:2, :2] = [[np.cos(dth), -np.sin(dth)], [np.sin(dth), np.cos(dth)]]
    T[:2, 3] = dx, dy
    return T


def units(p, s):
    return np.array([s[0] / (p.walk_max_dx_forward if s[0] >= 0 else p.walk_max_dx_backward), s[1] / p.walk_max_dy, s[2] / p.walk_max_dtheta])


NORM = {"ellipsoid": lambda u: np.linalg.norm(u), "box": lambda u: np.abs(u).sum(), "conic": lambda u: np.hypot(u[0], u[1]) + abs(u[2])}


def clip(p, kind, s):
    n = NORM[kind](units(p, s))
    return np.array(s, float) / max(n, 1.)


def rect(w, l, T, m=0.):
    return np.array([(T @ np.array([sx * (l / 2 + m), sy * (w / 2 + m), 0, 1]))[:2] for sx, sy in ((-1, 1), (1, 1), (1, -1), (-1, -1))])


def gap(a, b):
    """largest separation of two convex polygons over their edge normals: > 0 iff disjoint"""
    g = -np.inf
    for q in (a, b):
        for i in range(4):
            e = q[(i + 1) % 4] - q[i]
            n = np.array([-e[1], e[0]]) / np.linalg.norm(e)
            g = max(g, (a @ n).min() - (b @ n).max(), (b @ n).min() - (a @ n).max())
    return g


def rand_step(p):
    k = rng.integers(0, 6)
    s = rng.normal(size=3) * np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta]) * rng.choice([.3, 1., 4.])
    if k == 0:
        s = np.zeros(3)
    elif k == 1:
        s[rng.integers(0, 3)] = 0.
    elif k == 2:
        s = np.eye(3)[rng.integers(0, 3)] * s
    return s


@d.test
def clips():
    for it in range(d.n(150)):
        p = params()
        s = rand_step(p)
        for kind in NORM:
            d.case(("clip", kind, s.tolist()))
            got = np.asarray(getattr(p, kind + "_clip")(s)).ravel()
            d.eq(got, clip(p, kind, s), kind + "_clip", 1e-9, step=s)
            d.true(NORM[kind](units(p, got)) <= 1 + 1e-9, kind + "_clip stays in the reachable set", step=s, got=got)


def near(T):
    """a frame around T so that rectangles may or may not overlap"""
    return T @ local(*(rng.uniform(-.2, .2, size=2)), rng.uniform(-3, 3))


@d.test
def overlap():
    for it in range(d.n(400)):
        d.case(("overlap", it))
        T1 = frame()
        a = placo.Footstep(float(rng.uniform(.02, .3)), float(rng.uniform(.02, .3)))
        b = placo.Footstep(float(rng.uniform(.02, .3)), float(rng.uniform(.02, .3)))
        a.frame, b.frame = T1, near(T1)
        m = float(rng.choice([0., .01, .05]))
        g = gap(rect(a.foot_width, a.foot_length, a.frame, m), rect(b.foot_width, b.foot_length, b.frame, m))
        if abs(g) < 1e-9:
            continue
        d.true(bool(a.overlap(b, m)) == (g < 0), "overlap", gap=g, wa=a.foot_width, la=a.foot_length, wb=b.foot_width, lb=b.foot_length, Ta=a.frame, Tb=b.frame, margin=m)


def spec_step(p, kind, side, T, s, w, l):
    """clipped opposite footstep"""
    sgn = -1 if side == L else 1
    s = np.array(s, float)
    s[1] += sgn * p.walk_dtheta_spacing * abs(s[2])
    if kind:
        s = clip(p, kind, s)
    close = False
    for k in range(33):
        F = T @ local(s[0], s[1] + sgn * p.feet_spacing, s[2])
        g = gap(rect(w, l, F, .01), rect(w, l, T, .01))
        close |= abs(g) < 1e-7
        if g > 0 or k == 32:
            return F, s, g, close
        s = s * .9


@d.test
def steps():
    for it in range(d.n(150)):
        p = params()
        pl = placo.FootstepsPlannerRepetitive(p)
        f = placo.Footstep(p.foot_width, p.foot_length)
        f.side = L if rng.random() < .5 else R
        f.frame = frame()
        s = rand_step(p)
        sgn = -1 if f.side == L else 1
        d.case(("opposite", it, str(f.side), s.tolist()))
        g = pl.opposite_footstep(f, *[float(x) for x in s])
        d.eq(g.frame, f.frame @ local(s[0], s[1] + sgn * p.feet_spacing, s[2]), "opposite_footstep frame")
        d.true(g.side == other(f.side), "opposite_footstep side")
        d.eq([g.foot_width, g.foot_length], [f.foot_width, f.foot_length], "opposite_footstep dimensions")
        F, s2, gp, close = spec_step(p, "conic", f.side, f.frame, s, f.foot_width, f.foot_length)
        if close:
            continue
        g = pl.clipped_opposite_footstep(f, *[float(x) for x in s])
        d.eq(g.frame, F, "clipped_opposite_footstep frame", 1e-8, step=s)
        d.true(g.side == other(f.side), "clipped_opposite_footstep side")
        for kind in NORM:
            side = L if rng.random() < .5 else R
            sg = -1 if side == L else 1
            T0 = local(0, -sg * p.feet_spacing / 2, 0)
            F, s2, gp, close = spec_step(p, kind, side, T0, s, p.foot_width, p.foot_length)
            if close:
                continue
            rel = np.linalg.inv(T0) @ F
            got = np.asarray(getattr(p, kind + "_overlap_clip")(side, s)).ravel()
            d.eq(got, [rel[0, 3], rel[1, 3] - sg * p.feet_spacing, np.arctan2(rel[1, 0], rel[0, 0])], kind + "_overlap_clip", 1e-8, step=s)


@d.test
def repetitive():
    for it in range(d.n(80)):
        p = params()
        pl = placo.FootstepsPlannerRepetitive(p)
        n = int(rng.integers(0, 13))
        s = rand_step(p)
        side = L if rng.random() < .5 else R
        d.case(("repetitive", it, n, s.tolist()))
        pl.configure(float(s[0]), float(s[1]), float(s[2]), n)
        TL, TR = frame(), frame()
        fs = list(pl.plan(side, TL, TR))
        if not d.true(len(fs) == 2 + n, "number of footsteps", n=n, got=len(fs)):
            continue
        d.true(fs[0].side == side and fs[1].side == other(side), "first sides")
        for f in fs[:2]:
            d.eq(f.frame, TL if f.side == L else TR, "given feet")
        for k, f in enumerate(fs):
            d.eq([f.foot_width, f.foot_length], [p.foot_width, p.foot_length], "foot dimensions")
            if k >= 2:
                d.true(f.side == other(fs[k - 1].side), "sides alternate", k=k)
                F, _, g, close = spec_step(p, "conic", fs[k - 1].side, fs[k - 1].frame, s if k < n + 1 else np.zeros(3), p.foot_width, p.foot_length)
                if not close:
                    d.eq(f.frame, F, "step %d of %d" % (k, n), 1e-8, step=s)


@d.test
def naive():
    for it in range(d.n(60)):
        p = params()
        pl = placo.FootstepsPlannerNaive(p)
        side = L if rng.random() < .5 else R
        C = frame()
        C[2, 3] = 0.
        TL, TR = C @ local(0, p.feet_spacing / 2, 0), C @ local(0, -p.feet_spacing / 2, 0)
        G = C @ local(*(rng.uniform(-1, 1, size=2) * rng.choice([.05, 1.])), rng.uniform(-.5, .5) * rng.choice([.1, 4.]))
        GL, GR = G @ local(0, p.feet_spacing / 2, 0), G @ local(0, -p.feet_spacing / 2, 0)
        d.case(("naive", it))
        pl.configure(GL, GR)
        fs = list(pl.plan(side, TL, TR))
        d.true(2 <= len(fs) <= 102, "naive: number of footsteps", got=len(fs))
        d.true(fs[0].side == side and fs[1].side == other(side), "naive: first sides")
        for f in fs[:2]:
            d.eq(f.frame, TL if f.side == L else TR, "naive: given feet")
        for k in range(2, len(fs)):
            f, q = fs[k], fs[k - 1]
            d.true(f.side == other(q.side), "naive: sides alternate", k=k)
            d.eq([f.foot_width, f.foot_length], [p.foot_width, p.foot_length], "naive: foot dimensions")
            sg = -1 if q.side == L else 1
            rel = np.linalg.inv(q.frame) @ f.frame
            st = np.array([rel[0, 3], rel[1, 3] - sg * p.feet_spacing, np.arctan2(rel[1, 0], rel[0, 0])])
            d.true(np.linalg.norm(units(p, st)) <= 1 + 1e-6, "naive: step in the reachable set", k=k, step=st)
            d.eq(rel[2, :], [0, 0, 1, 0], "naive: step on the floor")
            tgt = np.linalg.inv(q.frame) @ (GR if q.side == L else GL)
            e = np.array([tgt[0, 3], tgt[1, 3] - sg * p.feet_spacing])
            u = units(p, [e[0], e[1], np.arctan2(tgt[1, 0], tgt[0, 0])])
            if np.linalg.norm(u) < .99 and np.linalg.norm(e) < 1e-2 and abs(e[0]) < p.walk_max_dx_forward:
                d.eq(f.frame[:2, 3], (GR if q.side == L else GL)[:2, 3], "naive: reaches a target within reach", 1e-8, k=k)


d.run()
