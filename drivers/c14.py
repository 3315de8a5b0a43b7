"""Kinematics constraints: the solution under one constraint against the projection on the linearised set, computed from finite differences."""
import numpy as np, placo
import robots
from robots import exp3
from qp import QP
from common import Driver

d = Driver("random robots and states, one hard or soft constraint of each kind with random limits around the current value: solution against the optimum "
           "under the bound of the named quantity, whose value and derivative come from frame poses and finite differences")
g = d.rng.g
H = 1e-6


def setup(**kw):
    r = robots.make(placo, g, **kw)
    robots.randomise(placo, r, g, still=True)
    s = placo.KinematicsSolver(r)
    s.enable_joint_limits(False)
    N = 6 + r.n
    q = QP(N)
    T = np.array(r.get_T_world_frame("base"))
    ts = [s.add_position_task("base", T[:3, 3] + g.normal(size=3) * .1), s.add_orientation_task("base", exp3(g.normal(size=3) * .1) @ T[:3, :3]), s.add_joints_task()]
    for k in range(r.n):
        ts[2].set_joint("j%d" % k, r.get_joint("j%d" % k) + float(g.normal()) * .2)
    for t in ts:
        t.configure("t", "soft", 1.)
        t.update()
        q.add("eq", np.array(t.A, ndmin=2).reshape(-1, N), -np.array(t.b).reshape(-1), "soft", 1.)
    return r, s, q, N


def grad(r, N, f):
    """f: vector of quantities; values and derivatives along every degree of freedom"""
    v = np.array(f(), float).reshape(-1)
    J = np.zeros((len(v), N))
    for i in range(N):
        e = np.zeros(N)
        e[i] = H
        b = robots.displace(r, e)
        p = np.array(f(), float).reshape(-1)
        b()
        b = robots.displace(r, -e)
        m = np.array(f(), float).reshape(-1)
        b()
        J[:, i] = (p - m) / (2 * H)
    return v, J


def conf(c):
    prio = "hard" if g.random() < .5 else "soft"
    w = float(g.choice([.1, 1., 30.]))
    if g.random() < .8:
        c.configure("c", prio, w)
        return prio, w
    c.configure("c", "soft", 1.)
    return "soft", 1.


def compare(s, q, what, **data):
    try:
        want = q.solve()
    except RuntimeError:
        return
    try:
        got = np.array(s.solve(False))
    except RuntimeError as e:
        d.fail(what + ": infeasible although the stated problem is feasible", None, **data)
        return
    d.eq(got, want, what, 1e-4, **data)


def frames(r):
    fs = ["base"] + ["l%d" % k for k in range(r.n)] + ["tip%d" % k for k in range(r.n)]
    a, b = g.choice(len(fs), 2, replace=False)
    return fs[a], fs[b]


def rel(r, a, b):
    return np.linalg.solve(np.array(r.get_T_world_frame(a)), np.array(r.get_T_world_frame(b)))


@d.test
def com_polygon():
    for _ in range(d.n(60)):
        r, s, q, N = setup()
        com = np.array(r.com_world())[:2]
        n = int(g.integers(3, 7))
        ang = -np.sort(g.uniform(0, 2 * np.pi, size=n))
        c0 = com + g.normal(size=2) * .05
        poly = [c0 + g.uniform(.2, .2) * np.array([np.cos(a), np.sin(a)]) for a in ang]
        margin = float(g.uniform(-.05, .03))
        dcm = g.random() < .4
        c = s.add_com_polygon_constraint(poly, margin)
        prio, w = conf(c)
        k = 1.
        if dcm:
            c.dcm = True
            d.case("dcm without dt")
            c.omega = 3.
            d.throws(lambda: s.solve(False), "DCM without a time step")
            s.dt = .05
            c.omega = 0.
            d.throws(lambda: s.solve(False), "DCM without a natural frequency")
            c.omega = float(g.uniform(2, 5))
            k = 1 + 1 / (s.dt * c.omega)
        v, J = grad(r, N, lambda: np.array(r.com_world())[:2])
        rows, vals = [], []
        for i in range(n):
            a, b = poly[i], poly[(i + 1) % n]
            t = (b - a) / np.linalg.norm(b - a)
            nn = np.array([t[1], -t[0]])       # right of a clockwise edge is inside
            rows.append(nn @ J * k)
            vals.append(nn @ (com - a) - margin)
        d.case(("com polygon", n, dcm, prio))
        q.add("ge", rows, vals, prio, w)
        compare(s, q, "centre of mass in the polygon", poly=poly, margin=margin, state=np.array(r.state.q))


@d.test
def cone():
    for _ in range(d.n(60)):
        r, s, q, N = setup()
        a, b = frames(r)
        f = lambda: np.arctan2(np.linalg.norm(rel(r, a, b)[:2, 2]), rel(r, a, b)[2, 2])
        v, J = grad(r, N, f)
        if not .15 < v[0] < 2.9:
            continue
        m = float(v[0] + g.normal() * .1)
        if m <= 0:
            continue
        c = s.add_cone_constraint(a, b, m)
        prio, w = conf(c)
        if g.random() < .5:
            c.N = int(2 * g.integers(1, 8))
            c.range = float(g.uniform(.05, 1.))
        d.case(("cone", a, b, prio, c.N, c.range))
        try:
            got = np.array(s.solve(False))
        except RuntimeError:
            d.true(prio == "hard", "soft cone constraint solved", angle=v[0], max=m)
            continue
        if prio == "hard":
            d.true(v[0] + J[0] @ got <= m + 1e-4, "axis in the cone to first order", angle=v[0], max=m, rate=J[0] @ got)
        q.add("le", J, v - m, prio, w)
        try:
            want = q.solve()
        except RuntimeError:
            continue
        # rows of the other slices, slack at the optimum of the aligned one: same optimum
        R = rel(r, a, b)[:3, :3]
        wa, wb = angular(r, N, a), angular(r, N, b)
        Ra = np.array(r.get_T_world_frame(a))[:3, :3]
        om = Ra.T @ (wb - wa) @ want
        z = R[:, 2]
        off = np.arctan2(z[1], z[0])
        slack = True
        for t in np.linspace(-c.range, c.range, 41):
            if abs(t) < c.range / 50:
                continue
            al = off + t
            ex, ey = np.array([np.cos(al), np.sin(al), 0]), np.array([-np.sin(al), np.cos(al), 0])
            if np.arctan2(ex @ z, z[2]) + ey @ om > m - 1e-6:
                slack = False
        if slack:
            d.eq(got, want, "closest solution in the cone", 1e-4, angle=v[0], max=m, frames=[a, b])


def angular(r, N, f):
    out = np.zeros((3, N))
    for i in range(N):
        e = np.zeros(N)
        e[i] = H
        b = robots.displace(r, e)
        p = np.array(r.get_T_world_frame(f))[:3, :3]
        b()
        b = robots.displace(r, -e)
        m = np.array(r.get_T_world_frame(f))[:3, :3]
        b()
        out[:, i] = robots.log3(p @ m.T) / (2 * H)
    return out


@d.test
def yaw():
    for _ in range(d.n(60)):
        r, s, q, N = setup()
        a, b = frames(r)
        f = lambda: np.arctan2(rel(r, a, b)[1, 0], rel(r, a, b)[0, 0])
        if np.linalg.norm(rel(r, a, b)[:2, 0]) < .2 or abs(f()) > 3.:
            continue
        v, J = grad(r, N, f)
        m = float(abs(v[0]) + g.normal() * .1)
        if m < .05:
            continue
        c = s.add_yaw_constraint(a, b, m)
        prio, w = conf(c)
        d.case(("yaw", a, b, prio))
        q.add("le", np.vstack([J, -J]), [v[0] - m, -v[0] - m], prio, w)
        compare(s, q, "yaw between the limits", yaw=v[0], max=m, rel=rel(r, a, b))


@d.test
def distance():
    for _ in range(d.n(60)):
        r, s, q, N = setup()
        a, b = frames(r)
        f = lambda: np.linalg.norm(np.array(r.get_T_world_frame(a))[:3, 3] - np.array(r.get_T_world_frame(b))[:3, 3])
        if f() < .02:
            continue
        v, J = grad(r, N, f)
        if np.abs(J).max() < 1e-3:
            m = float(v[0] + .1)
        else:
            m = float(v[0] + g.normal() * .03)
        c = s.add_distance_constraint(a, b, m)
        prio, w = conf(c)
        d.case(("distance", a, b, prio))
        q.add("le", J, v - m, prio, w)
        compare(s, q, "distance below the maximum", distance=v[0], max=m)


@d.test
def half_spaces():
    for _ in range(d.n(60)):
        r, s, q, N = setup()
        n = int(g.integers(1, 4))
        A = g.normal(size=(n, 7 + r.n))
        x = np.array(r.state.q)
        b = A[:, 7:] @ x[7:] + g.normal(size=n) * .1 + .1
        c = s.add_joint_space_half_spaces_constraint(np.asfortranarray(A), b)
        prio, w = conf(c)
        d.case(("half spaces", n, prio))
        J = np.zeros((n, N))
        for k in range(r.n):
            J[:, r.get_joint_v_offset("j%d" % k)] = A[:, r.get_joint_offset("j%d" % k)]
        q.add("le", J, A[:, 7:] @ x[7:] - b, prio, w)
        compare(s, q, "joints in the half-spaces", A=A, b=b)
        d.case("half spaces: sizes")
        c2 = s.add_joint_space_half_spaces_constraint(np.asfortranarray(A), np.zeros(n + 1))
        d.throws(lambda: s.solve(False), "half-spaces with different numbers of rows")
        s.remove_constraint(c2)
        c2 = s.add_joint_space_half_spaces_constraint(np.asfortranarray(A[:, 1:]), np.zeros(n))
        d.throws(lambda: s.solve(False), "half-spaces with a wrong number of columns")


@d.test
def self_collisions():
    for _ in range(d.n(60)):
        r, s, q, N = setup(collisions=True, spheres=float(g.uniform(.05, .2)))
        D = [(x.min_distance, np.linalg.norm(np.array(x.pointA) - np.array(x.pointB))) for x in r.distances()]
        if not D or any(y < 1e-3 for x, y in D):
            continue
        v, J = grad(r, N, lambda: [x.min_distance for x in r.distances()])
        c = s.add_avoid_self_collisions_constraint()
        prio, w = conf(c)
        k = int(g.integers(0, 3))
        if k:
            c.self_collisions_margin = float(np.median(v) * .8 + g.normal() * .02) if k == 1 else .05
            c.self_collisions_trigger = float(c.self_collisions_margin + g.uniform(0, .2))
        if any(abs(x - c.self_collisions_trigger) < 1e-6 for x in v):
            continue
        sel = v < c.self_collisions_trigger
        d.case(("self collisions", r.n, prio, int(sel.sum()), bool((v < 0).any())))
        if sel.any():
            q.add("ge", J[sel], v[sel] - c.self_collisions_margin, prio, w)
        compare(s, q, "distances above the margin", distances=v, margin=c.self_collisions_margin, trigger=c.self_collisions_trigger)


d.run()
