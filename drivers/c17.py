"""Dynamics tasks: A qdd - b against the second derivative of the quantity minus the commanded acceleration, on random robots."""
import numpy as np, placo
import robots
from robots import log3, rand_rot, exp3
from common import Driver

d = Driver("random robots (trees of revolute/prismatic joints on a floating base) in motion, random frames, targets, target velocities and accelerations, "
           "gains (set and critically damped) and axis masks: A qdd - b against the second derivative of the quantity (finite differences of "
           "independently computed poses) minus kp*error + kd*velocity error + target acceleration; errors; torque and gear tasks")
g = d.rng.g
H = 1e-3
AX = "xyz"


def robot():
    r = robots.make(placo, g)
    robots.randomise(placo, r, g)
    return r, placo.DynamicsSolver(r)


def frames(r):
    return ["base"] + ["l%d" % k for k in range(r.n)] + ["tip%d" % k for k in range(r.n)]


def path(r, f, qdd, h):
    """f at times -h, 0, h along the motion with the current velocity and acceleration qdd"""
    qd = np.array(r.state.qd)
    out = []
    for t in (-h, 0., h):
        b = robots.displace(r, qd * t + .5 * qdd * t * t)
        out.append(f())
        b()
    return out


def richardson(f):
    a, b = f(H), f(H / 2)
    return [(4 * y - x) / 3 for x, y in zip(a, b)]


def motion(r, f, qdd):
    """value, velocity and acceleration of the vector f"""
    def one(h):
        m, z, p = path(r, f, qdd, h)
        return (p - m) / (2 * h), (p - 2 * z + m) / (h * h)
    v, a = richardson(one)
    return f(), v, a


def angular(r, f, qdd):
    """rotation, angular velocity and angular acceleration, expressed in the frame the rotation goes to"""
    def one(h):
        m, z, p = path(r, f, qdd, h)
        lp, lm = log3(p @ z.T), log3(m @ z.T)
        return (lp - lm) / (2 * h), (lp + lm) / (h * h)
    v, a = richardson(one)
    return f(), v, a


def mask(t, local):
    k = g.integers(0, 4)
    if k == 0:
        return np.eye(3)
    axes = "".join(g.permutation(list(AX))[:g.integers(1, 4)])
    S = np.eye(3)[[AX.index(a) for a in axes]]
    if k == 3:
        R = rand_rot(g)
        t.mask.R_custom_world = R
        t.mask.set_axises(axes, "custom")
        return S @ R
    if k == 2 and local is not None:
        t.mask.set_axises(axes, "local")
        return S @ local
    t.mask.set_axises(axes, "task")
    return S


def gains(t):
    k = g.integers(0, 3)
    if k == 0:
        t.kp, t.kd = float(g.uniform(.5, 30)), float(g.uniform(0, 5))
        return t.kp, t.kd
    if k == 1:
        t.kp = float(g.uniform(.5, 30))
        return t.kp, 2 * np.sqrt(t.kp)
    t.kp, t.kd = float(g.uniform(.5, 30)), 0.
    return t.kp, 0.


def judge(what, r, s, t, S, err, derr, dd, acc, qdd, kp, kd):
    s.solve(False)
    A, b = np.array(t.A, ndmin=2).reshape(-1, 6 + r.n), np.array(t.b).reshape(-1)
    d.eq(np.array(t.error).reshape(-1), S @ err, what + ": error", 1e-6)
    d.eq(np.array(t.derror).reshape(-1), S @ derr, what + ": velocity error", 1e-5)
    want = S @ (acc - (kp * err + kd * derr + dd))
    got = A @ qdd - b
    sc = 1 + np.abs(S @ acc).max() + np.abs(kp * err).max() + np.abs(kd * derr).max() + np.abs(A @ qdd).max() + np.abs(b).max()
    d.eq(got / sc, want / sc, what + ": A qdd - b is the acceleration minus the commanded one", 2e-6, qdd=list(qdd), qd=list(r.state.qd))


def three(t, names):
    out = []
    for n in names:
        v = g.normal(size=3) * (g.random() < .6)
        setattr(t, n, v)
        out.append(v)
    return out


def pos(r, f):
    return np.array(r.get_T_world_frame(f))[:3, 3]


def rotm(r, f):
    return np.array(r.get_T_world_frame(f))[:3, :3]


@d.test
def position():
    for _ in range(d.n(60)):
        r, s = robot()
        f = str(g.choice(frames(r)))
        qdd = g.normal(size=6 + r.n)
        d.case(("position", f))
        x, v, a = motion(r, lambda: pos(r, f), qdd)
        tgt = x + g.normal(size=3)
        t = s.add_position_task(f, tgt)
        dx, ddx = three(t, ["dtarget_world", "ddtarget_world"])
        S = mask(t, rotm(r, f).T)
        kp, kd = gains(t)
        judge("position", r, s, t, S, tgt - x, dx - v, ddx, a, qdd, kp, kd)


@d.test
def com():
    for _ in range(d.n(40)):
        r, s = robot()
        qdd = g.normal(size=6 + r.n)
        d.case("com")
        x, v, a = motion(r, lambda: np.array(r.com_world()), qdd)
        tgt = x + g.normal(size=3)
        t = s.add_com_task(tgt)
        dx, ddx = three(t, ["dtarget_world", "ddtarget_world"])
        S = mask(t, None)
        kp, kd = gains(t)
        judge("com", r, s, t, S, tgt - x, dx - v, ddx, a, qdd, kp, kd)


@d.test
def orientation():
    for _ in range(d.n(60)):
        r, s = robot()
        f = str(g.choice(frames(r)))
        qdd = g.normal(size=6 + r.n)
        d.case(("orientation", f))
        R, w, a = angular(r, lambda: rotm(r, f), qdd)
        e = g.normal(size=3) * .6
        tgt = exp3(e) @ R
        t = s.add_orientation_task(f, tgt)
        om, dom = three(t, ["omega_world", "domega_world"])
        S = mask(t, tgt.T)
        kp, kd = gains(t)
        judge("orientation", r, s, t, S, log3(tgt @ R.T), om - w, dom, a, qdd, kp, kd)


@d.test
def relative_position():
    for _ in range(d.n(60)):
        r, s = robot()
        fa, fb = [str(x) for x in g.choice(frames(r), 2, replace=False)]
        qdd = g.normal(size=6 + r.n)
        d.case(("relative position", fa, fb))
        x, v, a = motion(r, lambda: rotm(r, fa).T @ (pos(r, fb) - pos(r, fa)), qdd)
        tgt = x + g.normal(size=3)
        t = s.add_relative_position_task(fa, fb, tgt)
        dx, ddx = three(t, ["dtarget", "ddtarget"])
        S = mask(t, None)
        kp, kd = gains(t)
        judge("relative position", r, s, t, S, tgt - x, dx - v, ddx, a, qdd, kp, kd)


@d.test
def relative_orientation():
    for _ in range(d.n(60)):
        r, s = robot()
        fa, fb = [str(x) for x in g.choice(frames(r), 2, replace=False)]
        qdd = g.normal(size=6 + r.n)
        d.case(("relative orientation", fa, fb))
        # rotation of b in a; its angular velocity and acceleration in a; the task expresses them in the world
        R, w, a = angular(r, lambda: rotm(r, fa).T @ rotm(r, fb), qdd)
        tgt = exp3(g.normal(size=3) * .6) @ R
        t = s.add_relative_orientation_task(fa, fb, tgt)
        om, dom = three(t, ["omega_a_b", "domega_a_b"])
        W = rotm(r, fa)
        S = mask(t, None)
        kp, kd = gains(t)
        judge("relative orientation", r, s, t, S, W @ log3(tgt @ R.T), W @ (om - w), W @ dom, W @ a, qdd, kp, kd)


@d.test
def frame():
    for _ in range(d.n(20)):
        r, s = robot()
        fa, fb = [str(x) for x in g.choice(frames(r), 2, replace=False)]
        d.case(("frame", fa, fb))
        T = robots.pose(rand_rot(g), g.normal(size=3))
        t = s.add_frame_task(fa, T)
        d.eq(t.T_world_frame, T, "frame task target", 1e-12)
        d.eq(t.position().target_world, T[:3, 3], "frame task position target", 1e-12)
        d.eq(t.orientation().R_world_frame, T[:3, :3], "frame task orientation target", 1e-12)
        T = robots.pose(rand_rot(g), g.normal(size=3))
        t.T_world_frame = T
        d.eq(t.T_world_frame, T, "frame task target moved", 1e-12)
        u = s.add_relative_frame_task(fa, fb, T)
        d.eq(u.T_a_b, T, "relative frame task target", 1e-12)
        T = robots.pose(rand_rot(g), g.normal(size=3))
        u.T_a_b = T
        d.eq(u.position().target, T[:3, 3], "relative frame task position target", 1e-12)
        d.eq(u.orientation().R_a_b, T[:3, :3], "relative frame task orientation target", 1e-12)


@d.test
def joints():
    for _ in range(d.n(40)):
        r, s = robot()
        d.case("joints")
        t = s.add_joints_task()
        kp, kd = gains(t)
        names = ["j%d" % k for k in g.permutation(r.n)[:g.integers(1, r.n + 1)]]
        want = {}
        for j in names:
            k = g.integers(0, 3)
            x = [0. if g.random() < .25 else float(y) for y in g.normal(size=3)]
            if k == 0:
                t.set_joint(j, x[0])
                x[1] = x[2] = 0.
            elif k == 1:
                t.set_joint(j, x[0], x[1])
                x[2] = 0.
            else:
                t.set_joint(j, *x)
            want[j] = x
        if g.random() < .5:
            x = {j: float(g.normal()) for j in names[:1]}
            t.set_joints(x)
            want[names[0]][0] = x[names[0]]
        if g.random() < .5:
            x = {j: float(g.normal()) for j in names[:1]}
            t.set_joints_velocities(x)
            want[names[0]][1] = x[names[0]]
        for j in names:
            d.eq(t.get_joint(j), want[j][0], "joint target", 0)
        d.throws(lambda: t.get_joint("nope"), "target of a joint that is not in the task")
        s.solve(False)
        A, b = np.array(t.A, ndmin=2), np.array(t.b).reshape(-1)
        d.true(A.shape == (len(names), 6 + r.n), "one row per joint")
        for k, j in enumerate(sorted(names)):
            row = np.zeros(6 + r.n)
            i = r.get_joint_v_offset(j)
            row[i] = 1
            e, de = want[j][0] - r.get_joint(j), want[j][1] - r.state.qd[i]
            d.eq(A[k], row, "joints task row", 0)
            d.eq(b[k], kp * e + kd * de + want[j][2], "joints task commanded acceleration", 1e-9)
            d.eq(np.array(t.error).reshape(-1)[k], e, "joints task error", 1e-12)
            d.eq(np.array(t.derror).reshape(-1)[k], de, "joints task velocity error", 1e-12)


@d.test
def torques():
    for _ in range(d.n(40)):
        r, s = robot()
        d.case("torque")
        t = s.add_torque_task()
        want = {}
        for _ in range(g.integers(1, 8)):
            j = "j%d" % g.integers(0, r.n)
            k = g.integers(0, 4)
            x = [0. if g.random() < .25 else float(y) for y in g.normal(size=3)]
            if k == 0:
                t.set_torque(j, x[0])
                want[j] = (x[0], 0., 0.)
            elif k == 1:
                t.set_torque(j, x[0], x[1])
                want[j] = (x[0], x[1], 0.)
            elif k == 2:
                t.set_torque(j, *x)
                want[j] = tuple(x)
            else:
                t.reset_torque(j)
                want.pop(j, None)
        s.solve(False)
        A, b = np.array(t.A, ndmin=2).reshape(-1, 6 + r.n), np.array(t.b).reshape(-1)
        d.true(len(b) == len(want) and len(A) == len(want), "one row per torque")
        for k, j in enumerate(sorted(want)):
            row = np.zeros(6 + r.n)
            i = r.get_joint_v_offset(j)
            row[i] = 1
            d.eq(A[k], row, "torque task row", 0)
            tau, kp, kd = want[j]
            d.eq(b[k], tau - kp * r.get_joint(j) - kd * r.state.qd[i], "torque task: stated torque with its stiffness and damping", 1e-9)


@d.test
def gears():
    for _ in range(d.n(40)):
        r, s = robot()
        if r.n < 3:
            continue
        d.case("gear")
        t = s.add_gear_task()
        kp, kd = gains(t)
        want = {}
        half = max(1, r.n // 2)
        for _ in range(g.integers(1, 6)):
            a, b = int(g.integers(0, half)), int(g.integers(half, r.n))
            x = float(g.normal())
            if g.random() < .5:
                t.set_gear("j%d" % a, "j%d" % b, x)
                want[a] = {b: x}
            else:
                t.add_gear("j%d" % a, "j%d" % b, x)
                want.setdefault(a, {})[b] = x
        s.solve(False)
        A, b = np.array(t.A, ndmin=2).reshape(-1, 6 + r.n), np.array(t.b).reshape(-1)
        d.true(len(A) == len(want), "one row per geared joint", rows=len(A), want=str(want))
        off = lambda k: r.get_joint_v_offset("j%d" % k)
        for k, a in enumerate(sorted(want, key=off)):
            if k >= len(A):
                break
            row = np.zeros(6 + r.n)
            row[off(a)] = -1
            e, de = r.get_joint("j%d" % a), r.state.qd[off(a)]
            for c, x in want[a].items():
                row[off(c)] = x
                e -= x * r.get_joint("j%d" % c)
                de -= x * r.state.qd[off(c)]
            d.eq(A[k], row, "gear row", 1e-12)
            d.eq(b[k], kp * e + kd * de, "gear commanded acceleration", 1e-9)


@d.test
def unknown():
    r, s = robot()
    d.case("unknown")
    for f in (lambda: s.add_position_task("nope", np.zeros(3)), lambda: s.add_orientation_task("nope", np.eye(3)),
              lambda: s.add_frame_task("nope", np.eye(4)), lambda: s.add_relative_position_task("base", "nope", np.zeros(3)),
              lambda: s.add_relative_orientation_task("nope", "base", np.eye(3))):
        d.throws(f, "task on an unknown frame")


d.run()
