"""Kinematics tasks: A and b against finite differences of independently computed quantities, on random robots."""
import numpy as np, placo
import robots
from robots import log3, rand_rot
from common import Driver

d = Driver("random robots (trees of revolute/prismatic joints on a floating base), random states, frames, targets and axis masks: b against the error "
           "computed from frame poses, A against finite differences of the quantity along random displacements")
rng = d.rng
g = rng.g
H = 1e-6
AX = "xyz"


def robot():
    r = robots.make(placo, g)
    robots.randomise(placo, r, g)
    return r


def frames(r):
    return ["base"] + ["l%d" % k for k in range(r.n)] + ["tip%d" % k for k in range(r.n)]


def deriv(r, f, dq):
    """directional derivative of f (the robot's kinematics are up to date when it is called)"""
    b = robots.displace(r, H * dq)
    p = f()
    b()
    b = robots.displace(r, -H * dq)
    m = f()
    b()
    return (p - m) / (2 * H)


def ang(r, f, dq):
    """angular velocity (world) of the rotation f"""
    b = robots.displace(r, H * dq)
    p = f()
    b()
    b = robots.displace(r, -H * dq)
    m = f()
    b()
    return log3(p @ m.T) / (2 * H)


def mask(t, local):
    """random axis selection; returns the matrix that selects the rows"""
    k = g.integers(0, 4)
    if k == 0:
        return np.eye(3)
    axes = "".join(g.permutation(list(AX))[:g.integers(1, 4)])
    S = np.eye(3)[[AX.index(a) for a in axes]]
    fr = "task" if k == 1 or local is None else "local"
    if k == 3:
        fr = "custom"
        R = rand_rot(g)
        t.mask.R_custom_world = R
        t.mask.set_axises(axes, "custom")
        return S @ R
    t.mask.set_axises(axes, fr)
    return S @ (local if fr == "local" else np.eye(3))


def check(r, t, what, b, rate, tol=2e-5, **data):
    """b and, along random displacements, A dq against the given rate function"""
    t.update()
    A = np.array(t.A, ndmin=2)
    data = dict(q=r.state.q.copy(), **data)
    d.eq(np.asarray(t.b).flatten(), np.asarray(b).flatten(), what + ": error", 1e-7, **data)
    if not d.true(A.shape[0] == np.asarray(b).size and A.shape[1] == len(r.state.qd), what + ": one row per constrained coordinate", shape=list(A.shape), **data):
        return
    dirs = [g.normal(size=A.shape[1]), np.eye(A.shape[1])[g.integers(0, A.shape[1])]]
    for dq in dirs:
        d.eq(A @ dq, np.asarray(rate(dq)).flatten(), what + ": first-order effect of a displacement", tol, dq=dq, **data)


@d.test
def poses():
    for it in range(d.n(60)):
        r = robot()
        s = placo.KinematicsSolver(r)
        f = str(g.choice(frames(r)))
        T = r.get_T_world_frame(f)
        d.case(("position", f))
        tgt = rng.normal(size=3)
        t = s.add_position_task(f, tgt)
        S = mask(t, T[:3, :3].T)
        check(r, t, "position", S @ (tgt - T[:3, 3]), lambda dq: S @ deriv(r, lambda: r.get_T_world_frame(f)[:3, 3].copy(), dq))
        d.case(("orientation", f))
        R = rand_rot(g) if g.random() < .8 else T[:3, :3].copy()
        t = s.add_orientation_task(f, R)
        S = mask(t, R.T)
        check(r, t, "orientation", S @ log3(R @ T[:3, :3].T), lambda dq: S @ ang(r, lambda: r.get_T_world_frame(f)[:3, :3].copy(), dq), T=T, R=R)
        d.case(("com",))
        tgt = rng.normal(size=3)
        t = s.add_com_task(tgt)
        S = mask(t, None)
        t.update()
        check(r, t, "com", S @ (tgt - r.com_world()), lambda dq: S @ deriv(r, lambda: r.com_world().copy(), dq))
        d.case(("frame", f))
        T2 = robots.pose(rand_rot(g), g.normal(size=3))
        ft = s.add_frame_task(f, T2)
        d.eq(ft.T_world_frame, T2, "frame task: target", f=f)
        T3 = robots.pose(rand_rot(g), g.normal(size=3))
        ft.T_world_frame = T3
        d.eq(ft.position().target_world, T3[:3, 3], "frame task: position target", f=f)
        d.eq(ft.orientation().R_world_frame, T3[:3, :3], "frame task: orientation target", f=f)
        ft.configure("foo", "soft", 2., 3.)
        d.true(ft.position().priority == ft.orientation().priority == "soft", "frame task: priorities")
        d.true((ft.position().name, ft.orientation().name) == ("foo_position", "foo_orientation"), "frame task: names")


@d.test
def relative():
    for it in range(d.n(60)):
        r = robot()
        s = placo.KinematicsSolver(r)
        fa, fb = [str(x) for x in g.choice(frames(r), size=2, replace=False)]
        rel = lambda: np.linalg.inv(r.get_T_world_frame(fa)) @ r.get_T_world_frame(fb)
        Tab = rel()
        d.case(("relative position", fa, fb))
        tgt = rng.normal(size=3)
        t = s.add_relative_position_task(fa, fb, tgt)
        S = mask(t, None)
        check(r, t, "relative position", S @ (tgt - Tab[:3, 3]), lambda dq: S @ deriv(r, lambda: rel()[:3, 3], dq))
        d.case(("relative orientation", fa, fb))
        R = rand_rot(g) if g.random() < .8 else Tab[:3, :3].copy()
        t = s.add_relative_orientation_task(fa, fb, R)
        S = mask(t, None)
        check(r, t, "relative orientation", S @ log3(R @ Tab[:3, :3].T), lambda dq: S @ ang(r, lambda: rel()[:3, :3], dq))
        d.case(("relative frame", fa, fb))
        T2, T3 = [robots.pose(rand_rot(g), g.normal(size=3)) for _ in range(2)]
        ft = s.add_relative_frame_task(fa, fb, T2)
        d.eq(ft.T_a_b, T2, "relative frame task: target")
        ft.T_a_b = T3
        d.eq(ft.position().target, T3[:3, 3], "relative frame task: position target")
        d.eq(ft.orientation().R_a_b, T3[:3, :3], "relative frame task: orientation target")
        d.case(("distance", fa, fb))
        dist = lambda: np.linalg.norm(r.get_T_world_frame(fb)[:3, 3] - r.get_T_world_frame(fa)[:3, 3])
        if dist() > 1e-2:
            x = float(rng.normal())
            t = s.add_distance_task(fa, fb, x)
            check(r, t, "distance", [x - dist()], lambda dq: [deriv(r, dist, dq)])


@d.test
def axis():
    for it in range(d.n(80)):
        r = robot()
        s = placo.KinematicsSolver(r)
        f = str(g.choice(frames(r)))
        a, tgt = g.normal(size=3), g.normal(size=3)
        kind = ["any", "any", "aligned", "opposite", "identity"][g.integers(0, 5)]
        if kind in ("aligned", "opposite"):
            tgt = r.get_T_world_frame(f)[:3, :3] @ a * (2 if kind == "aligned" else -1)
        if kind == "identity":
            f = "base"
            r.set_T_world_fbase(np.eye(4))
            r.update_kinematics()
            a = np.eye(3)[g.integers(0, 3)]
            tgt = a * (1 if g.random() < .5 else -1)
        d.case(("axis align", f, kind))
        t = s.add_axisalign_task(f, a, tgt)
        t.update()
        cur = lambda: r.get_T_world_frame(f)[:3, :3] @ a / np.linalg.norm(a)
        n = tgt / np.linalg.norm(tgt)
        c = cur()
        A, b = np.array(t.A, ndmin=2), np.array(t.b).flatten()
        ang_e = np.arccos(np.clip(c @ n, -1, 1))
        data = dict(axis=a, target=tgt, q=r.state.q.copy())
        if not d.true(A.shape[0] == 2 and np.all(np.isfinite(A)) and np.all(np.isfinite(b)), "axis align: two finite rows", A=A, **data):
            continue
        d.eq(np.linalg.norm(b), ang_e, "axis align: error angle", 1e-6, **data)
        # a displacement solving the rows rotates the axis straight towards the target
        if 1e-3 < ang_e < 3.1:
            dq = np.linalg.pinv(A) @ b
            if np.linalg.norm(A @ dq - b) < 1e-9:
                rate = deriv(r, cur, dq)
                d.eq(rate, ang_e * (n - c * (c @ n)) / np.linalg.norm(n - c * (c @ n)), "axis align: moves the axis to the target", 1e-4, **data)
        # displacements the rows do not see leave the axis where it is
        u, sv, vt = np.linalg.svd(A)
        null = vt[np.sum(sv > 1e-9):]
        if len(null):
            d.eq(deriv(r, cur, null.T @ g.normal(size=len(null))), np.zeros(3), "axis align: other displacements keep the axis", 1e-5, **data)
        dq = g.normal(size=A.shape[1])
        d.eq(np.linalg.norm(A @ dq), np.linalg.norm(deriv(r, cur, dq)), "axis align: rows measure the motion of the axis", 1e-5, **data)


@d.test
def joints():
    for it in range(d.n(60)):
        r = robot()
        s = placo.KinematicsSolver(r)
        names = ["j%d" % k for k in range(r.n)]
        d.case(("joints", r.n))
        t = s.add_joints_task()
        tg = {}
        for n in g.permutation(names)[:g.integers(1, r.n + 1)]:
            tg[str(n)] = float(rng.normal())
            t.set_joint(str(n), tg[str(n)])
            d.eq(t.get_joint(str(n)), tg[str(n)], "joints: target")
        d.throws(lambda: t.get_joint("no such joint"), "joints: unknown joint")
        t.update()
        A, b = np.array(t.A, ndmin=2), np.array(t.b).flatten()
        d.true(A.shape == (len(tg), len(r.state.qd)), "joints: one row per joint", shape=list(A.shape))
        want = {n: v - r.get_joint(n) for n, v in tg.items()}
        got = {}
        for row, e in zip(A, b):
            k = np.nonzero(row)[0]
            if len(k) == 1:
                for n in names:
                    if r.get_joint_v_offset(n) == k[0]:
                        got[n] = e / row[k[0]]
        if d.true(set(got) == set(want), "joints: rows name the joints", got=list(got), want=list(want)):
            for n in want:
                d.eq(got[n], want[n], "joints: error", q=r.state.q.copy(), joint=n)

        d.case(("gears", r.n))
        t = s.add_gear_task()
        gears = {}
        for k in range(g.integers(1, 6)):
            a, b_ = [str(x) for x in g.choice(names, size=2, replace=False)]
            ratio = float(rng.normal())
            if g.random() < .4:
                t.set_gear(a, b_, ratio)
                gears[a] = {b_: ratio}
            else:
                t.add_gear(a, b_, ratio)
                gears.setdefault(a, {})[b_] = ratio
        t.update()
        A, b = np.array(t.A, ndmin=2), np.array(t.b).flatten()
        data = dict(gears=gears, q=r.state.q.copy())
        if d.true(A.shape == (len(gears), len(r.state.qd)), "gears: one row per geared joint", shape=list(A.shape), **data):
            rows = sorted(gears, key=r.get_joint_v_offset)
            for row, e, n in zip(A, b, rows):
                w = np.zeros(len(r.state.qd))
                w[r.get_joint_v_offset(n)] = -1
                err = r.get_joint(n)
                for m, q in gears[n].items():
                    w[r.get_joint_v_offset(m)] = q
                    err -= q * r.get_joint(m)
                k = 1 if abs(row[r.get_joint_v_offset(n)] + 1) < 1e-9 else -1
                d.eq(row * k, w, "gears: row", **data)
                d.eq(e * k, err, "gears: error", 1e-8, **data)


@d.test
def wheels():
    for it in range(d.n(40)):
        r = robots.make(placo, g, prismatic=False)
        robots.randomise(placo, r, g)
        s = placo.KinematicsSolver(r)
        j = "j%d" % g.integers(0, r.n)
        omni = bool(g.random() < .5)
        radius = float(g.uniform(.05, .5))
        d.case(("wheel", j, omni))
        t = s.add_wheel_task(j, radius, omni)
        if g.random() < .6:
            t.T_world_surface = robots.pose(rand_rot(g), g.normal(size=3))
        Ts = np.array(t.T_world_surface)
        Tsw = np.linalg.inv(Ts) @ r.get_T_world_frame(j)
        z = Tsw[:3, 2]
        if abs(z[2]) > .95:
            continue
        x = np.cross(z, [0, 0, 1.])
        x /= np.linalg.norm(x)
        y = np.cross([0, 0, 1.], x)
        down = -np.array([0, 0, 1.]) + z * z[2]
        down /= np.linalg.norm(down)
        C = Tsw[:3, 3] + radius * down       # contact point (surface frame)
        p = np.linalg.inv(Tsw) @ np.append(C, 1)  # fixed in the wheel during the displacement
        pt = lambda: (np.linalg.inv(Ts) @ r.get_T_world_frame(j) @ p)[:3]
        Q = np.array([x, y, [0, 0, 1.]])
        if omni:
            Q = Q[[0, 2]]
        err = np.zeros(len(Q))
        err[-1] = -C[2]
        check(r, t, "wheel", err, lambda dq: Q @ deriv(r, pt, dq), T_surface=Ts, joint=j, radius=radius)


@d.test
def energy():
    for it in range(d.n(40)):
        r = robot()
        s = placo.KinematicsSolver(r)
        N = len(r.state.qd)
        L = rng.normal(size=3)
        dt = float(g.uniform(.001, .1))
        d.case(("momentum", dt))
        t = s.add_centroidal_momentum_task(L)
        d.throws(t.update, "momentum without a time step")
        s.dt = dt
        S = np.eye(3)
        if g.random() < .6:
            axes = "".join(g.permutation(list(AX))[:g.integers(1, 4)])
            t.mask.set_axises(axes, "task")
            S = np.eye(3)[[AX.index(a) for a in axes]]
        t.update()
        dq = g.normal(size=N)
        h = r.centroidal_map() @ dq / dt
        d.eq(np.asarray(t.b).flatten(), S @ L, "momentum: target", L=L)
        d.eq(np.array(t.A, ndmin=2) @ dq, S @ h[3:], "momentum: angular momentum of the displacement", 1e-8, L=L, dt=dt)
        d.case(("kinetic energy", dt))
        t = s.add_kinetic_energy_regularization_task(1e-3)
        t.update()
        A = np.array(t.A, ndmin=2)
        M = r.mass_matrix()
        d.eq((A @ dq) @ (A @ dq), .5 * (dq / dt) @ M @ (dq / dt), "kinetic energy", 1e-6, dt=dt, q=r.state.q.copy())
        d.eq(np.asarray(t.b).flatten(), np.zeros(len(A)), "kinetic energy: no target")
        s.dt = 0.
        d.throws(t.update, "kinetic energy without a time step")
        d.case(("regularization",))
        w = float(g.uniform(1e-4, 2))
        t = s.add_regularization_task(w)
        ws = np.full(N, w)
        ws[:6] = 0
        for rep in range(3):
            k = g.integers(0, 4)
            if k == 0:
                w2 = float(g.uniform(1e-4, 2))
                t.set_weight(w2)
                keep = dict(over) if rep else {}
                ws[6:] = w2
                for n, v in keep.items():
                    ws[r.get_joint_v_offset(n)] = v
            if rep == 0:
                over = {}
            if k >= 1:
                n = "j%d" % g.integers(0, r.n)
                over[n] = float(g.uniform(1e-4, 2))
                t.set_joint_weight(n, over[n])
                ws[r.get_joint_v_offset(n)] = over[n]
            t.update()
            A = np.array(t.A, ndmin=2)
            d.eq(A.T @ A, np.diag(ws), "regularization: weight of each joint, none on the base", 1e-9, weights=ws)
            d.eq(np.asarray(t.b).flatten(), np.zeros(len(A)), "regularization: no target")


@d.test
def manipulability():
    for it in range(d.n(30)):
        n = int(g.integers(6, 9))
        r = robots.make(placo, g, n, prismatic=False)
        robots.randomise(placo, r, g)
        s = placo.KinematicsSolver(r)
        f = str(g.choice(frames(r)[1:]))
        kind = ["position", "orientation", "both"][g.integers(0, 3)]
        lam = float(g.uniform(.1, 3))
        d.case(("manipulability", f, kind))
        t = s.add_manipulability_task(f, kind, lam)
        rows = {"position": slice(0, 3), "orientation": slice(3, 6), "both": slice(0, 6)}[kind]

        def man():
            J = r.frame_jacobian(f, "local")[rows, 6:]
            return np.sqrt(max(0, np.linalg.det(J @ J.T)))
        m0 = man()
        if m0 < 1e-3:
            continue
        mini = bool(g.random() < .5)
        t.minimize = mini
        t.update()
        d.eq(t.manipulability, m0, "manipulability value", 1e-7)
        A, b = np.array(t.A, ndmin=2), np.asarray(t.b).flatten()
        N = len(r.state.qd)
        W = np.zeros((N - 6, N))
        W[:, 6:] = lam * np.eye(N - 6)
        d.eq(A, W, "manipulability: rows", lam=lam)
        dq = np.zeros(N)
        dq[6:] = g.normal(size=N - 6)
        d.eq(b @ dq[6:] * (-1 if mini else 1) * 2 * lam, deriv(r, man, dq), "manipulability: gradient", 1e-3, frame=f, kind=kind, q=r.state.q.copy())


d.run()
