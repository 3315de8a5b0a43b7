"""Robot state, placement, Jacobians and torques."""
import os, re, tempfile, shutil
import xml.etree.ElementTree as ET
import numpy as np, placo
from common import Driver
import robots
from robots import rand_rot, pose, rot, exp3, log3, left_jacobian

d = Driver("random robots (trees of 1-7 revolute/prismatic joints on a floating base): every accessor by every name, placements of every frame, forward kinematics "
           "computed from the description, Jacobians and time variations by finite differences in the three references, integration, torques")
g = d.rng.g


def rpy(r, p, y):
    return rot([0, 0, 1], y) @ rot([0, 1, 0], p) @ rot([1, 0, 0], r)


class Tree:
    """kinematics and masses read from the URDF text"""

    def __init__(self, text):
        self.up = {}
        self.mass = 0.
        root = ET.fromstring(text)
        for j in root.iter("joint"):
            o, a = j.find("origin"), j.find("axis")
            f = lambda e, n: np.array([float(x) for x in e.get(n).split()])
            self.up[j.find("child").get("link")] = (j.find("parent").get("link"), j.get("type"), j.get("name"), pose(rpy(*f(o, "rpy")), f(o, "xyz")),
                                                    f(a, "xyz") if a is not None else None)
        for m in root.iter("mass"):
            self.mass += float(m.get("value"))

    def at(self, link, q, base):
        if link == "base":
            return base
        parent, kind, name, T, ax = self.up[link]
        X = self.at(parent, q, base) @ T
        if kind == "revolute":
            X = X @ pose(rot(ax, q[name]), np.zeros(3))
        elif kind == "prismatic":
            X = X @ pose(np.eye(3), ax / np.linalg.norm(ax) * q[name])
        return X


def robot(n=None, move=True):
    n = int(n if n is not None else g.integers(1, 8))
    text = robots.urdf(g, n)
    r = placo.RobotWrapper("", placo.Flags.ignore_collisions, text)
    r.n = n
    r.tree = Tree(text)
    if move:
        robots.randomise(placo, r, g)
    return r


def frames(r):
    return ["base"] + [p + "%d" % k for k in range(r.n) for p in ("l", "tip")]


def same(a, b):
    return a.shape == b.shape and (a == b).all()


@d.test
def accessors():
    for _ in range(d.n(12)):
        r = robot(move=False)
        names = ["j%d" % k for k in g.permutation(r.n)]
        d.case("accessors")
        d.true(sorted(r.joint_names()) == sorted(names), "joint names")
        d.true(set(frames(r)) <= set(r.frame_names()), "frame names")
        seen_q, seen_v = set(range(7)), set(range(6))
        for j in names:
            d.true(r.get_joint_size(j) == 1 and r.get_joint_v_size(j) == 1, "joint sizes")
            for s, o, seen in (("", r.get_joint_offset(j), seen_q), ("v", r.get_joint_v_offset(j), seen_v)):
                d.true(o not in seen, "each joint has its own place", joint=j, offset=o)
                seen.add(o)
        for _ in range(12):
            j = names[g.integers(0, r.n)]
            x = float(g.normal()) if g.random() < .8 else 0.
            kind, off, field = [("joint", r.get_joint_offset(j), "q"), ("joint_velocity", r.get_joint_v_offset(j), "qd"),
                                ("joint_acceleration", r.get_joint_v_offset(j), "qdd")][g.integers(0, 3)]
            before = {f: np.array(getattr(r.state, f)) for f in ("q", "qd", "qdd")}
            d.case("set_" + kind)
            getattr(r, "set_" + kind)(j, x)
            d.eq(getattr(r, "get_" + kind)(j), x, "value read back", 0, joint=j)
            before[field][off] = x
            for f in before:
                d.true(same(np.array(getattr(r.state, f)), before[f]), "set_%s changed only that joint (%s)" % (kind, f), joint=j)
        for j in names:
            lo, hi = sorted(float(y) for y in g.normal(size=2))
            others = {k: r.get_joint_limits(k) for k in names if k != j}
            r.set_joint_limits(j, lo, hi)
            d.true(tuple(r.get_joint_limits(j)) == (lo, hi), "limits read back", joint=j)
            d.true(all(tuple(r.get_joint_limits(k)) == tuple(others[k]) for k in others), "limits of the other joints", joint=j)
        d.case("unknown names")
        for f in ("get_joint", "get_joint_velocity", "get_joint_acceleration", "get_joint_offset", "get_joint_v_offset", "get_joint_size", "get_joint_v_size",
                  "get_joint_limits"):
            d.throws(lambda: getattr(r, f)("nope"), f + " of an unknown joint")
        for f in ("set_joint", "set_joint_velocity", "set_joint_acceleration", "set_velocity_limit", "set_torque_limit", "set_rotor_inertia", "set_gear_ratio"):
            d.throws(lambda: getattr(r, f)("nope", 1.), f + " of an unknown joint")
        d.throws(lambda: r.set_joint_limits("nope", -1., 1.), "set_joint_limits of an unknown joint")
        d.throws(lambda: r.get_T_world_frame("nope"), "unknown frame")
        d.throws(lambda: r.get_T_a_b("nope", "base"), "unknown frame")
        d.throws(lambda: r.get_T_a_b("base", "nope"), "unknown frame")
        d.throws(lambda: r.set_T_world_frame("nope", np.eye(4)), "unknown frame")
        for f in ("frame_jacobian", "frame_jacobian_time_variation", "joint_jacobian"):
            d.throws(lambda: getattr(r, f)("nope", "local"), f + " of an unknown name")
            d.throws(lambda: getattr(r, f)("j0" if "joint" in f else "base", "nope"), f + " in an unknown reference")
        d.throws(lambda: r.relative_position_jacobian("nope", "base"), "unknown frame")
        d.throws(lambda: r.relative_position_jacobian("base", "nope"), "unknown frame")
        d.throws(lambda: r.static_gravity_compensation_torques("nope"), "unknown frame")
        d.eq(r.total_mass(), r.tree.mass, "total mass", 1e-6)
        robots.randomise(placo, r, g)
        r.reset()
        d.eq(r.state.q, np.array([0., 0, 0, 0, 0, 0, 1] + [0.] * r.n), "configuration after reset", 1e-12)
        d.eq(r.state.qd, np.zeros(6 + r.n), "velocities after reset", 0)
        d.eq(r.state.qdd, np.zeros(6 + r.n), "accelerations after reset", 0)


@d.test
def placement():
    for _ in range(d.n(25)):
        r = robot()
        q = {"j%d" % k: r.get_joint("j%d" % k) for k in range(r.n)}
        base = np.array(r.get_T_world_fbase())
        d.case("forward kinematics")
        for f in frames(r):
            d.eq(r.get_T_world_frame(f), r.tree.at(f, q, base), "pose of " + f, 1e-5)
        a, b = (frames(r)[g.integers(0, 2 * r.n + 1)] for _ in range(2))
        d.case("relative transform")
        d.eq(r.get_T_a_b(a, b), np.linalg.inv(r.get_T_world_frame(a)) @ r.get_T_world_frame(b), "transform from a to b", 1e-9)
        f = frames(r)[g.integers(0, 2 * r.n + 1)]
        R = rand_rot(g) if g.random() < .7 else [np.eye(3), rot([1, 0, 0], np.pi), rot([0, 1, 0], np.pi), rot([0, 0, 1], np.pi), rot([1, 1, 0], np.pi)][g.integers(0, 5)]
        T = pose(R, g.normal(size=3))
        before = [np.array(x) for x in (r.state.q, r.state.qd, r.state.qdd)]
        rel = {h: np.array(r.get_T_a_b(f, h)) for h in frames(r)}
        d.case("placing " + f)
        r.set_T_world_frame(f, T)
        r.update_kinematics()
        d.eq(r.get_T_world_frame(f), T, "frame placed", 1e-8, frame=f)
        d.true(same(np.array(r.state.q)[7:], before[0][7:]), "joints unchanged")
        d.true(same(np.array(r.state.qd), before[1]) and same(np.array(r.state.qdd), before[2]), "velocities and accelerations unchanged")
        for h in rel:
            d.eq(r.get_T_a_b(f, h), rel[h], "relative transforms unchanged", 1e-8)
        T = pose(rand_rot(g), g.normal(size=3))
        r.set_T_world_fbase(T)
        d.eq(r.get_T_world_fbase(), T, "floating base read back", 1e-9)
        r.update_kinematics()
        d.eq(r.get_T_world_frame("base"), T, "base frame at the floating base", 1e-9)


@d.test
def jacobians():
    h = 1e-6
    for _ in range(d.n(8)):
        r = robot()
        m = 6 + r.n
        fs = [frames(r)[k] for k in g.integers(0, 2 * r.n + 1, size=2)]
        J = {(f, x): np.array(r.frame_jacobian(f, x)) for f in fs for x in ("local", "world", "local_world_aligned")}
        dJ = {(f, x): np.array(r.frame_jacobian_time_variation(f, x)) for f, x in J}
        Jr = np.array(r.relative_position_jacobian(fs[0], fs[1]))
        Jc, dJc = np.array(r.com_jacobian()), np.array(r.com_jacobian_time_variation())
        d.case("jacobians")
        T = {f: np.array(r.get_T_world_frame(f)) for f in fs}
        for i in range(m):
            out = []
            for s in (h, -h):
                back = robots.displace(r, s * np.eye(m)[i])
                out.append(({f: np.array(r.get_T_world_frame(f)) for f in fs}, np.array(r.get_T_a_b(fs[0], fs[1]))[:3, 3], np.array(r.com_world())))
                back()
            (p, rp, cp), (n, rn, cn) = out
            for f in fs:
                v = (p[f][:3, 3] - n[f][:3, 3]) / (2 * h)
                w = log3(p[f][:3, :3] @ n[f][:3, :3].T) / (2 * h)
                R, t = T[f][:3, :3], T[f][:3, 3]
                d.eq(J[f, "local_world_aligned"][:, i], np.concatenate([v, w]), "frame jacobian (aligned)", 1e-5, frame=f, dof=i)
                d.eq(J[f, "local"][:, i], np.concatenate([R.T @ v, R.T @ w]), "frame jacobian (local)", 1e-5, frame=f, dof=i)
                d.eq(J[f, "world"][:, i], np.concatenate([v - np.cross(w, t), w]), "frame jacobian (world)", 1e-5, frame=f, dof=i)
            d.eq(Jr[:, i], (rp - rn) / (2 * h), "relative position jacobian", 1e-5, frames=fs, dof=i)
            d.eq(Jc[:, i], (cp - cn) / (2 * h), "centre of mass jacobian", 1e-5, dof=i)
        d.case("time variations")
        qd = np.array(r.state.qd)
        out = []
        for s in (h, -h):
            back = robots.displace(r, s * qd)
            out.append(({k: np.array(r.frame_jacobian(*k)) for k in J}, np.array(r.com_jacobian())))
            back()
        for k in J:
            d.eq(dJ[k], (out[0][0][k] - out[1][0][k]) / (2 * h), "frame jacobian time variation (%s)" % k[1], 2e-4, frame=k[0])
        d.eq(dJc @ qd, (out[0][1] - out[1][1]) @ qd / (2 * h), "centre of mass jacobian time variation", 2e-4)
        for k in range(r.n):
            for x in ("local", "world", "local_world_aligned"):
                d.eq(r.joint_jacobian("j%d" % k, x), r.frame_jacobian("l%d" % k, x), "joint jacobian", 1e-9)


@d.test
def integration():
    for _ in range(d.n(25)):
        r = robot()
        d.case("integrate")
        m = 6 + r.n
        dt = float(g.uniform(.001, .5))
        qdd = g.normal(size=m) if g.random() < .7 else np.zeros(m)
        r.state.qdd = qdd
        qd, q = np.array(r.state.qd), {"j%d" % k: r.get_joint("j%d" % k) for k in range(r.n)}
        B = np.array(r.get_T_world_fbase())
        r.integrate(dt)
        v = qd + dt * qdd
        d.eq(r.state.qd, v, "velocity advanced by the acceleration", 1e-12)
        d.eq(r.state.qdd, qdd, "acceleration kept", 0)
        for j in q:
            d.eq(r.get_joint(j), q[j] + dt * v[r.get_joint_v_offset(j)], "joint advanced by the new velocity", 1e-9)
        W = B @ pose(exp3(dt * v[3:6]), left_jacobian(dt * v[3:6]) @ (dt * v[:3]))
        d.eq(r.get_T_world_fbase(), W, "base advanced by the new velocity", 1e-8)


@d.test
def torques():
    for _ in range(d.n(20)):
        r = robot()
        m = 6 + r.n
        f = frames(r)[g.integers(0, 2 * r.n + 1)]
        if g.random() < .5:
            j = "j%d" % g.integers(0, r.n)
            M0 = np.array(r.mass_matrix())
            a, b = (float(x) for x in g.uniform(.1, 2, size=2))
            r.set_rotor_inertia(j, a)
            r.set_gear_ratio(j, b)
            M1 = M0.copy()
            M1[r.get_joint_v_offset(j), r.get_joint_v_offset(j)] += a * b * b
            d.eq(r.mass_matrix(), M1, "rotor inertia seen through the gear", 1e-9, joint=j)
        J, M = np.array(r.frame_jacobian(f, "local_world_aligned")), np.array(r.mass_matrix())
        d.eq(M, M.T, "mass matrix symmetric", 1e-12)
        d.case("gravity compensation at " + f)
        G = np.array(r.generalized_gravity())
        tau = np.array(r.static_gravity_compensation_torques(f)).reshape(-1)
        d.eq(tau[:6], np.zeros(6), "no torque from the floating base", 1e-6)
        w = np.linalg.lstsq(J.T, G - tau, rcond=None)[0]
        d.eq(J.T @ w + tau, G, "the torques and a wrench at the frame balance gravity", 1e-6, frame=f)
        t2 = r.static_gravity_compensation_torques_dict(f)
        for j in t2:
            d.eq(t2[j], tau[r.get_joint_v_offset(j)], "torque by name", 1e-9)
        d.case("fixed frame at " + f)
        H = np.array(r.non_linear_effects())
        dJ, qd = np.array(r.frame_jacobian_time_variation(f, "local_world_aligned")), np.array(r.state.qd)
        qa = g.normal(size=r.n) if g.random() < .8 else np.zeros(r.n)
        tau = np.array(r.torques_from_acceleration_with_fixed_frame(qa, f)).reshape(-1)
        d.true(tau.shape == (r.n,), "one torque per joint")
        # accelerations of the robot under these torques, the frame being held
        K = np.block([[M, -J.T], [J, np.zeros((6, 6))]])
        x = np.linalg.lstsq(K, np.concatenate([np.concatenate([np.zeros(6), tau]) - H, -dJ @ qd]), rcond=None)[0]
        d.eq(x[6:m], qa, "the robot held by the frame has the requested accelerations", 1e-5, frame=f)
        t2 = r.torques_from_acceleration_with_fixed_frame_dict(qa, f)
        for j in t2:
            d.eq(t2[j], tau[r.get_joint_v_offset(j) - 6], "torque by name", 1e-9)
        d.case("gravity")
        r.set_gravity(np.zeros(3))
        d.eq(r.generalized_gravity(), np.zeros(m), "no gravity", 1e-9)


@d.test
def native():
    tmp = tempfile.mkdtemp(prefix="verifc22")
    try:
        ps = []
        for k in range(d.n(2)):
            ps.append(os.path.join(tmp, "r%d.urdf" % k))
            with open(ps[-1], "w") as f:
                f.write(robots.urdf(g, int(g.integers(2, 7))))
        d.cpp("c22", ps)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


d.run()
