"""Humanoid robots: switching supports, standing on them, orienting the trunk, centre-of-mass velocity, torques."""
import numpy as np, placo
from common import Driver
from walk import *
import robots
from robots import rand_rot, exp3, log3

d = Driver("humanoid robots with 0-4 extra joints in random configurations: histories of support switches (sides and frames), joint moves, placements on the floor and "
           "orientations; centre-of-mass velocity against finite differences, torques against the equation of motion")
rng = d.rng
g = rng.g
FRAMES = ["left_foot", "right_foot", "left_ps_0", "left_ps_3", "right_ps_1", "right_ps_2"]


def joints(r):
    return {n: r.get_joint(n) for n in r.joint_names()}


def shake(r, base=True):
    for n in r.joint_names():
        r.set_joint(n, float(g.uniform(-.8, .8)))
    if base:
        r.set_T_world_fbase(robots.pose(rand_rot(g) if g.random() < .3 else exp3(g.normal(size=3) * .3), g.normal(size=3)))
    r.update_kinematics()


def T_of(r, f):
    return np.array(r.get_T_world_frame(f))


def flat(T):
    return T2(T[0, 3], T[1, 3], 0., yaw(T))


@d.test
def standing():
    for it in range(d.n(12)):
        r = make_humanoid(int(g.integers(0, 3)))
        d.case("history %d" % it)
        d.eq(np.array(r.get_T_world_support()), np.eye(4), "initial support pose")
        d.eq(T_of(r, "left_foot"), np.eye(4), "a new robot stands on its left foot", 1e-9)
        d.eq(r.support_side, L, "initial side")
        d.eq(bool(r.support_is_both), False, "initial support is single")
        sup, side, TS = "left_foot", L, np.eye(4)
        for k in range(12):
            if g.random() < .6:
                shake(r, g.random() < .5)
            before, pose0 = joints(r), T_of(r, "trunk")
            op = g.integers(0, 7)
            d.case("history %d, operation %d (%d)" % (it, k, op))
            moved = False
            if op <= 1:
                s = "left" if g.random() < .5 else "right"
                r.update_support_side(s)
                f = s + "_foot"
                if f != sup:
                    sup, side, TS = f, (L if s == "left" else R), flat(T_of(r, f))
            elif op == 2:
                f = FRAMES[g.integers(0, len(FRAMES))]
                s = f.split("_")[0]
                r.update_support_side_with_frame(s, f)
                if f != sup:
                    sup, side, TS = f, (L if s == "left" else R), flat(T_of(r, f))
            elif op == 3:
                TS = robots.pose(exp3(g.normal(size=3) * .5), g.normal(size=3))
                r.set_T_world_support(TS)
            elif op == 4:
                r.ensure_on_floor()
                moved = True
                d.eq(T_of(r, sup), TS, "the support stands where it should", 1e-8)
            else:
                # without an update of the kinematics: the joints moved since
                for n in list(before)[:3]:
                    before[n] = float(g.uniform(-.5, .5))
                    r.set_joint(n, before[n])
                Rw = rand_rot(g)
                (r.ensure_on_floor_oriented if op == 5 else r.update_from_imu)(Rw)
                moved = True
                got = T_of(r, "trunk")
                d.eq(got[:3, :3], Rw, "the trunk has the requested orientation", 1e-8)
                d.eq(T_of(r, sup)[:3, 3], TS[:3, 3], "the support keeps its position", 1e-8)
                TS = T_of(r, sup)
            d.eq(np.array(r.get_T_world_support()), TS, "pose of the support", 1e-8)
            d.eq(r.support_side, side, "side of the support")
            d.eq(r.get_support_side(), side, "side of the support (method)")
            now = joints(r)
            d.true(all(abs(now[n] - before[n]) < 1e-12 for n in now), "joints are left alone")
            if not moved:
                d.eq(T_of(r, "trunk"), pose0, "the robot does not move", 1e-9)
        for f, n in ((r.get_T_world_left, "left_foot"), (r.get_T_world_right, "right_foot"), (r.get_T_world_trunk, "trunk")):
            d.eq(np.array(f()), T_of(r, n), "pose of " + n, 1e-12)
        d.eq(placo.HumanoidRobot.other_side(L), R, "other side")
        d.eq(placo.HumanoidRobot.other_side(R), L, "other side")


@d.test
def unknown():
    r = make_humanoid()
    d.case("unknown frame")
    d.throws(lambda: r.update_support_side_with_frame("left", "nowhere"), "an unknown support frame")


@d.test
def speeds():
    for it in range(d.n(12)):
        r = make_humanoid(int(g.integers(0, 5)))
        shake(r)
        sup = FRAMES[g.integers(0, len(FRAMES))]
        s = sup.split("_")[0]
        r.update_support_side_with_frame(s, sup)
        nv = len(np.array(r.state.qd))
        qd = g.normal(size=nv)
        r.state.qd = qd
        w = g.normal(size=3)
        d.case("speeds %d: %d joints on %s" % (it, nv - 6, sup))
        got = np.array(r.get_com_velocity(L if s == "left" else R, w))
        # the base velocity for which the support frame does not translate and the trunk turns at w
        Jc, Jt = np.array(r.frame_jacobian(sup, "local"))[:3], np.array(r.frame_jacobian("trunk", "local"))[3:]
        J = np.vstack([Jc, Jt])
        vb = np.linalg.solve(J[:, :6], np.concatenate([np.zeros(3), w]) - J[:, 6:] @ qd[6:])
        v = np.concatenate([vb, qd[6:]])
        q0 = np.array(r.state.q)
        out = []
        h = 1e-5
        for e in (h, -h):
            r.state.q = q0
            r.update_kinematics()
            robots.displace(r, v * e)
            r.update_kinematics()
            out.append((np.array(r.com_world()), T_of(r, sup)[:3, 3], T_of(r, "trunk")[:3, :3]))
        dev = (out[0][0] - out[1][0]) / 2 / h
        # the setting itself: support fixed and trunk turning as asked (finite differences)
        d.eq((out[0][1] - out[1][1]) / 2 / h, np.zeros(3), "the support does not move", 1e-4 * (1 + np.abs(v).max()))
        d.eq(log3(out[1][2].T @ out[0][2]) / 2 / h, w, "the trunk turns", 1e-4 * (1 + np.abs(v).max()))
        d.eq(got, dev, "velocity of the centre of mass", 1e-4 * (1 + np.abs(v).max() ** 2), qd=qd, w=w)
        r.state.q = q0
        r.update_kinematics()
        om, u = float(g.uniform(.5, 8)), g.normal(size=2)
        c = np.array(r.com_world())[:2]
        d.eq(np.array(r.dcm(om, u)), c + u / om, "divergent component of motion", 1e-9, omega=om, velocity=u)
        d.eq(np.array(r.zmp(om, u)), c - u / om**2, "zero-moment point", 1e-9, omega=om, acceleration=u)


@d.test
def torques():
    for it in range(d.n(12)):
        r = make_humanoid(int(g.integers(0, 5)))
        shake(r)
        nv = len(np.array(r.state.qd))
        r.state.qd = g.normal(size=nv)
        r.update_kinematics()
        acc, f = g.normal(size=nv - 6) * 5, g.normal(size=8) * 20
        if it % 5 == 4:
            f[g.integers(0, 8)] = 0.
        for nle in (False, True):
            d.case("torques %d: %d joints, non-linear effects %s" % (it, nv - 6, nle))
            tau = np.array(r.get_torques(acc, f, nle))
            M, h = np.array(r.mass_matrix()), np.array(r.non_linear_effects() if nle else r.generalized_gravity())
            F = np.zeros(nv)
            for i in range(8):
                n = ("left_ps_%d" % i) if i < 4 else ("right_ps_%d" % (i - 4))
                F += np.array(r.frame_jacobian(n, "local"))[2] * f[i]
            ab = np.linalg.solve(M[:6, :6], F[:6] - h[:6] - M[:6, 6:] @ acc)
            want = M @ np.concatenate([ab, acc]) + h - F
            d.eq(tau, want, "torques", 1e-6 * (1 + np.abs(want).max()))
            d.eq(tau[:6], np.zeros(6), "no torque on the floating base", 1e-6 * (1 + np.abs(want).max()))
            D = r.get_torques_dict(acc, f, nle)
            d.eq(len(D), len(list(r.joint_names())), "named torques")
            for n in r.joint_names():
                d.eq(D[n], tau[r.get_joint_v_offset(n)], "torque of a joint", 1e-9)


d.run()
