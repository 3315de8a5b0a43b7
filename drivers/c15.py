"""Inverse dynamics: accelerations, torques and contact forces of each solve against the stated problem, on random robots and histories of options."""
import numpy as np, placo
import robots
from robots import exp3
from dyn import Dyn
from common import Driver

d = Driver("random robots (2-6 joints) in motion, histories of 2-5 solves with contacts of every kind added, removed and deactivated, tasks of every priority, "
           "torque, velocity, speed-torque and joint limits toggled, base masked, damping, extra force, gravity only: solution against the optimum of the problem "
           "stated from the equation of motion; relations between the returned torques, accelerations and forces; state after integration; failures")
g = d.rng.g


def step(h):
    r, s = h.r, h.s
    for _ in range(g.integers(1, 4)):
        k = g.integers(0, 12)
        if k <= 1 and len(h.contacts) < 4:
            h.add_contact()
        elif k == 2 and h.contacts:
            i = g.integers(0, len(h.contacts))
            h.contacts[i][0].active = not h.contacts[i][0].active
            h.log.append(("active", int(i), h.contacts[i][0].active))
        elif k == 3 and h.contacts:
            i = g.integers(0, len(h.contacts))
            s.remove_contact(h.contacts.pop(i)[0])
            h.log.append(("remove contact", int(i)))
        elif k == 4:
            h.fbase = bool(g.integers(0, 2))
            s.mask_fbase(h.fbase)
            h.log.append(("fbase", h.fbase))
        elif k == 5:
            h.tl = bool(g.integers(0, 2))
            s.enable_torque_limits(h.tl)
            if g.random() < .5:
                i = int(g.integers(0, r.n))
                h.over[i] = float(g.uniform(5, 40))
                s.set_torque_limit("j%d" % i, h.over[i])
            h.log.append(("torque limits", h.tl, h.over))
        elif k == 6:
            s.dt = float(g.choice([.005, .05]))
            h.vl = bool(g.integers(0, 2))
            s.enable_velocity_limits(h.vl)
            h.log.append(("velocity limits", h.vl))
        elif k == 7:
            s.dt = float(g.choice([.005, .05]))
            h.vt = bool(g.integers(0, 2))
            s.enable_velocity_vs_torque_limits(h.vt)
            h.log.append(("velocity/torque limits", h.vt))
        elif k == 8:
            s.dt = float(g.choice([.005, .05]))
            h.jl = bool(g.integers(0, 2))
            s.enable_joint_limits(h.jl)
            i = int(g.integers(0, r.n))
            h.safe[i] = float(g.uniform(.2, 4))
            s.set_qdd_safe("j%d" % i, h.safe[i])
            if g.random() < .4:
                lo, hi = r.get_joint_limits("j%d" % i)
                r.set_joint("j%d" % i, float([lo - .1, hi + .1][g.integers(0, 2)]))
                r.update_kinematics()
            h.log.append(("joint limits", h.jl, h.safe))
        elif k == 9:
            s.damping = float(g.choice([0, .1, 2.]))
            s.gravity_only = bool(g.integers(0, 2))
            s.torque_cost = float(g.choice([1e-3, .1]))
            if g.random() < .5:
                s.extra_force = g.normal(size=h.N)
            h.log.append(("options", s.damping, s.gravity_only))
        elif k == 10:
            t = s.add_torque_task()
            j = "j%d" % g.integers(0, r.n)
            t.set_torque(j, float(g.normal()) * 3)
            prio = ["hard", "soft"][g.integers(0, 2)]
            t.configure("t", prio, .5)
            h.tasks.append([t, prio, .5, True])
            h.log.append(("torque", j, prio))
        elif k == 11:
            t = s.add_joints_task()
            if g.random() < .8:
                j = "j%d" % g.integers(0, r.n)
                t.set_joint(j, r.get_joint(j) + float(g.normal()) * .01)
                t.kp = 1.
            prio = ["hard", "soft"][g.integers(0, 2)]
            t.configure("t", prio, .3)
            h.tasks.append([t, prio, .3, False])
            h.log.append(("joints", prio))


def relations(h, res, A, act):
    """what is returned satisfies the equation of motion"""
    r, s, N = h.r, h.s, h.N
    tau, qdd, tc = np.array(res.tau), np.array(res.qdd), np.array(res.tau_contacts)
    x = [qdd] + [np.array(c.wrench).reshape(-1) for c, *_ in act]
    A, b, act, nx = h.matrices()
    x = np.concatenate(x)
    if not d.true(len(x) == nx, "sizes of the contact wrenches"):
        return
    sc = 1 + np.abs(A @ x).max() + np.abs(b).max()
    d.eq(tau / sc, (A @ x + b) / sc, "torques tied to accelerations and forces by the equation of motion", 1e-6)
    d.eq(tc / sc, -(A[:, N:] @ x[N:]) / sc, "torques of the contacts", 1e-6)
    if not h.fbase:
        d.eq(tau[:6] / sc, np.zeros(6), "no torque on the floating base", 1e-5)
    else:
        d.eq(qdd[:6], np.zeros(6), "masked base does not accelerate", 1e-6)
    d.true(set(res.tau_dict(r)) == set("j%d" % k for k in range(r.n)), "torque names")
    for k, v in res.tau_dict(r).items():
        d.eq(v, tau[r.get_joint_v_offset(k)], "torque of the joint", 0)
    return x


@d.test
def histories():
    for _ in range(d.n(70)):
        h = Dyn(g)
        for _ in range(g.integers(2, 6)):
            step(h)
            r, s = h.r, h.s
            d.case((h.r.n, h.log))
            h.update()
            q, A, b, act = h.stated()
            if not q.conditioned(1e-3):
                continue
            try:
                want = q.solve()
            except RuntimeError:
                continue        # hard constraints that cannot hold together
            st = np.array(r.state.q), np.array(r.state.qd)
            integ = s.dt > 0 and g.random() < .3
            res = s.solve(bool(integ))
            if not d.true(res.success, "a feasible problem is solved"):
                continue
            q1, qd1, qdd1 = np.array(r.state.q), np.array(r.state.qd), np.array(r.state.qdd)
            r.state.q, r.state.qd = st
            r.update_kinematics()
            x = relations(h, res, A, act)
            if x is None:
                break
            sc = 1 + np.abs(want).max()
            ok = d.eq(x / sc, want / sc, "optimum of the stated problem", 2e-3, n=r.n)
            if integ:
                want = np.array(res.qdd)
                if h.fbase:
                    want[:6] = 0.
                d.eq(qdd1, want, "integrated: acceleration stored", 1e-12)
                d.eq(qd1, st[1] + s.dt * want, "integrated: velocity", 1e-9)
                d.eq(q1[7:], st[0][7:] + s.dt * qd1[6:], "integrated: joints", 1e-9)
                d.eq(robots.quat(q1[3:7]), robots.quat(st[0][3:7]) @ exp3(s.dt * qd1[3:6]), "integrated: base rotation", 1e-7)
                d.eq(q1[:3], st[0][:3] + robots.quat(st[0][3:7]) @ robots.left_jacobian(s.dt * qd1[3:6]) @ (s.dt * qd1[:3]), "integrated: base position", 1e-7)
                r.state.q, r.state.qd = q1, qd1
                r.update_kinematics()
            if not ok:
                break


@d.test
def failures():
    for _ in range(d.n(12)):
        h = Dyn(g)
        r, s = h.r, h.s
        d.case("scaled")
        t = s.add_joints_task()
        t.set_joint("j0", .1)
        t.configure("t", "scaled", 1.)
        d.throws(lambda: s.solve(False), "scaled priority")
        h = Dyn(g)
        r, s = h.r, h.s
        d.case("dt")
        for f in (s.enable_velocity_limits, s.enable_joint_limits, s.enable_velocity_vs_torque_limits):
            f(True)
            d.throws(lambda: s.solve(False), "limits without a time step")
            f(False)
            s.solve(False)
        d.throws(lambda: s.solve(True), "integration without a time step")
        d.case("infeasible")
        h = Dyn(g)
        r, s = h.r, h.s
        s.mask_fbase(True)
        s.enable_torque_limits(True)
        s.set_torque_limit("j0", .5)
        t = s.add_torque_task()
        t.set_torque("j0", .5 + float(g.uniform(.1, 2)))
        t.configure("t", "hard", 1.)
        d.true(not s.solve(False).success, "an infeasible problem is reported")
        t.set_torque("j0", .3)
        res = s.solve(False)
        d.true(res.success, "feasible again")
        d.eq(res.tau[r.get_joint_v_offset("j0")], .3, "hard torque task", 1e-6)
        d.case("unilateral pull")
        h = Dyn(g)
        s = h.s
        c, kind, data = h.add_contact("upoint")
        s.enable_torque_limits(False)
        d.case("base alone")
        r = robots.make(placo, g, 0)
        s = placo.DynamicsSolver(r)
        s.dt = .01
        s.add_puppet_contact()
        for k in range(4):
            s.enable_torque_limits(k == 0)
            s.enable_joint_limits(k == 1)
            s.enable_velocity_limits(k == 2)
            t = s.add_position_task("base", np.zeros(3))
            d.true(s.solve(False).success, "robot without joints", k=k)


d.run()
