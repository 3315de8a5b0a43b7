"""Inverse kinematics: the solution of each solve against the stated problem, on random robots and histories of changes."""
import numpy as np, placo
import robots
from robots import rand_rot, exp3, log3, pose
from qp import QP
from common import Driver

d = Driver("random robots (2-6 joints), histories of 3-7 solves with tasks added, removed, reconfigured (hard, soft, scaled), joints and base masked "
           "and unmasked, joint and velocity limits toggled, time step set or not: solution against the optimum of the problem stated from the tasks' "
           "matrices; state after applying it")
g = d.rng.g


class Hist:
    def __init__(self):
        self.r = robots.make(placo, g)
        robots.randomise(placo, self.r, g)
        self.s = placo.KinematicsSolver(self.r)
        self.N = 6 + self.r.n
        self.tasks = []         # [task, priority, weight]
        self.masked, self.fbase = set(), False
        self.jl, self.vl = True, False
        self.log = []
        self.vmax = [float(g.uniform(.5, 5)) for _ in range(self.r.n)]
        for k, v in enumerate(self.vmax):
            self.r.set_velocity_limit("j%d" % k, v)
        # a well-conditioned objective: all degrees of freedom are observed
        self.base()

    def base(self):
        r, s = self.r, self.s
        T = np.array(r.get_T_world_frame("base"))
        t = s.add_position_task("base", T[:3, 3] + g.normal(size=3) * .2)
        t.configure("p", "soft", 1.)
        self.tasks.append([t, "soft", 1.])
        t = s.add_orientation_task("base", exp3(g.normal(size=3) * .2) @ T[:3, :3])
        t.configure("o", "soft", 1.)
        self.tasks.append([t, "soft", 1.])
        t = s.add_joints_task()
        for k in range(r.n):
            t.set_joint("j%d" % k, r.get_joint("j%d" % k) + float(g.normal()) * .5)
        t.configure("j", "soft", 1.)
        self.tasks.append([t, "soft", 1.])
        self.nbase = 3

    def still(self, frame):
        return np.array(self.r.get_T_world_frame(frame))

    def add(self):
        r, s = self.r, self.s
        f = ["tip%d" % g.integers(0, r.n), "l%d" % g.integers(0, r.n)][g.integers(0, 2)]
        prio = ["hard", "soft", "soft", "scaled"][g.integers(0, 4)]
        w = float(g.choice([.1, 1., 10.]))
        k = g.integers(0, 6)
        hold = prio == "hard"
        T = self.still(f)
        if k == 0:
            t = s.add_position_task(f, T[:3, 3] + (0 if hold else g.normal(size=3) * .3))
            t.mask.set_axises("".join(g.permutation(list("xyz"))[:g.integers(1, 3)]), "task")
        elif k == 1:
            t = s.add_orientation_task(f, (np.eye(3) if hold else exp3(g.normal(size=3) * .4)) @ T[:3, :3])
            t.mask.set_axises("z", "local")
        elif k == 2:
            t = s.add_com_task(np.array(r.com_world()) + (0 if hold else g.normal(size=3) * .1))
            t.mask.set_axises("xy", "task")
        elif k == 3:
            t = s.add_joints_task()
            j = "j%d" % g.integers(0, r.n)
            t.set_joint(j, r.get_joint(j) + (0 if hold else float(g.normal()) * .5))
        elif k == 4:
            t = s.add_joints_task()         # empty
        else:
            t = s.add_regularization_task(float(g.choice([1e-3, .1])))
            prio, w = "soft", None
        if w is not None:
            t.configure("t", prio, w)
        else:
            w = 1.
        self.tasks.append([t, prio, w])
        self.log.append(("add", int(k), prio, w))

    def step(self):
        r, s = self.r, self.s
        for _ in range(g.integers(1, 4)):
            k = g.integers(0, 9)
            if k <= 2:
                self.add()
            elif k == 3 and len(self.tasks) > self.nbase:
                i = g.integers(self.nbase, len(self.tasks))
                s.remove_task(self.tasks.pop(i)[0])
                self.log.append(("remove", int(i)))
            elif k == 4:
                j = int(g.integers(0, r.n))
                s.mask_dof("j%d" % j)
                self.masked.add(r.get_joint_v_offset("j%d" % j))
                self.log.append(("mask", j))
            elif k == 5:
                j = int(g.integers(0, r.n))
                s.unmask_dof("j%d" % j)
                self.masked.discard(r.get_joint_v_offset("j%d" % j))
                self.log.append(("unmask", j))
            elif k == 6:
                self.fbase = bool(g.integers(0, 2))
                s.mask_fbase(self.fbase)
                self.log.append(("fbase", self.fbase))
            elif k == 7:
                self.jl = bool(g.integers(0, 2))
                s.enable_joint_limits(self.jl)
                self.log.append(("joint limits", self.jl))
            elif k == 8:
                self.vl = bool(g.integers(0, 2))
                s.enable_velocity_limits(self.vl)
                if self.vl:
                    s.dt = float(g.choice([.01, .1]))
                self.log.append(("velocity limits", self.vl, s.dt))

    def stated(self):
        r, N = self.r, self.N
        q = QP(N)
        for t, prio, w in self.tasks:
            t.update()
            A = np.array(t.A, ndmin=2)
            if A.shape[0] == 0 or A.size == 0:
                continue
            A = A.reshape(-1, N)
            q.add("eq", A, -np.array(t.b).reshape(-1), prio, w)
        I = np.eye(N)
        for i in sorted(self.masked):
            q.add("eq", I[[i]], [0.])
        if self.fbase:
            q.add("eq", I[:6], np.zeros(6))
        if self.jl:
            for k in range(r.n):
                i = r.get_joint_v_offset("j%d" % k)
                lo, hi = r.get_joint_limits("j%d" % k)
                x = r.get_joint("j%d" % k)
                q.add("le", I[[i]], [x - hi])
                q.add("ge", I[[i]], [x - lo])
        if self.vl:
            for k in range(r.n):
                i = r.get_joint_v_offset("j%d" % k)
                v = self.vmax[k] * self.s.dt
                q.add("le", I[[i]], [-v])
                q.add("ge", I[[i]], [v])
        return q


@d.test
def histories():
    for _ in range(d.n(60)):
        h = Hist()
        for _ in range(g.integers(3, 8)):
            h.step()
            r, s = h.r, h.s
            q = h.stated()
            if not q.conditioned():
                continue
            d.case((h.r.n, h.log))
            try:
                want = q.solve()
            except RuntimeError:
                continue        # hard constraints that cannot hold together
            q0, v0 = np.array(r.state.q), np.array(r.state.qd)
            apply = bool(g.integers(0, 2))
            got = np.array(s.solve(apply))
            if not d.eq(got, want, "solution of the stated problem", 2e-4, n=h.r.n):
                break
            if q.scale is not None:
                d.eq(s.scale, q.scale, "scale of the scaled tasks", 2e-4)
            if not apply:
                d.eq(r.state.q, q0, "not applied: state unchanged", 0.)
                d.eq(r.state.qd, v0, "not applied: velocity unchanged", 0.)
                continue
            q1, qd1, qdd1 = np.array(r.state.q), np.array(r.state.qd), np.array(r.state.qdd)
            d.eq(q1[7:], q0[7:] + got[6:], "applied: joints moved by the solution", 1e-9)
            R0, R1 = robots.quat(q0[3:7]), robots.quat(q1[3:7])
            d.eq(R1, R0 @ exp3(got[3:6]), "applied: base rotated by the solution (body frame)", 1e-7)
            if np.linalg.norm(got[3:6]) < 1e-12:
                d.eq(q1[:3], q0[:3] + R0 @ got[:3], "applied: base moved by the solution", 1e-7)
            else:
                d.eq(q1[:3], q0[:3] + R0 @ robots.left_jacobian(got[3:6]) @ got[:3], "applied: base moved by the solution", 1e-7)
            if s.dt > 0:
                d.eq(qd1, got / s.dt, "applied: velocity is the displacement over the time step", 1e-5)
                d.eq(qdd1, (qd1 - v0) / s.dt, "applied: acceleration is the change of velocity over the time step", 1e-6)
            else:
                d.eq(qd1, v0, "no time step: velocity unchanged", 0.)
            r.update_kinematics()


@d.test
def errors():
    for _ in range(d.n(5)):
        h = Hist()
        d.case("velocity limits without dt")
        h.s.enable_velocity_limits(True)
        d.throws(lambda: h.s.solve(False), "velocity limits without a time step")
        h.s.dt = .01
        h.s.solve(False)
        d.case("base alone")
        r = robots.make(placo, g, 0)
        s = placo.KinematicsSolver(r)
        for jl in (True, False):
            s.enable_joint_limits(jl)
            t = s.add_position_task("base", np.array([.1, .2, .3]))
            dq = np.array(s.solve(False))
            d.eq(dq[:3], [.1, .2, .3], "robot without joints", 1e-4)
        d.eq(s.tasks_count(), 2, "number of tasks")
        s.clear()
        d.eq(s.tasks_count(), 0, "number of tasks after clear")


d.run()
