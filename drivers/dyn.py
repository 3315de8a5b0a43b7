"""Inverse dynamics stated independently: the problem over [accelerations, contact forces...] from the robot's inertia, non-linear effects and Jacobians."""
import numpy as np, placo
import robots
from robots import exp3, rand_rot
from qp import QP



class Dyn:
    def __init__(self, g, base=True, n=None):
        self.g = g
        self.r = robots.make(placo, g, n)
        r = self.r
        robots.randomise(placo, r, g)
        r.state.qd = np.array(r.state.qd) * .3
        r.update_kinematics()
        self.s = placo.DynamicsSolver(r)
        self.N = 6 + r.n
        self.effort, self.vmax, self.safe, self.over = [], [], [1.] * r.n, {}
        for k in range(r.n):
            self.effort.append(float(g.uniform(5, 50)))
            self.vmax.append(float(g.uniform(.6, 4)))
            r.set_torque_limit("j%d" % k, self.effort[k])
            r.set_velocity_limit("j%d" % k, self.vmax[k])
        self.tasks, self.contacts = [], []      # [task, priority, weight, tau task], [contact, kind, data]
        self.fbase = self.tl = self.vl = self.vt = self.jl = False
        self.log = []
        self.nbase = 0
        if base:
            self.base()

    def base(self):
        """every acceleration is observed by a soft objective"""
        r, s, g = self.r, self.s, self.g
        T = np.array(r.get_T_world_frame("base"))
        t = s.add_frame_task("base", T)
        for u in (t.position(), t.orientation()):
            u.kp = float(g.uniform(1, 20))
            u.configure("b", "soft", 1.)
            self.tasks.append([u, "soft", 1., False])
        t = s.add_joints_task()
        t.kp = float(g.uniform(1, 20))
        for k in range(r.n):
            t.set_joint("j%d" % k, r.get_joint("j%d" % k) + float(g.normal()) * .3)
        t.configure("j", "soft", 1.)
        self.tasks.append([t, "soft", 1., False])
        self.nbase = 3

    def frame(self):
        g = self.g
        return ["tip%d" % g.integers(0, self.r.n), "l%d" % g.integers(0, self.r.n)][g.integers(0, 2)]

    def weights(self, c, all_forces=True):
        g = self.g
        c.weight_forces = float(g.choice([1e-2, .1, 1.]))
        c.weight_moments = float(g.choice([1e-2, .1, 1.]))
        if g.random() < .4:
            c.weight_tangentials = float(g.choice([.1, 1.]))
        c.mu = float(g.uniform(.2, 1.5))

    def contact_task(self, t, w=1e-2):
        """the tasks of contacts are soft and light here"""
        t.kp = float(self.g.uniform(1, 10))
        t.configure("c", "soft", w)
        self.tasks.append([t, "soft", w, False])

    def add_contact(self, kind=None):
        g, r, s = self.g, self.r, self.s
        kind = kind or str(g.choice(["point", "upoint", "planar", "fixed", "line", "uline", "wrench", "puppet", "task"]))
        f = self.frame()
        T = np.array(r.get_T_world_frame(f))
        data = {"frame": f}
        if kind in ("point", "upoint"):
            t = s.add_position_task(f, T[:3, 3])
            self.contact_task(t)
            c = s.add_point_contact(t) if kind == "point" else s.add_unilateral_point_contact(t)
            if g.random() < .6:
                c.R_world_surface = rand_rot(g)
            data["surface"] = np.array(c.R_world_surface)
        elif kind in ("planar", "fixed"):
            t = s.add_frame_task(f, T)
            self.contact_task(t.position())
            self.contact_task(t.orientation())
            c = s.add_planar_contact(t) if kind == "planar" else s.add_fixed_contact(t)
            c.length, c.width = float(g.uniform(.05, .3)), float(g.uniform(.05, .3))
        elif kind in ("line", "uline"):
            t = s.add_frame_task(f, T)
            t.orientation().mask.set_axises("yz", "local" if g.random() < .7 else "task")
            self.contact_task(t.position())
            self.contact_task(t.orientation())
            c = s.add_line_contact(t) if kind == "line" else s.add_unilateral_line_contact(t)
            c.length = float(g.uniform(.05, .3))
            data["surface"] = np.eye(3)
            data["task"] = t.orientation()
            if g.random() < .6:
                c.R_world_surface = data["surface"] = rand_rot(g)
        elif kind == "wrench":
            data["ref"] = "world" if g.random() < .5 else "local"
            c = s.add_external_wrench_contact(f, data["ref"])
            c.w_ext = g.normal(size=6) * 3
            data["w"] = np.array(c.w_ext)
        elif kind == "puppet":
            c = s.add_puppet_contact()
        else:
            t = s.add_relative_position_task(*[str(x) for x in g.choice(["base"] + ["tip%d" % k for k in range(r.n)], 2, replace=False)], g.normal(size=3) * .2)
            t.mask.set_axises(str(g.choice(["x", "yz", "zx"])), "task")
            self.contact_task(t)
            c = s.add_task_contact(t)
            data["task"] = t
        self.weights(c)
        self.contacts.append([c, kind, data])
        self.log.append(("contact", kind))
        return self.contacts[-1]

    def jac(self, c, kind, data):
        r = self.r
        if kind in ("point", "upoint"):
            return np.array(r.frame_jacobian(data["frame"], "local_world_aligned"))[:3]
        if kind in ("planar", "fixed"):
            return np.array(r.frame_jacobian(data["frame"], "local"))
        if kind in ("line", "uline"):
            return np.vstack([np.array(r.frame_jacobian(data["frame"], "local_world_aligned"))[:3], np.array(data["task"].A, ndmin=2).reshape(-1, self.N)])
        if kind == "wrench":
            return np.array(r.frame_jacobian(data["frame"], "local" if data["ref"] == "local" else "local_world_aligned"))
        if kind == "puppet":
            return np.eye(self.N)
        return np.array(data["task"].A, ndmin=2).reshape(-1, self.N)

    def admissible(self, q, c, kind, data, at, n, nx):
        """rows of the admissible set and of the penalties of contact forces at columns at..at+n"""
        F = np.zeros((n, nx))
        F[:, at:at + n] = np.eye(n)
        sur = data.get("surface", np.eye(3))
        L = sur.T @ F[:3] if n >= 3 and kind in ("upoint", "uline", "point", "line") else F[:3]
        z = np.zeros(1)

        def cone():
            q.add("ge", L[[2]], z)
            for i in (0, 1):
                q.add("le", L[[i]] - c.mu * L[[2]], z)
                q.add("ge", L[[i]] + c.mu * L[[2]], z)
        if kind in ("upoint", "planar", "uline"):
            cone()
        if kind == "planar":
            q.add("le", F[[4]] - c.length / 2 * F[[2]], z)
            q.add("ge", F[[4]] + c.length / 2 * F[[2]], z)
            q.add("le", F[[3]] - c.width / 2 * F[[2]], z)
            q.add("ge", F[[3]] + c.width / 2 * F[[2]], z)
        if kind == "uline":
            q.add("le", F[[3]] - c.length / 2 * L[[2]], z)
            q.add("ge", F[[3]] + c.length / 2 * L[[2]], z)
        if kind == "wrench":
            q.add("eq", F, -data["w"])
            return
        wf, wt, wm = c.weight_forces, c.weight_tangentials, c.weight_moments
        if kind in ("puppet", "task"):
            if wf > 0:
                q.add("eq", F, np.zeros(n), "soft", wf)
            return
        if wf > 0:
            q.add("eq", F[:3], np.zeros(3), "soft", wf)
        if wt > 0:
            q.add("eq", L[:2], np.zeros(2), "soft", wt)
        if wm > 0 and n > 3:
            q.add("eq", F[3:], np.zeros(n - 3), "soft", wm)

    def matrices(self):
        """(A, b) of the torques over [qdd, forces], and the active contacts with their columns; tasks must be up to date"""
        r, s, N = self.r, self.s, self.N
        M = np.array(r.mass_matrix())
        h = np.array(r.generalized_gravity() if s.gravity_only else r.non_linear_effects())
        h = h + s.damping * np.array(r.state.qd)
        e = np.array(s.extra_force).reshape(-1)
        if e.size:
            h = h + e
        act, at = [], N
        A = M
        for c, kind, data in self.contacts:
            if not c.active:
                continue
            J = self.jac(c, kind, data)
            act.append((c, kind, data, at, J))
            A = np.hstack([A, -J.T])
            at += J.shape[0]
        return A, h, act, at

    def stated(self):
        r, s, N = self.r, self.s, self.N
        A, h, act, nx = self.matrices()
        q = QP(nx)
        I = np.eye(nx)
        qd = np.array(r.state.qd)
        for c, kind, data, at, J in act:
            self.admissible(q, c, kind, data, at, J.shape[0], nx)
        if self.fbase:
            q.add("eq", I[:6], np.zeros(6))
        else:
            q.add("eq", A[:6], h[:6])
        q.add("eq", A[6:], h[6:], "soft", s.torque_cost)
        for t, prio, w, tau in self.tasks:
            TA = np.array(t.A, ndmin=2)
            if TA.size == 0:
                continue
            TA, tb = TA.reshape(-1, N), np.array(t.b).reshape(-1)
            if tau:
                q.add("eq", TA @ A, TA @ h - tb, prio, w)
            else:
                q.add("eq", np.hstack([TA, np.zeros((TA.shape[0], nx - N))]), -tb, prio, w)
        for k in range(r.n):
            j = "j%d" % k
            i = r.get_joint_v_offset(j)
            if self.tl:
                u = self.over.get(k, self.effort[k])
                q.add("le", A[[i]], [h[i] - u])
                q.add("ge", A[[i]], [h[i] + u])
            if self.vt:
                ra = self.vmax[k] / self.effort[k]
                q.add("le", ra * A[[i]] + s.dt * I[[i]], [ra * h[i] + qd[i] - self.vmax[k]])
                q.add("ge", ra * A[[i]] + s.dt * I[[i]], [ra * h[i] + qd[i] + self.vmax[k]])
            elif self.vl:
                q.add("le", s.dt * I[[i]], [qd[i] - self.vmax[k]])
                q.add("ge", s.dt * I[[i]], [qd[i] + self.vmax[k]])
            if self.jl:
                lo, hi = r.get_joint_limits(j)
                x = r.get_joint(j)
                if x > hi:
                    q.add("le", I[[i]], [self.safe[k]])
                else:
                    q.add("le", s.dt * I[[i]], [qd[i] - np.sqrt(2 * (hi - x) * self.safe[k])])
                if x < lo:
                    q.add("ge", I[[i]], [-self.safe[k]])
                else:
                    q.add("ge", s.dt * I[[i]], [qd[i] + np.sqrt(2 * (x - lo) * self.safe[k])])
        return q, A, h, act

    def update(self):
        """the tasks' matrices are computed by solve (whatever it concludes)"""
        self.s.solve(False)
