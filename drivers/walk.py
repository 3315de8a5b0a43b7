"""An independent statement of the walks the generator plans: timings, centre-of-mass problem, swing feet and yaws, and the answers to queries."""
import numpy as np, placo
from math import cos, sin, atan2

L, R = placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right


def other(s):
    return R if s == L else L


def link(n, m=1.):
    return '<link name="%s"><inertial><origin xyz=".01 .02 -.03"/><mass value="%f"/><inertia ixx=".02" ixy="0" ixz="0" iyy=".02" iyz="0" izz=".02"/></inertial></link>' % (n, m)


def joint(n, a, b, xyz, ax=None, rpy="0 0 0"):
    if ax is None:
        return '<joint name="%s" type="fixed"><parent link="%s"/><child link="%s"/><origin xyz="%s" rpy="%s"/></joint>' % (n, a, b, xyz, rpy)
    return ('<joint name="%s" type="revolute"><parent link="%s"/><child link="%s"/><origin xyz="%s" rpy="%s"/><axis xyz="%s"/>'
            '<limit lower="-2.5" upper="2.5" effort="30" velocity="8"/></joint>') % (n, a, b, xyz, rpy, ax)


def humanoid(extra=0):
    """legs of six joints, a head of two; pressure sensors under the feet; extra joints in an arm"""
    s = '<robot name="h">' + link("trunk", 4.)
    for side, y in (("left", .06), ("right", -.06)):
        prev = "trunk"
        names = ["hip_yaw", "hip_roll", "hip_pitch", "knee", "ankle_pitch", "ankle_roll"]
        axes = ["0 0 1", "1 0 0", "0 1 0", "0 1 0", "0 1 0", "1 0 0"]
        offs = ["0 %f -.1" % y, "0 0 0", "0 0 0", "0 0 -.2", "0 0 -.2", "0 0 0"]
        for n, a, o in zip(names, axes, offs):
            s += link("%s_%s_link" % (side, n), .4)
            s += joint("%s_%s" % (side, n), prev, "%s_%s_link" % (side, n), o, a)
            prev = "%s_%s_link" % (side, n)
        s += '<link name="%s_foot"/>' % side + joint("%s_foot_fix" % side, prev, "%s_foot" % side, ".01 0 -.04")
        for i, (x, z) in enumerate(((.05, .03), (.05, -.03), (-.05, -.03), (-.05, .03))):
            s += '<link name="%s_ps_%d"/>' % (side, i) + joint("%s_ps_fix_%d" % (side, i), "%s_foot" % side, "%s_ps_%d" % (side, i), "%f %f 0" % (x, z))
    s += link("head_base", .2) + joint("head_yaw", "trunk", "head_base", "0 0 .2", "0 0 1")
    s += link("head_pitch_link", .2) + joint("head_pitch", "head_base", "head_pitch_link", "0 0 .05", "0 1 0")
    s += '<link name="camera"/>' + joint("camera_fix", "head_pitch_link", "camera", ".03 0 .04")
    prev = "trunk"
    for k in range(extra):
        s += link("arm%d" % k, .3) + joint("arm_%d" % k, prev, "arm%d" % k, "0 .1 .1", "0 1 0" if k % 2 else "1 0 0")
        prev = "arm%d" % k
    return s + "</robot>"


def make_humanoid(extra=0):
    import os
    # the constructor warns on the standard error about frames this robot does not have
    return placo.HumanoidRobot("", placo.Flags.ignore_collisions, humanoid(extra))


def T2(x, y, z, a):
    T = np.eye(4)
    T[:2, :2] = [[cos(a), -sin(a)], [sin(a), cos(a)]]
    T[:3, 3] = [x, y, z]
    return T


def yaw(T):
    return atan2(T[1, 0], T[0, 0])


def rx(a):
    return np.array([[1, 0, 0], [0, cos(a), -sin(a)], [0, sin(a), cos(a)]])


def ry(a):
    return np.array([[cos(a), 0, sin(a)], [0, 1, 0], [-sin(a), 0, cos(a)]])


def rz(a):
    return np.array([[cos(a), -sin(a), 0], [sin(a), cos(a), 0], [0, 0, 1.]])


def parameters(g):
    p = placo.HumanoidParameters()
    p.single_support_duration = float(g.uniform(.3, 1.2))
    p.single_support_timesteps = int(g.integers(5, 12))
    p.double_support_ratio = float(g.choice([0., 0., .3, .8]))
    p.startend_double_support_ratio = float(g.choice([.8, 1.5, 2.2]))
    p.planned_timesteps = 100
    p.zmp_margin = float(g.choice([0., .01, .02]))
    p.walk_foot_height = float(g.uniform(.02, .1))
    p.walk_foot_rise_ratio = float(g.choice([0., .2, .5]))
    p.walk_com_height = float(g.uniform(.2, .9))
    p.walk_trunk_pitch = float(g.uniform(-.3, .3))
    p.walk_max_dx_forward, p.walk_max_dx_backward, p.walk_max_dy, p.walk_max_dtheta = .12, .08, .06, .4
    p.walk_dtheta_spacing = .02
    p.feet_spacing = float(g.uniform(.14, .25))
    p.foot_width, p.foot_length = float(g.uniform(.08, .12)), float(g.uniform(.12, .2))
    p.foot_zmp_target_x, p.foot_zmp_target_y = float(g.uniform(-.02, .02)), float(g.uniform(-.02, .02))
    p.zmp_reference_weight = float(g.choice([1e-1, 1.]))
    return p


def planner(g, p, n=None):
    q = placo.FootstepsPlannerRepetitive(p)
    q.configure(float(g.uniform(-.08, .12)), float(g.uniform(-.05, .05)), float(g.uniform(-.3, .3)), int(n if n is not None else g.integers(2, 6)))
    return q


def walk(g, p):
    """supports of a walk starting and ending in double support, somewhere in the world"""
    T = T2(*g.uniform(-2, 2, size=2), 0., g.uniform(-3, 3))
    h = p.feet_spacing / 2
    pl = planner(g, p)
    fs = pl.plan(L if g.random() < .5 else R, T @ T2(0, h, 0, 0), T @ T2(0, -h, 0, 0))
    sup = placo.FootstepsPlanner.make_supports(fs, 0., True, p.has_double_support(), True)
    # times are given by the generator
    for s in sup:
        s.t_start = -1.
    return pl, sup, T


# ---------------------------------------------------------------- timings
def steps_of(p, s):
    if len(s.footsteps) == 2:
        return int(np.floor(.5 + (p.startend_double_support_ratio if s.start or s.end else p.double_support_ratio) * p.single_support_timesteps))
    return p.single_support_timesteps


def duration_of(p, s):
    if len(s.footsteps) == 2:
        return steps_of(p, s) * p.single_support_duration / p.single_support_timesteps
    return p.single_support_duration


def side_of(s):
    return s.footsteps[0].side


def frame_of(s, side):
    for f in s.footsteps:
        if f.side == side:
            return np.array(f.frame)
    raise KeyError


class Plan:
    """what plan()/replan() has to return; old: the plan being replaced and its trajectory's transform"""

    def __init__(self, p, sup, t0, pos, vel=(0, 0), acc=(0, 0), soft=None, old=None):
        self.p, self.t0, self.T = p, t0, np.eye(4)
        w = np.sqrt(9.80665 / p.walk_com_height)
        self.w = w
        pb = placo.Problem()
        t = t0
        self.parts, lip = [], []
        for s in sup:
            D = (1 - s.elapsed_ratio) * duration_of(p, s) * s.time_ratio
            n = max(1, int((1 - s.elapsed_ratio) * steps_of(p, s)))
            if not lip:
                l = placo.LIPM(pb, D / n, n, t, np.array(pos, float), np.array(vel, float), np.array(acc, float))
            else:
                l = placo.LIPM.build_LIPM_from_previous(pb, D / n, n, t, lip[-1])
            lip.append(l)
            F = np.array(s.frame())
            poly = s.support_polygon()
            off = np.zeros(3)
            if len(s.footsteps) == 1:
                off[0] = p.foot_zmp_target_x
                off[1] = p.foot_zmp_target_y if side_of(s) == L else -p.foot_zmp_target_y
            target = (F[:3, :3] @ off + F[:3, 3])[:2]
            for k in range(1, n + 1):
                c = pb.add_constraint(placo.PolygonConstraint.in_polygon_xy(l.zmp(k, w * w), poly, p.zmp_margin))
                if soft:
                    c.configure("soft", soft[0])
                e = l.zmp(k, w * w)
                pb.add_constraint(e == target).configure("soft", p.zmp_reference_weight)
                if s.end and k == n:
                    for e, v in ((l.pos(k), F[:2, 3]), (l.vel(k), np.zeros(2)), (l.acc(k), np.zeros(2))):
                        c = pb.add_constraint(e == v)
                        if soft:
                            c.configure("soft", soft[1])
            self.parts.append(dict(t0=t, t1=t + D, n=n, dt=D / n, s=s, poly=[np.array(q) for q in poly], target=target))
            t += D
        self.t1 = t
        pb.solve()
        self.pb, self.lip = pb, lip
        for q, l in zip(self.parts, lip):
            q["com"] = l.get_trajectory()
        self.feet(old)

    def feet(self, old):
        p = self.p
        sp = {L: placo.CubicSpline(True), R: placo.CubicSpline(True)}
        self.trunk = placo.CubicSpline(True)
        s0 = self.parts[0]["s"]
        for f in s0.footsteps:
            sp[f.side].add_point(self.t0, yaw(np.array(f.frame)), 0.)
        if old is None:
            self.trunk.add_point(self.t0, yaw(np.array(s0.frame())), 0.)
        else:
            self.trunk.add_point(self.t0, yaw(old.T) + old.trunk.pos(self.t0), old.trunk.vel(self.t0))
        for i, q in enumerate(self.parts):
            s = q["s"]
            if len(s.footsteps) == 1:
                fly = other(side_of(s))
                end = frame_of(self.parts[i + 1]["s"], fly)
                vd = duration_of(p, s) * s.time_ratio
                if i == 0 and old is not None:
                    start, v = old.foot(fly, self.t0)[:3, 3], old.foot_speed(fly, self.t0)
                    q["swing"] = placo.SwingFootCubic.make_trajectory(q["t0"], vd, p.walk_foot_height, p.walk_foot_rise_ratio, start, end[:3, 3], s.elapsed_ratio, v)
                    sp[fly].add_point(self.t0, yaw(old.T) + old.yaws[fly].pos(self.t0), old.yaws[fly].vel(self.t0))
                else:
                    start = frame_of(self.parts[i - 1]["s"], fly)[:3, 3]
                    q["swing"] = placo.SwingFootCubic.make_trajectory(q["t0"], vd, p.walk_foot_height, p.walk_foot_rise_ratio, start, end[:3, 3], 0., np.zeros(3))
                sp[fly].add_point(q["t1"], yaw(end), 0.)
                if not p.has_double_support():
                    self.trunk.add_point(q["t1"], yaw(end), 0.)
            else:
                self.trunk.add_point(q["t1"], yaw(np.array(s.frame())), 0.)
            for f in s.footsteps:
                sp[f.side].add_point(q["t1"], yaw(np.array(f.frame)), 0.)
        self.yaws = sp

    # ---- queries
    def index(self, t):
        for i, q in enumerate(self.parts):
            if t <= q["t1"]:
                return i
        return len(self.parts) - 1

    def at(self, t):
        return self.parts[self.index(t)]

    def near(self, t, e=1e-6):
        """a time at which two parts meet"""
        return any(abs(t - q["t1"]) < e for q in self.parts[:-1])

    def com(self, t, d):
        c = self.at(t)["com"]
        v = np.array([c.pos, c.vel, c.acc, c.jerk][d](t))
        x = np.array([v[0], v[1], self.p.walk_com_height if d == 0 else 0.])
        return self.T[:3, :3] @ x + (self.T[:3, 3] if d == 0 else 0)

    def flies(self, side, t):
        s = self.at(t)["s"]
        return len(s.footsteps) == 1 and side_of(s) != side

    def foot(self, side, t):
        q = self.at(t)
        x = np.array(q["swing"].pos(t)) if self.flies(side, t) else frame_of(q["s"], side)[:3, 3]
        F = np.eye(4)
        F[:3, :3] = rz(self.yaws[side].pos(t))
        F[:3, 3] = x
        return self.T @ F

    def foot_speed(self, side, t):
        return self.T[:3, :3] @ np.array(self.at(t)["swing"].vel(t)) if self.flies(side, t) else np.zeros(3)

    def trunk_rot(self, t):
        return self.T[:3, :3] @ rz(self.trunk.pos(t)) @ ry(self.p.walk_trunk_pitch)

    def support_frame(self, t):
        """the supporting foot, flattened"""
        F = self.foot(side_of(self.at(t)["s"]), t)
        G = np.eye(4)
        G[:3, :3] = rz(yaw(F))
        G[:2, 3] = F[:2, 3]
        return G


def same_support(a, b, T=None, tol=1e-9):
    """support a is support b moved by T"""
    T = np.eye(4) if T is None else T
    return (len(a.footsteps) == len(b.footsteps) and all(f.side == g.side and np.allclose(np.array(f.frame), T @ np.array(g.frame), atol=tol) for f, g in zip(a.footsteps, b.footsteps))
            and a.start == b.start and a.end == b.end and a.t_start == b.t_start and a.elapsed_ratio == b.elapsed_ratio and a.time_ratio == b.time_ratio)


def compare(d, tr, pl, t, what, **data):
    """every query of the trajectory at t"""
    j = pl.near(t)
    if not j:
        d.eq(np.array(tr.get_j_world_CoM(t)), pl.com(t, 3), what + ": jerk of the centre of mass", 1e-4, t=t, **data)
    for n, k, tol in (("p", 0, 1e-6), ("v", 1, 1e-5), ("a", 2, 1e-4)):
        d.eq(np.array(getattr(tr, "get_%s_world_CoM" % n)(t)), pl.com(t, k), what + ": derivative %d of the centre of mass" % k, tol, t=t, **data)
    w = pl.w
    d.eq(np.array(tr.get_p_world_DCM(t, w)), (pl.com(t, 0) + pl.com(t, 1) / w)[:2], what + ": dcm", 1e-5, t=t, **data)
    d.eq(np.array(tr.get_p_world_ZMP(t, w)), (pl.com(t, 0) - pl.com(t, 2) / w / w)[:2], what + ": zmp", 1e-4, t=t, **data)
    d.eq(np.array(tr.get_T_world_left(t)), pl.foot(L, t), what + ": left foot", 1e-6, t=t, **data)
    d.eq(np.array(tr.get_T_world_right(t)), pl.foot(R, t), what + ": right foot", 1e-6, t=t, **data)
    d.eq(np.array(tr.get_R_world_trunk(t)), pl.trunk_rot(t), what + ": trunk", 1e-6, t=t, **data)
    if not j:
        for s in (L, R):
            d.eq(np.array(tr.get_v_world_foot(s, t)), pl.foot_speed(s, t), what + ": speed of a foot", 1e-5, t=t, **data)
        d.eq(np.array(tr.get_v_world_right(t)), pl.foot_speed(R, t), what + ": speed of the right foot", 1e-5, t=t, **data)
        i = pl.index(t)
        q = pl.parts[i]
        both = len(q["s"].footsteps) == 2
        d.eq(bool(tr.support_is_both(t)), both, what + ": double support", t=t, **data)
        if not both:
            d.eq(tr.support_side(t) == side_of(q["s"]), True, what + ": side of the support", t=t, **data)
            G = np.linalg.inv(pl.support_frame(t))
            p_, v_ = (G @ np.append(pl.com(t, 0), 1))[:3], G[:3, :3] @ pl.com(t, 1)
            d.eq(np.array(tr.get_p_support_CoM(t)), p_, what + ": centre of mass in the support", 1e-6, t=t, **data)
            d.eq(np.array(tr.get_v_support_CoM(t)), v_, what + ": speed in the support", 1e-5, t=t, **data)
            d.eq(np.array(tr.get_p_support_DCM(t, w)), (p_ + v_ / w)[:2], what + ": dcm in the support", 1e-5, t=t, **data)
        d.eq(tr.get_part_t_start(t), q["t0"], what + ": start of the part", 1e-9, t=t, **data)
        d.eq(tr.get_part_t_end(t), q["t1"], what + ": end of the part", 1e-9, t=t, **data)
        d.eq(np.array(tr.get_part_end_dcm(t, w)), (pl.com(q["t1"], 0) + pl.com(q["t1"], 1) / w)[:2], what + ": dcm at the end of the part", 1e-5, t=t, **data)
        n = len(pl.parts)
        d.true(same_support(tr.get_support(t), q["s"], pl.T), what + ": support", t=t, **data)
        for k in (0, 1, 2, n + 1):
            d.true(same_support(tr.get_next_support(t, k), pl.parts[min(i + k, n - 1)]["s"], pl.T), what + ": next support %d" % k, t=t, **data)
            d.true(same_support(tr.get_prev_support(t, k), pl.parts[max(i - k, 0)]["s"], pl.T), what + ": previous support %d" % k, t=t, **data)


def times(g, pl, n):
    ts = [pl.t0 - 1., pl.t0, pl.t1, pl.t1 + 1.5] + [float(x) for x in g.uniform(pl.t0 - .2, pl.t1 + .2, size=n)]
    ts += [q["t1"] for q in pl.parts]
    g.shuffle(ts)
    return ts
