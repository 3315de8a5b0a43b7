"""Random robots: trees of revolute and prismatic joints on a floating base, given to the library as URDF text."""
import numpy as np


def rot(axis, a):
    axis = np.asarray(axis, float)
    n = np.linalg.norm(axis)
    if n < 1e-12:
        return np.eye(3)
    k = axis / n
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def exp3(w):
    return rot(w, np.linalg.norm(w))


def log3(R):
    c = np.clip((np.trace(R) - 1) / 2, -1, 1)
    a = np.arccos(c)
    w = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    if a < 1e-7:
        return w / 2
    return w * a / (2 * np.sin(a))


def rand_rot(g):
    q = g.normal(size=4)
    q /= np.linalg.norm(q)
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def pose(R, t):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = R, t
    return T


def urdf(g, n, prismatic=True, spheres=0.):
    """n moving joints j0..; links base, l0..; a massless frame link tipK fixed to each lK"""
    def inertial():
        # inertia of a few point masses: always physical
        p = g.normal(size=(4, 3)) * .1
        I = sum((x @ x) * np.eye(3) - np.outer(x, x) for x in p) + 1e-3 * np.eye(3)
        return '<inertial><origin xyz="%f %f %f" rpy="%f 0 0"/><mass value="%f"/><inertia ixx="%.9f" ixy="%.9f" ixz="%.9f" iyy="%.9f" iyz="%.9f" izz="%.9f"/></inertial>' % (
            *(g.normal(size=3) * .1), g.normal(), g.uniform(.3, 2), I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2])

    def collision():
        return '<collision><geometry><sphere radius="%f"/></geometry></collision>' % spheres if spheres else ""
    s = '<robot name="r"><link name="base">%s%s</link>' % (inertial(), collision())
    for k in range(n):
        parent = "base" if k == 0 else ["base", "l%d" % g.integers(0, k), "l%d" % (k - 1), "l%d" % (k - 1)][g.integers(0, 4)]
        ax = g.normal(size=3) if g.random() < .5 else np.eye(3)[g.integers(0, 3)]
        kind = "prismatic" if prismatic and g.random() < .25 else "revolute"
        lo, hi = -g.uniform(1, 3), g.uniform(1, 3)
        s += '<link name="l%d">%s%s</link>' % (k, inertial(), collision())
        s += ('<joint name="j%d" type="%s"><parent link="%s"/><child link="l%d"/><origin xyz="%f %f %f" rpy="%f %f %f"/><axis xyz="%f %f %f"/>'
              '<limit lower="%f" upper="%f" effort="%f" velocity="%f"/></joint>') % (k, kind, parent, k, *(g.normal(size=3) * .3), *g.normal(size=3), *ax, lo, hi, g.uniform(1, 20), g.uniform(1, 10))
        s += '<link name="tip%d"/><joint name="fix%d" type="fixed"><parent link="l%d"/><child link="tip%d"/><origin xyz="%f %f %f" rpy="%f %f %f"/></joint>' % (
            k, k, k, k, *(g.normal(size=3) * .2), *g.normal(size=3))
    return s + "</robot>"


def make(placo, g, n=None, collisions=False, **kw):
    n = int(n if n is not None else g.integers(2, 7))
    r = placo.RobotWrapper("", placo.Flags.collision_as_visual if collisions else placo.Flags.ignore_collisions, urdf(g, n, **kw))
    r.n = n
    return r


def randomise(placo, r, g, still=False):
    """random base pose, joints within their limits and velocities"""
    for k in range(r.n):
        lo, hi = r.get_joint_limits("j%d" % k)
        r.set_joint("j%d" % k, float(g.uniform(lo, hi)))
    r.set_T_world_fbase(pose(rand_rot(g), g.normal(size=3)))
    if not still:
        qd = r.state.qd.copy()
        qd[:] = g.normal(size=len(qd))
        r.state.qd = qd
    r.update_kinematics()


def displace(r, dq):
    """the configuration moved along dq (same order as the velocities), kinematics updated; returns a function that comes back"""
    q, qd, qdd = r.state.q.copy(), r.state.qd.copy(), r.state.qdd.copy()
    r.state.qd = np.asarray(dq, float)
    r.state.qdd = np.zeros(0) if False else np.zeros(len(dq))
    r.integrate(1.)
    r.state.qd = qd
    r.update_kinematics()

    def back():
        r.state.q, r.state.qd, r.state.qdd = q, qd, qdd
        r.update_kinematics()
    return back


def quat(q):
    x, y, z, w = np.asarray(q) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def left_jacobian(w):
    """translation part of the SE(3) exponential"""
    a = np.linalg.norm(w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if a < 1e-8:
        return np.eye(3) + K / 2
    return np.eye(3) + (1 - np.cos(a)) / a ** 2 * K + (a - np.sin(a)) / a ** 3 * K @ K
