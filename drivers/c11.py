"""Axis masks, frame utilities, directions, priorities against numpy."""
import itertools, math
import numpy as np, placo
from scipy.spatial.transform import Rotation
from common import Driver

d = Driver("all masks of up to 4 letters in all frames with random matrices; random angles, frames and point sets")
rng = d.rng


def rot():
    return Rotation.random(random_state=int(rng.integers(0, 2 ** 31))).as_matrix()


def frame(scale=1.):
    T = np.eye(4)
    T[:3, :3] = rot()
    T[:3, 3] = rng.normal(size=3) * scale
    return T


@d.test
def masks():
    for n in range(0, 5):
        for ax in itertools.product("xyzXYZ", repeat=n):
            if n >= 3 and rng.random() > (.3 if n == 3 else .05):
                continue
            ax = "".join(ax)
            for fr in ("task", "world", "local", "custom"):
                m = placo.AxisesMask()
                M = rng.normal(size=(3, int(rng.integers(1, 5))))
                d.case("mask %s %s" % (ax, fr))
                d.eq(m.apply(M), M, "default mask", M=M)
                m.R_local_world = rot()
                m.R_custom_world = rot()
                m.set_axises(ax, fr)
                R = {"task": np.eye(3), "world": np.eye(3), "local": m.R_local_world, "custom": m.R_custom_world}[fr]
                want = (R @ M)[["xyz".index(c) for c in ax.lower()], :]
                d.eq(np.asarray(m.apply(M)).reshape(want.shape) if want.size else want, want, "masked", M=M, R=R)
                if rng.random() < .2:
                    m.set_axises("xz", fr)
                    d.eq(m.apply(M), (R @ M)[[0, 2], :], "mask set twice", M=M, R=R)
    m = placo.AxisesMask()
    for a, f in (("xa", "task"), ("x y", "task"), ("xyz", "base"), ("", "Task"), ("w", "local")):
        d.case("invalid mask %r %r" % (a, f))
        d.throws(lambda: m.set_axises(a, f), "invalid mask")


@d.test
def angles():
    for a in list(rng.uniform(-50, 50, size=d.n(200))) + [0., math.pi, -math.pi, 3 * math.pi, 1e-9, -1e-9, 2 * math.pi, 100 * math.pi + .1]:
        w = placo.wrap_angle(float(a))
        d.case("angle %r" % a)
        d.true(-math.pi <= w <= math.pi, "range", angle=a, got=w)
        k = (a - w) / (2 * math.pi)
        d.true(abs(k - round(k)) < 1e-9, "congruent", angle=a, got=w)


@d.test
def frames():
    for _ in range(d.n(120)):
        A, B = frame(), frame()
        d.case("frames")
        for t, want in ((0., A), (1., B)):
            d.eq(placo.interpolate_frames(A, B, t), want, "interpolation end %g" % t, 1e-7, A=A, B=B)
        t = float(rng.random())
        I = placo.interpolate_frames(A, B, t)
        d.eq(I[:3, 3], (1 - t) * A[:3, 3] + t * B[:3, 3], "interpolated position", 1e-9, A=A, B=B, t=t)
        d.eq(I[:3, :3] @ I[:3, :3].T, np.eye(3), "interpolated rotation", 1e-7, A=A, B=B, t=t)
        a1 = Rotation.from_matrix(A[:3, :3].T @ I[:3, :3]).magnitude()
        a2 = Rotation.from_matrix(A[:3, :3].T @ B[:3, :3]).magnitude()
        d.eq(a1, t * a2, "constant angular rate", 1e-6, A=A, B=B, t=t)
        F = placo.flatten_on_floor(A)
        yaw = math.atan2(A[1, 0], A[0, 0])
        W = np.eye(4)
        W[:2, :2] = [[math.cos(yaw), -math.sin(yaw)], [math.sin(yaw), math.cos(yaw)]]
        W[:2, 3] = A[:2, 3]
        d.eq(F, W, "flattened", 1e-9, A=A)
        d.eq(placo.frame_yaw(A[:3, :3]), yaw, "yaw", 1e-12, A=A)
        v = rng.normal(size=3)
        v = v if np.linalg.norm(v) > 1e-3 else np.ones(3)
        for q, ax in enumerate("xyz"):
            e = np.eye(3)[q]
            for u in (v, e, -e, 2 * e, e + 1e-7 * v):
                R = placo.rotation_from_axis(ax, u)
                d.eq(R @ e, u / np.linalg.norm(u), "rotation_from_axis " + ax, 1e-6, vector=u)
                d.eq(R @ R.T, np.eye(3), "is a rotation", 1e-8, vector=u)
                d.eq(np.linalg.det(R), 1., "is a proper rotation", 1e-8, vector=u)
    d.throws(lambda: placo.rotation_from_axis("w", np.ones(3)), "unknown axis")


@d.test
def optimal():
    for _ in range(d.n(100)):
        n = int(rng.integers(3, 9))
        T = frame(3.)
        Bp = rng.normal(size=(n, 3))
        if rng.random() < .4:
            Bp[:, 2] = 0.
            Bp = Bp @ rot().T + rng.normal(size=3)
        Ap = Bp @ T[:3, :3].T + T[:3, 3]
        d.case("points %d" % n)
        G = placo.optimal_transformation(Ap, Bp)
        d.eq(G, T, "exact transformation", 1e-5, A=Ap, B=Bp)
        noise = Ap + .3 * rng.normal(size=Ap.shape)
        G = placo.optimal_transformation(noise, Bp)
        d.eq(np.linalg.det(G[:3, :3]), 1., "proper rotation", 1e-8, A=noise, B=Bp)
        cost = lambda M: np.sum((Bp @ M[:3, :3].T + M[:3, 3] - noise) ** 2)
        best = cost(G)
        for _ in range(10):
            P = np.eye(4)
            P[:3, :3] = Rotation.from_rotvec(rng.normal(size=3) * .02).as_matrix()
            P[:3, 3] = rng.normal(size=3) * .02
            d.true(best <= cost(G @ P) + 1e-9, "optimal among neighbours", A=noise, B=Bp)
    d.throws(lambda: placo.optimal_transformation(np.zeros((3, 2)), np.zeros((3, 2))), "two columns")
    d.throws(lambda: placo.optimal_transformation(np.zeros((4, 3)), np.zeros((3, 3))), "different counts")
    d.throws(lambda: placo.optimal_transformation(np.zeros((2, 3)), np.zeros((2, 3))), "too few")


@d.test
def directions():
    for n in range(1, 40):
        d.case("directions %d" % n)
        D = np.asarray(placo.directions_2d(n)).reshape(n, 2)
        d.eq(D, [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)] for i in range(n)], "directions_2d")
        D = np.asarray(placo.directions_3d(n)).reshape(n, 3)
        d.eq(np.linalg.norm(D, axis=1), np.ones(n), "directions_3d")
        if n > 3:
            g = D @ D.T - 2 * np.eye(n)
            d.true(g.max() < 1 - 1e-3, "distinct directions", n=n)


d.run()
