"""Supports from footsteps."""
import numpy as np, placo
from common import Driver

d = Driver("lists of 2-9 random footsteps, all combinations of start/middle/end double supports, supports of one or two footsteps moved and offset: "
           "sequence, flags, times, convex hull, frames")
rng = d.rng
L, R = placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right


def frame(tilt=False):
    from math import cos, sin
    T = np.eye(4)
    a = rng.uniform(-3, 3)
    T[:2, :2] = [[cos(a), -sin(a)], [sin(a), cos(a)]]
    if tilt:
        b = rng.uniform(-.3, .3)
        T[:3, :3] = T[:3, :3] @ np.array([[1, 0, 0], [0, cos(b), -sin(b)], [0, sin(b), cos(b)]])
    T[:3, 3] = rng.uniform(-1, 1, size=3)
    return T


def steps(n):
    out = []
    side = L if rng.random() < .5 else R
    for k in range(n):
        f = placo.Footstep(float(rng.uniform(.05, .2)), float(rng.uniform(.05, .3)))
        f.side, f.frame = side, frame()
        side = R if side == L else L
        out.append(f)
    return out


def same(f, g):
    return f.side == g.side and np.allclose(f.frame, g.frame) and f.foot_width == g.foot_width and f.foot_length == g.foot_length


def fvec(fs):
    v = placo.Footsteps()
    for f in fs:
        v.append(f)
    return v


def make(fs, t, start, middle, end):
    return list(placo.FootstepsPlanner.make_supports(fvec(fs), t, start, middle, end))


@d.test
def sequences():
    for it in range(d.n(12)):
        for n in range(2, 9):
            fs = steps(n)
            t = float(rng.uniform(-2, 5))
            for start in (True, False):
                for middle in (True, False):
                    for end in (True, False):
                        d.case(("supports", n, start, middle, end))
                        got = make(fs, t, start, middle, end)
                        want = []     # (footsteps, t_start, start, end)
                        if n > 2:
                            if start:
                                want.append((fs[:2], t, True, False))
                            else:
                                want.append((fs[:1], t, False, False))
                                if middle:
                                    want.append((fs[:2], t, False, False))
                            for k in range(1, n - 1):
                                want.append((fs[k:k + 1], -1., False, False))
                                if middle and k < n - 2:
                                    want.append((fs[k:k + 2], -1., False, False))
                        if end:
                            want.append((fs[n - 2:], -1., False, True))
                        if not d.true(len(got) == len(want), "number of supports", got=len(got), want=len(want)):
                            continue
                        for k, (s, w) in enumerate(zip(got, want)):
                            d.true(len(s.footsteps) == len(w[0]) and all(same(a, b) for a, b in zip(s.footsteps, w[0])), "footsteps of support %d" % k)
                            d.eq([s.t_start, float(s.start), float(s.end)], [w[1], float(w[2]), float(w[3])], "t_start, start, end of support %d" % k)
                            d.true(s.is_both() == (len(w[0]) == 2), "is_both of support %d" % k)
                            if it == 0:
                                check(s, w[0])
                            d.eq([s.elapsed_ratio, s.time_ratio], [0., 1.], "ratios of support %d" % k)


def rect(f):
    l, w = f.foot_length / 2, f.foot_width / 2
    return np.array([(f.frame @ np.array([sx * l, sy * w, 0, 1]))[:2] for sx, sy in ((-1, 1), (1, 1), (1, -1), (-1, -1))])


def hull(pts):
    """strictly convex hull, counter-clockwise (monotone chain)"""
    pts = sorted(map(tuple, pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return np.array(half(pts) + half(pts[::-1]))


def area(p):
    x, y = p[:, 0], p[:, 1]
    return .5 * (x @ np.roll(y, -1) - y @ np.roll(x, -1))


def slerp_half(A, B):
    """rotation half-way between A and B"""
    D = A.T @ B
    c = (np.trace(D) - 1) / 2
    a = np.arccos(np.clip(c, -1, 1))
    if a < 1e-9:
        return A
    k = np.array([D[2, 1] - D[1, 2], D[0, 2] - D[2, 0], D[1, 0] - D[0, 1]]) / (2 * np.sin(a))
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    h = a / 2
    return A @ (np.eye(3) + np.sin(h) * K + (1 - np.cos(h)) * K @ K)


def check(s, fs):
    P = np.array([np.asarray(x).ravel() for x in s.support_polygon()])
    H = hull(np.vstack([rect(f) for f in fs]))
    d.true(area(P) < 0, "support polygon is clockwise")
    d.true(abs(-area(P) - area(H)) < 1e-9, "area of the support polygon", got=-area(P), want=area(H))
    d.true(len(P) == len(H) and all(np.min(np.linalg.norm(P - h, axis=1)) < 1e-9 for h in H), "vertices of the support polygon", got=P, want=H)
    T = s.frame()
    if len(fs) == 1:
        d.eq(T, fs[0].frame, "frame of a single support")
    else:
        A, B = fs[0].frame, fs[1].frame
        if np.trace(A[:3, :3].T @ B[:3, :3]) > -.9:
            W = np.eye(4)
            W[:3, :3] = slerp_half(A[:3, :3], B[:3, :3])
            W[:3, 3] = (A[:3, 3] + B[:3, 3]) / 2
            d.eq(T, W, "frame of a double support", 1e-7)
    for f in fs:
        d.eq(s.footstep_frame(f.side), f.frame, "footstep_frame")
    if len(fs) == 1:
        d.true(s.side() == fs[0].side, "side")
        d.throws(lambda: s.footstep_frame(R if fs[0].side == L else L), "footstep_frame of an absent side")
    else:
        d.throws(lambda: s.side(), "side of a double support")


@d.test
def supports():
    for it in range(d.n(120)):
        fs = steps(int(rng.integers(1, 3)))
        d.case(("support", it, len(fs)))
        s = placo.Support()
        s.footsteps = fvec(fs)
        s.t_start, s.start, s.end = float(rng.uniform(-1, 3)), bool(rng.random() < .5), bool(rng.random() < .5)
        s.elapsed_ratio, s.time_ratio = float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
        check(s, fs)
        # other footsteps after its polygon was asked for
        fs = steps(int(rng.integers(1, 3)))
        s.footsteps = fvec(fs)
        check(s, fs)
        for f in fs:
            d.eq(np.array([np.asarray(x).ravel() for x in f.support_polygon()]), rect(f), "footstep polygon")
        # moving the support after its polygon was asked for
        o = rng.normal(size=2)
        s.apply_offset(o)
        moved = []
        for f in fs:
            g = placo.Footstep(f.foot_width, f.foot_length)
            T = f.frame.copy()
            T[:2, 3] += o
            g.side, g.frame = f.side, T
            moved.append(g)
        check(s, moved)
        # a footstep modified after its polygon was asked for
        g = moved[0]
        g.support_polygon()
        g.frame = frame(tilt=True)
        d.eq(np.array([np.asarray(x).ravel() for x in g.support_polygon()]), rect(g), "footstep polygon after moving it")


@d.test
def moved():
    d.cpp("c19")


d.run()
