"""Contacts: forces of each solve against the stated admissible set and penalties, centre of pressure, errors."""
import numpy as np, placo
import robots
from dyn import Dyn
from common import Driver

d = Driver("random robots in motion under random pushes, one to three contacts of every kind with random friction, sizes, surface orientations and weights "
           "(including zero): forces within the friction cone, pushing, centre of pressure inside; optimum of the stated problem; external wrenches; "
           "contacts that are not restricted; contacts that cannot be used")
g = d.rng.g
KINDS = ["point", "upoint", "planar", "fixed", "line", "uline", "wrench", "puppet", "task"]


def admissible(c, kind, data):
    f = np.array(c.wrench).reshape(-1)
    sc = 1e-5 * (1 + np.abs(f).max())
    if kind == "wrench":
        d.eq(f, data["w"], "external wrench", 1e-6)
    if kind not in ("upoint", "planar", "uline"):
        return
    L = data.get("surface", np.eye(3)).T @ f[:3]
    d.true(L[2] >= -sc, kind + ": pushes away from the surface", wrench=f)
    for i in (0, 1):
        d.true(abs(L[i]) <= c.mu * L[2] + sc, kind + ": within the friction cone", wrench=f, mu=c.mu, axis=i)
    if kind == "planar":
        d.true(abs(f[4]) <= c.length / 2 * f[2] + sc, "planar: centre of pressure within the length", wrench=f)
        d.true(abs(f[3]) <= c.width / 2 * f[2] + sc, "planar: centre of pressure within the width", wrench=f)
    if kind == "uline":
        d.true(abs(f[3]) <= c.length / 2 * L[2] + sc, "line: centre of pressure within the length", wrench=f)


def zmp(c, kind, data):
    f = np.array(c.wrench).reshape(-1)
    if kind in ("planar", "fixed") and abs(f[2]) > 1e-2:
        d.eq(c.zmp(), [-f[4] / f[2], f[3] / f[2], 0], "centre of pressure of a planar contact", 1e-9)
        # the moment of the wrench about that point has no tangential component
        p = np.array(c.zmp())
        m = f[3:] - np.cross(p, f[:3])
        d.eq(m[:2], [0, 0], "no tangential moment about the centre of pressure", 1e-6)
    if kind in ("line", "uline"):
        z = (data["surface"].T @ f[:3])[2]
        if abs(z) > 1e-2:
            d.eq(c.zmp(), [-f[3] / z, 0, 0], "centre of pressure of a line contact", 1e-9)


@d.test
def forces():
    for i in range(d.n(140)):
        h = Dyn(g)
        r, s = h.r, h.s
        for k in range(g.integers(1, 4)):
            c = h.add_contact(KINDS[i % len(KINDS)] if k == 0 else None)[0]
            if k == 0 and g.random() < .3:
                c.weight_tangentials = float(g.choice([1., 10.]))
        if len(h.contacts) == 1 and g.random() < .5:
            c = h.contacts[0][0]
            w = g.integers(0, 3)
            if w == 0 or h.contacts[0][1] in ("fixed", "planar"):
                setattr(c, ["weight_forces", "weight_moments", "weight_tangentials"][w], 0.)
        s.extra_force = np.concatenate([g.normal(size=6) * float(g.choice([1., 20., 100.])), g.normal(size=r.n)])
        d.case([(k, c.mu, c.weight_forces, c.weight_tangentials, c.weight_moments) for c, k, _ in h.contacts])
        h.update()
        q, A, b, act = h.stated()
        if not q.conditioned(1e-3):
            continue
        try:
            want = q.solve()
        except RuntimeError:
            continue
        res = s.solve(False)
        if not d.true(res.success, "a feasible problem is solved"):
            continue
        x = np.concatenate([np.array(res.qdd)] + [np.array(c.wrench).reshape(-1) for c, *_ in act])
        sc = 1 + np.abs(want).max()
        d.eq(x / sc, want / sc, "optimum with the stated admissible forces and penalties", 3e-3)
        for c, kind, data in h.contacts:
            admissible(c, kind, data)
            zmp(c, kind, data)


@d.test
def errors():
    for _ in range(d.n(10)):
        h = Dyn(g)
        s = h.s
        d.case("planar without size")
        c = h.add_contact("planar")[0]
        l, w = c.length, c.width
        for l1, w1 in ((0., w), (l, 0.), (0., 0.)):
            c.length, c.width = l1, w1
            d.throws(lambda: s.solve(False), "planar contact without a size")
        c.length, c.width = l, w
        s.solve(False)
        h = Dyn(g)
        s = h.s
        d.case("line without size")
        c = h.add_contact("uline")[0]
        c.length = 0.
        d.throws(lambda: s.solve(False), "line contact without a length")
        h = Dyn(g)
        s = h.s
        d.case("fixed and bilateral contacts need no size")
        h.add_contact("fixed")[0].length = 0.
        h.add_contact("line")[0].length = 0.
        s.solve(False)
        h = Dyn(g)
        s = h.s
        d.case("masked point")
        c = h.add_contact("point")[0]
        c.position_task().mask.set_axises("xy", "task")
        d.throws(lambda: s.solve(False), "point contact on a masked task")
        h = Dyn(g)
        s = h.s
        d.case("line with full orientation")
        c = h.add_contact("line")[0]
        c.orientation_task().mask.set_axises("xyz", "task")
        d.throws(lambda: s.solve(False), "line contact on a full orientation")
        d.throws(lambda: s.add_external_wrench_contact("base", "nope"), "unknown reference")
        d.throws(lambda: s.add_external_wrench_contact("nope", "world"), "unknown frame")


d.run()
