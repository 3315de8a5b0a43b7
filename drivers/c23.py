"""Queries of planned walks against an independent statement of the walk."""
import numpy as np, placo
from common import Driver
from walk import *
import robots

d = Driver("walks of 2-6 random footsteps with random parameters (with and without double supports): every query at times before, inside (parts and boundaries) and after "
           "the trajectory, in random order and repeatedly, before and after rigid transforms")
rng = d.rng
g = rng.g
robot = make_humanoid()


def planned():
    p = parameters(g)
    _, sup, T = walk(g, p)
    wpg = placo.WalkPatternGenerator(robot, p)
    t0 = float(g.choice([0., 3.25, -2.]))
    com = (T @ np.array([g.uniform(-.01, .01), g.uniform(-.01, .01), p.walk_com_height, 1.]))[:3]
    tr = wpg.plan(sup, com, t0)
    return p, sup, wpg, tr, Plan(p, sup, t0, com[:2])


def transform():
    return robots.pose(robots.rand_rot(g), g.normal(size=3)) if g.random() < .5 else T2(*g.normal(size=3), g.uniform(-3, 3))


@d.test
def queries():
    for it in range(d.n(6)):
        p, sup, wpg, tr, pl = planned()
        d.case("walk %d of %d supports" % (it, len(pl.parts)))
        for rep in range(3):
            for t in times(g, pl, 12):
                compare(d, tr, pl, float(t), "queries")
            if rep:
                M = transform()
                tr.apply_transform(M)
                pl.T = M @ pl.T
        got = tr.get_supports()
        d.eq(len(got), len(pl.parts), "number of supports")
        for a, q in zip(got, pl.parts):
            d.true(same_support(a, q["s"], pl.T), "list of supports")


@d.test
def nothing():
    tr = placo.WPGTrajectory(.3, 0., 0., 0.)
    d.case("no part")
    for f in (tr.get_p_world_CoM, tr.get_T_world_left, tr.get_support, tr.support_is_both, tr.get_part_t_end):
        d.throws(lambda: f(0.), "a trajectory without parts answers")


d.run()
