"""Planned and replanned walks against an independent statement of the planning problem."""
import numpy as np, placo
from common import Driver
from walk import *
import robots

d = Driver("walks of 2-6 random footsteps with random parameters, planned, replanned up to three times at random times (new footsteps, time ratios, infeasible targets): "
           "timings, zero-moment points, continuity, swing feet, supports, failed replans")
rng = d.rng
g = rng.g
robot = make_humanoid()


def sup_list(xs):
    v = placo.Supports()
    for x in xs:
        v.append(x)
    return v


def inside(poly, margin, x):
    """signed distances to the edges of a polygon (either orientation), less the margin"""
    P_ = np.array(poly)
    c = P_.mean(axis=0)
    out = []
    for a, b in zip(P_, np.roll(P_, -1, axis=0)):
        n = np.array([-(b - a)[1], (b - a)[0]])
        l = np.linalg.norm(n)
        if l < 1e-9:
            continue
        n /= l
        if n @ (c - a) < 0:
            n = -n
        out.append(n @ (x - a) - margin)
    return min(out)


def admissible(tr, pl, what):
    """the guarantees of a plan, stated on the answers of the trajectory"""
    d.eq(tr.t_start, pl.t0, what + ": start", 1e-9)
    d.eq(tr.t_end, pl.t1, what + ": end", 1e-9)
    sup = tr.get_supports()
    d.eq(len(sup), len(pl.parts), what + ": number of parts")
    w = pl.w
    for a, q in zip(sup, pl.parts):
        m = (q["t0"] + q["t1"]) / 2
        d.eq(tr.get_part_t_start(m), q["t0"], what + ": start of a part", 1e-9)
        d.eq(tr.get_part_t_end(m), q["t1"], what + ": end of a part", 1e-9)
        for k in range(1, q["n"] + 1):
            t = q["t0"] + k * q["dt"]
            z = np.array(tr.get_p_world_ZMP(t, w))
            d.true(inside(q["poly"], pl.p.zmp_margin, z) > -1e-5, what + ": the zero-moment point leaves the support", t=t, zmp=z, polygon=[x.tolist() for x in q["poly"]])
        d.eq(np.array(a.target_world_dcm), np.array(tr.get_p_world_DCM(q["t1"], w)), what + ": dcm target of the support", 1e-5)
        # continuity at the end of the part
        e = 1e-8
        for f in (tr.get_p_world_CoM, tr.get_v_world_CoM, tr.get_a_world_CoM):
            d.eq(np.array(f(q["t1"] - e)), np.array(f(q["t1"] + e)), what + ": continuity of the centre of mass", 1e-5)
        for f in (tr.get_T_world_left, tr.get_T_world_right, tr.get_R_world_trunk):
            d.eq(np.array(f(q["t1"] - e)), np.array(f(q["t1"] + e)), what + ": continuity of a frame", 1e-5)
        for s in (L, R):
            if any(f.side == s for f in q["s"].footsteps):
                F = frame_of(q["s"], s)
                for t in (q["t0"] + e, (q["t0"] + q["t1"]) / 2, q["t1"] - e):
                    got = np.array((tr.get_T_world_left if s == L else tr.get_T_world_right)(t))
                    d.eq(got[:3, 3], F[:3, 3], what + ": the supporting foot stays", 1e-6)
                    d.eq(np.array(yaw(got)), np.array(yaw(F)), what + ": yaw of the supporting foot", 1e-6)
    last = pl.parts[-1]
    if last["s"].end:
        F = np.array(last["s"].frame())
        d.eq(np.array(tr.get_p_world_CoM(pl.t1))[:2], F[:2, 3], what + ": final position", 1e-5)
        d.eq(np.array(tr.get_v_world_CoM(pl.t1)), np.zeros(3), what + ": final speed", 1e-4)
        d.eq(np.array(tr.get_a_world_CoM(pl.t1)), np.zeros(3), what + ": final acceleration", 1e-3)


def plan():
    p = parameters(g)
    pln, sup, T = walk(g, p)
    wpg = placo.WalkPatternGenerator(robot, p)
    t0 = float(g.choice([0., 3.25, -2.]))
    com = (T @ np.array([g.uniform(-.01, .01), g.uniform(-.01, .01), p.walk_com_height, 1.]))[:3]
    if g.random() < .3:
        # longer or shorter phases
        for s in sup:
            if g.random() < .4:
                s.time_ratio = float(g.uniform(.8, 1.4))
    tr = wpg.plan(sup, com, t0)
    pl = Plan(p, sup, t0, com[:2])
    t = t0
    for s, q in zip(sup, pl.parts):
        d.eq(s.t_start, q["t0"], "start time given to the supports", 1e-9)
    return p, pln, sup, wpg, tr, pl


@d.test
def plans():
    for it in range(d.n(5)):
        p, pln, sup, wpg, tr, pl = plan()
        d.case("plan %d of %d supports" % (it, len(pl.parts)))
        d.eq(bool(tr.replan_success), True, "a plan succeeded")
        d.eq(tr.com_target_z, p.walk_com_height, "height of the centre of mass")
        d.eq(tr.trunk_pitch, p.walk_trunk_pitch, "pitch")
        for s in sup:
            d.eq(wpg.support_default_timesteps(s), steps_of(p, s), "timesteps of a support")
            d.eq(wpg.support_default_duration(s), duration_of(p, s), "duration of a support", 1e-9)
        d.eq(np.array(tr.get_v_world_CoM(pl.t0)), np.zeros(3), "starts at rest", 1e-9)
        admissible(tr, pl, "plan")
        for t in times(g, pl, 10):
            compare(d, tr, pl, float(t), "plan")


@d.test
def softly():
    for it in range(d.n(2)):
        p = parameters(g)
        _, sup, T = walk(g, p)
        wpg = placo.WalkPatternGenerator(robot, p)
        wpg.soft = True
        wpg.zmp_in_support_weight, wpg.stop_end_support_weight = float(g.choice([1e2, 1e3])), float(g.choice([1e2, 1e3]))
        com = (T @ np.array([.2, .1, p.walk_com_height, 1.]))[:3]
        d.case("soft plan %d" % it)
        tr = wpg.plan(sup, com, 0.)
        pl = Plan(p, sup, 0., com[:2], soft=(wpg.zmp_in_support_weight, wpg.stop_end_support_weight))
        for t in times(g, pl, 8):
            d.eq(np.array(tr.get_p_world_CoM(float(t))), pl.com(float(t), 0), "soft plan", 1e-4, t=t)


@d.test
def no_support():
    p = parameters(g)
    wpg = placo.WalkPatternGenerator(robot, p)
    d.case("no support")
    d.throws(lambda: wpg.plan(placo.Supports(), np.zeros(3), 0.), "a plan without supports")


def stepping(pl, t):
    i = pl.index(t)
    s, n = pl.parts[i]["s"], pl.parts[min(i + 1, len(pl.parts) - 1)]["s"]
    return not (s.end or s.start or n.end or len(s.footsteps) == 2)


@d.test
def replans():
    for it in range(d.n(6)):
        p, pln, sup, wpg, tr, pl = plan()
        last = pl.t0
        for rep in range(3):
            ts = [float(x) for x in g.uniform(pl.t0, pl.t1, size=20)]
            for t in ts:
                if not pl.near(t, 1e-3):
                    d.eq(bool(wpg.can_replan_supports(tr, t)), stepping(pl, t), "can_replan_supports", t=t)
            ts = [t for t in ts if stepping(pl, t) and not pl.near(t, .04) and t > pl.t0 + .04 and pl.at(t)["t1"] - t > .1]
            if not ts:
                bad = [t for t in g.uniform(pl.t0, pl.t1, size=5) if not stepping(pl, t) and not pl.near(t, 1e-3)]
                for t in bad:
                    d.throws(lambda: wpg.replan_supports(pln, tr, float(t), last), "replanning the supports where it is impossible")
                break
            t = ts[0]
            d.case("replan %d.%d at %f" % (it, rep, t))
            q = pl.at(t)
            cur, nxt = q["s"], pl.parts[pl.index(t) + 1]["s"]
            pln = planner(g, p, int(g.integers(3, 6)))
            new = wpg.replan_supports(pln, tr, t, last)
            # the current support, then steps of the planner from the next one
            s0 = side_of(cur)
            d.true(len(new[0].footsteps) == 1 and side_of(new[0]) == s0, "the current support is kept", t=t)
            d.eq(np.array(new[0].footsteps[0].frame), np.array(cur.footsteps[0].frame), "the current footstep is kept", 1e-9, t=t)
            d.true(not new[0].start and bool(new[len(new) - 1].end), "flags of the new supports")
            ratio = cur.elapsed_ratio + (t - max(last, cur.t_start)) / (duration_of(p, cur) * cur.time_ratio)
            d.eq(new[0].elapsed_ratio, ratio, "elapsed ratio", 1e-9, t=t, last=last)
            d.eq(new[0].time_ratio, cur.time_ratio, "time ratio", 1e-12)
            d.eq(new[0].t_start, cur.t_start, "start of the current support", 1e-9)
            TL = frame_of(cur, L) if s0 == L else frame_of(nxt, L)
            TR = frame_of(cur, R) if s0 == R else frame_of(nxt, R)
            want = placo.FootstepsPlanner.make_supports(pln.plan(s0, TL, TR), cur.t_start, False, p.has_double_support(), True)
            d.eq(len(new), len(want), "number of supports")
            for a, b in zip(new, want):
                d.true(len(a.footsteps) == len(b.footsteps) and all(f.side == h.side and np.allclose(np.array(f.frame), np.array(h.frame)) for f, h in zip(a.footsteps, b.footsteps)), "replanned footsteps")
            for s in list(new)[1:]:
                s.t_start = -1.
            if g.random() < .3:
                new[0].time_ratio = cur.time_ratio * float(g.uniform(.95, 1.3))
            # keep the first support's own time
            com = [pl.com(t, k)[:2] for k in range(3)]
            fail = g.random() < .25
            margin = p.zmp_margin
            if fail:
                p.zmp_margin = .5      # no room is left in the supports
            try:
                pl2 = Plan(p, new, t, *com, old=pl)
            except Exception:
                pl2 = None
            tr2 = wpg.replan(new, tr, t)
            p.zmp_margin = margin
            if pl2 is None or not tr2.replan_success:
                if (pl2 is None) != (not tr2.replan_success):
                    # the two solvers disagree about feasibility at the border: not decided
                    break
                keeps(tr, tr2, pl, t, p)
                break
            d.eq(np.array(tr2.get_p_world_CoM(t)), np.array(tr.get_p_world_CoM(t)), "continuity of the position", 1e-6, t=t)
            d.eq(np.array(tr2.get_v_world_CoM(t)), np.array(tr.get_v_world_CoM(t)), "continuity of the speed", 1e-5, t=t)
            d.eq(np.array(tr2.get_a_world_CoM(t)), np.array(tr.get_a_world_CoM(t)), "continuity of the acceleration", 1e-4, t=t)
            for f in ("get_T_world_left", "get_T_world_right", "get_R_world_trunk"):
                d.eq(np.array(getattr(tr2, f)(t)), np.array(getattr(tr, f)(t)), "continuity of " + f, 1e-5, t=t)
            for s in (L, R):
                d.eq(np.array(tr2.get_v_world_foot(s, t)), np.array(tr.get_v_world_foot(s, t)), "continuity of the speed of a foot", 1e-5, t=t)
            admissible(tr2, pl2, "replan")
            for x in times(g, pl2, 8):
                if x >= t:
                    compare(d, tr2, pl2, float(x), "replan")
            tr, pl, last = tr2, pl2, t


def keeps(tr, tr2, pl, t, p):
    """a failed replan: the old trajectory from t on"""
    d.case("failed replan at %f" % t)
    d.eq(bool(tr2.replan_success), False, "a failed replan is told")
    d.eq(tr2.t_start, t, "start of the trimmed trajectory", 1e-12)
    d.eq(tr2.t_end, tr.t_end, "end of the trimmed trajectory", 1e-12)
    i = pl.index(t)
    sup = tr2.get_supports()
    d.eq(len(sup), len(pl.parts) - i, "remaining parts")
    d.eq(tr2.get_part_t_start(t), t, "the current part starts at the replan", 1e-12)
    for a, q in zip(list(sup)[1:], pl.parts[i + 1:]):
        d.eq(tr2.get_part_t_start((q["t0"] + q["t1"]) / 2), q["t0"], "start of a kept part", 1e-9)
        d.true(same_support(a, q["s"]), "support of a kept part")
    s = pl.parts[i]["s"]
    d.eq(sup[0].elapsed_ratio, s.elapsed_ratio + (t - max(pl.t0, s.t_start)) / (duration_of(p, s) * s.time_ratio), "elapsed ratio of the trimmed part", 1e-9)
    for x in g.uniform(t, pl.t1 + .3, size=12):
        x = float(x)
        for f in ("get_p_world_CoM", "get_v_world_CoM", "get_a_world_CoM", "get_T_world_left", "get_T_world_right", "get_R_world_trunk"):
            d.eq(np.array(getattr(tr2, f)(x)), np.array(getattr(tr, f)(x)), "a failed replan changes " + f, 1e-9, t=x)


d.run()
