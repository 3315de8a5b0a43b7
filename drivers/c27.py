"""Walk tasks and the dummy walk: the targets given to the solver and the robot they lead to."""
import numpy as np, placo
from common import Driver
from walk import *
import robots
from robots import exp3, log3

d = Driver("humanoid robots with walk tasks (histories of target updates, centre-of-mass/trunk modes, offsets, removal, trajectories, initial poses, feedback) and dummy walks "
           "(random steps, phases and support updates)")
rng = d.rng
g = rng.g


def T_of(r, f):
    return np.array(r.get_T_world_frame(f))


def stand(r, knee=.6):
    for s in ("left", "right"):
        r.set_joint(s + "_hip_pitch", -knee / 2)
        r.set_joint(s + "_knee", knee)
        r.set_joint(s + "_ankle_pitch", -knee / 2)
    r.update_kinematics()
    r.ensure_on_floor()


def target(r, w, trunk):
    return np.array((w.trunk_task if trunk else w.com_task).target_world)


def check_tasks(r, s, w, scaled, TL, TR, com, Rt, what):
    """the tasks of the walk and their targets"""
    trunk = bool(w.trunk_mode)
    d.eq(s.tasks_count(), 6, what + ": number of tasks")
    d.eq(np.array(w.left_foot_task.T_world_frame), TL, what + ": target of the left foot", 1e-9)
    d.eq(np.array(w.right_foot_task.T_world_frame), TR, what + ": target of the right foot", 1e-9)
    d.eq(np.array(w.trunk_orientation_task.R_world_frame), Rt, what + ": target of the trunk", 1e-9)
    if com is not None:
        d.eq(target(r, w, trunk), com, what + ": target of the centre of mass", 1e-9)
    for t, n in ((w.left_foot_task.position(), "left_foot"), (w.left_foot_task.orientation(), "left_foot"),
                 (w.right_foot_task.position(), "right_foot"), (w.right_foot_task.orientation(), "right_foot"), (w.trunk_orientation_task, "trunk")) + (
                     ((w.trunk_task, "trunk"),) if trunk else ()):
        d.eq(t.frame_index, r.get_frame_index(n) if hasattr(r, "get_frame_index") else t.frame_index, what + ": frame of a task")


@d.test
def tasks():
    for it in range(d.n(6)):
        r = make_humanoid(int(g.integers(0, 2)))
        stand(r, float(g.uniform(.3, 1.2)))
        s = placo.KinematicsSolver(r)
        w = placo.WalkTasks()
        w.scaled = bool(g.random() < .3)
        w.trunk_mode = bool(g.random() < .4)
        d.case("tasks %d" % it)
        w.initialize_tasks(s, r)
        check_tasks(r, s, w, w.scaled, T_of(r, "left_foot"), T_of(r, "right_foot"),
                    T_of(r, "trunk")[:3, 3] if w.trunk_mode else np.array(r.com_world()), T_of(r, "trunk")[:3, :3], "initial")
        for k in range(5):
            d.case("tasks %d.%d" % (it, k))
            w.trunk_mode = bool(g.random() < .5)
            w.com_x, w.com_y = float(g.normal() * .05), float(g.normal() * .05)
            if g.random() < .5:
                r.set_T_world_fbase(robots.pose(exp3(g.normal(size=3) * .2), g.normal(size=3)))
                r.update_kinematics()
            TL, TR = [robots.pose(exp3(g.normal(size=3) * .3), g.normal(size=3)) for _ in range(2)]
            com, Rt = g.normal(size=3), exp3(g.normal(size=3) * .3)
            off = T_of(r, "trunk")[:3, :3] @ np.array([w.com_x, w.com_y, 0.])
            w.update_tasks(TL, TR, com, Rt)
            check_tasks(r, s, w, w.scaled, TL, TR, com + off, Rt, "update")
            s.solve(False)
            e = w.get_tasks_error()
            want = {"left_foot_position": TL[:3, 3] - T_of(r, "left_foot")[:3, 3], "right_foot_position": TR[:3, 3] - T_of(r, "right_foot")[:3, 3],
                    ("trunk_position" if w.trunk_mode else "com_position"): com + off - (T_of(r, "trunk")[:3, 3] if w.trunk_mode else np.array(r.com_world()))}
            for n, T in (("left_foot", TL[:3, :3]), ("right_foot", TR[:3, :3]), ("trunk", Rt)):
                want[n + "_orientation"] = (w.trunk_orientation_task if n == "trunk" else w.left_foot_task.orientation() if n == "left_foot" else w.right_foot_task.orientation()).error().flatten()
            d.true(sorted(e.keys()) == sorted(n + "_" + c for n in want for c in "xyz"), "names of the errors", names=sorted(e.keys()))
            for n, v in want.items():
                d.eq(np.array([e[n + "_" + c] for c in "xyz"]), np.array(v), "error " + n, 1e-8)
            # reading the solver leaves it alone
            x = w.solver
            del x
            d.eq(s.tasks_count(), 6, "reading the solver")
            s.solve(False)
        w.remove_tasks()
        d.eq(s.tasks_count(), 0, "tasks removed")
        if g.random() < .5:
            w.initialize_tasks(s, r)
            check_tasks(r, s, w, w.scaled, T_of(r, "left_foot"), T_of(r, "right_foot"), None, T_of(r, "trunk")[:3, :3], "initialised again")


@d.test
def trajectories():
    r = make_humanoid()
    for it in range(d.n(2)):
        p = parameters(g)
        _, sup, T = walk(g, p)
        wpg = placo.WalkPatternGenerator(r, p)
        tr = wpg.plan(sup, (T @ np.array([0, 0, p.walk_com_height, 1.]))[:3], 0.)
        s = placo.KinematicsSolver(r)
        w = placo.WalkTasks()
        w.initialize_tasks(s, r)
        for t in g.uniform(-.2, tr.t_end + .2, size=8):
            t = float(t)
            d.case("trajectory %d at %f" % (it, t))
            w.trunk_mode = bool(g.random() < .3)
            w.update_tasks_from_trajectory(tr, t)
            check_tasks(r, s, w, False, np.array(tr.get_T_world_left(t)), np.array(tr.get_T_world_right(t)), np.array(tr.get_p_world_CoM(t)),
                        np.array(tr.get_R_world_trunk(t)), "trajectory")
        w.remove_tasks()


@d.test
def initial_pose():
    for it in range(d.n(3)):
        r = make_humanoid()
        stand(r)
        s = placo.KinematicsSolver(r)
        s.enable_joint_limits(False)
        w = placo.WalkTasks()
        w.initialize_tasks(s, r)
        T = T2(*g.uniform(-1, 1, size=2), 0., g.uniform(-1, 1))
        sp, h, pitch = float(g.uniform(.12, .2)), float(g.uniform(.28, .33)), float(g.uniform(-.2, .2))
        d.case("initial pose %d" % it)
        w.reach_initial_pose(T, sp, h, pitch)
        r.update_kinematics()
        TR = T @ T2(0, -sp, 0, 0)
        com = (T @ np.array([0, -sp / 2, 0, 1.]))[:3]
        com[2] = h
        Rt = rz(yaw(T)) @ ry(pitch)
        check_tasks(r, s, w, False, T, TR, com, Rt, "initial pose")
        d.eq(T_of(r, "left_foot"), T, "left foot", 1e-3)
        d.eq(T_of(r, "right_foot"), TR, "right foot", 1e-3)
        d.eq(T_of(r, "trunk")[:3, :3], Rt, "orientation of the trunk", 1e-3)
        d.eq(np.array(r.com_world()), com, "centre of mass", 1e-3)


def mid(A, B, t):
    return robots.pose(A[:3, :3] @ exp3(log3(A[:3, :3].T @ B[:3, :3]) * t), A[:3, 3] * (1 - t) + B[:3, 3] * t)


def lift(p, t):
    a, b, h = .5 - p.walk_foot_rise_ratio / 2, .5 + p.walk_foot_rise_ratio / 2, p.walk_foot_height
    if t < a:
        x = t / a
    elif t <= b:
        x = 1.
    else:
        x = (1 - t) / (1 - b)
    return h * (3 * x**2 - 2 * x**3)


def dummy(it):
    p = parameters(g)
    p.walk_com_height = float(g.uniform(.40, .46))
    p.walk_trunk_pitch = float(g.uniform(-.2, .2))
    p.walk_foot_height = float(g.uniform(.02, .05))
    p.walk_foot_rise_ratio = float(g.choice([.2, .5]))
    p.feet_spacing = float(g.uniform(.12, .18))
    r = make_humanoid()
    d.case("dummy walk %d" % it)
    for s_ in ("left", "right"):
        for n, v in (("hip_pitch", -.4), ("knee", .8), ("ankle_pitch", -.4)):
            r.set_joint(s_ + "_" + n, v)
    return p, r, placo.DummyWalk(r, p)


def next_of(p, w, dx, dy, da, left):
    q = placo.FootstepsPlannerRepetitive(p)
    q.configure(dx, dy, da, 2)
    return np.array(q.plan(R if left else L, np.array(w.T_world_left), np.array(w.T_world_right))[2].frame)


@d.test
def dummies():
    for it in range(d.n(3)):
        p, r, w = dummy(it)
        h = p.feet_spacing / 2
        left = bool(g.random() < .5)
        w.reset(left)
        d.eq(bool(w.support_left), left, "support after a reset")
        TL, TR = T2(0, h, 0, 0), T2(0, -h, 0, 0)
        for k in range(5):
            d.case("dummy walk %d, step %d" % (it, k))
            d.eq(np.array(w.T_world_left), TL, "left foot at the beginning of the step", 1e-9)
            d.eq(np.array(w.T_world_right), TR, "right foot at the beginning of the step", 1e-9)
            dx, dy, da = (0., 0., 0.) if not k else cmd
            TN = next_of(p, w, dx, dy, da, left)
            d.eq(np.array(w.T_world_next), TN, "next footstep", 1e-9)
            d.eq([w.dx, w.dy, w.dtheta], [dx, dy, da], "order of the step")
            if g.random() < .4:
                TS = robots.pose(exp3(g.normal(size=3) * .2), g.normal(size=3) * .1)
                w.update_T_world_support(TS)
                M = T2(TS[0, 3], TS[1, 3], 0., yaw(TS)) @ np.linalg.inv(TL if left else TR)
                TL, TR, TN = M @ TL, M @ TR, M @ TN
                d.eq(np.array(w.T_world_left), TL, "left foot after an update of the support", 1e-8)
                d.eq(np.array(w.T_world_right), TR, "right foot after an update of the support", 1e-8)
                d.eq(np.array(w.T_world_next), TN, "next footstep after an update of the support", 1e-8)
                d.eq(T_of(r, "left_foot" if left else "right_foot"), TL if left else TR, "the robot stands on its support", 1e-8)
            t = float(g.choice([0., 1., .3, .5, .75]))
            for _ in range(8):
                w.update(t)
            r.update_kinematics()
            A, B = (TR, TN) if left else (TL, TN)
            F = mid(A, B, t)
            F[2, 3] = lift(p, t)
            tl, tr = (TL, F) if left else (F, TR)
            d.eq(np.array(w.T_world_left), TL, "left foot during the step", 1e-9)
            d.eq(np.array(w.T_world_right), TR, "right foot during the step", 1e-9)
            d.eq(T_of(r, "left_foot"), tl, "left foot reached", 2e-3, t=t)
            d.eq(T_of(r, "right_foot"), tr, "right foot reached", 2e-3, t=t)
            M = mid(T2(tl[0, 3], tl[1, 3], 0, yaw(tl)), T2(tr[0, 3], tr[1, 3], 0, yaw(tr)), .5)
            W = M @ T2(.05, 0, p.walk_com_height, 0) @ robots.pose(ry(p.walk_trunk_pitch), np.zeros(3))
            d.eq(T_of(r, "trunk"), W, "trunk reached", 2e-3, t=t)
            cmd = (float(g.uniform(-.06, .1)), float(g.uniform(-.04, .04)), float(g.uniform(-.2, .2)))
            w.next_step(*cmd)
            if left:
                TR = TN
            else:
                TL = TN
            left = not left
            d.eq(bool(w.support_left), left, "the support changes")


def urdf_run():
    import tempfile, os, shutil
    tmp = tempfile.mkdtemp(prefix="verifc27")
    try:
        p = os.path.join(tmp, "r.urdf")
        with open(p, "w") as f:
            f.write(humanoid())
        d.cpp("c27", [p])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@d.test
def feedback():
    urdf_run()


d.run()
