"""Contracts of WalkTasks and DummyWalk (C27)."""
from spec import *
import kin_tasks, utils, humanoid, robot, wpg
from robot import pose, known_frame, frame_index, floating, with_fbase, moved
from utils import flatten, vec
from wpg import HU, Query, foot_pose, com_at, evaluated, trunk_rotation, LEFT, RIGHT, F, splines

WK, DW = HU + "WalkTasks", HU + "DummyWalk"


def settled(c, w):
    """the tasks are those of the mode (switching modes creates and removes tasks: bounded run)"""
    c.requires(IMP(w.trunk_mode, AND(NOT(is_null(w.trunk_task)), is_null(w.com_task))))
    c.requires(IMP(NOT(w.trunk_mode), AND(NOT(is_null(w.com_task)), is_null(w.trunk_task))))
    l, r = w.left_foot_task, w.right_foot_task
    feet = [l.position, r.position, l.orientation, r.orientation]
    c.requires(*[NOT(is_null(x)) for x in feet])
    g = feet + [w.trunk_orientation_task, w.trunk_task, w.com_task]
    c.requires(*[NOT(eq(g[i].obj, g[j].obj)) for i in range(7) for j in range(i)])
    c.requires(NOT(is_null(w.trunk_orientation_task)), NOT(is_null(w.robot)), NOT(is_null(w.solver)))


def is_null(p):
    return eq(p.obj, T.lit("null", "Obj"))


@contract(WK + "::update_tasks", "Affine3d,Affine3d,Vector3d,Matrix3d", "C27")
def _(c):
    w = c.this
    settled(c, w)
    TL, TR, com, R = c.args
    targets(c, w, TL, TR, com, R)


def targets(c, w, TL, TR, com, R):
    tr = frame_index(w.robot, T.lit("trunk"))
    c.throws(NOT(known_frame(w.robot, T.lit("trunk"))))
    Rt = pose(w.robot, tr).linear
    goal = Mat(3, 1, lambda i, j: com(i) + Rt(i, 0) * w.com_x + Rt(i, 1) * w.com_y)
    for k, X in (("left_foot_task", TL), ("right_foot_task", TR)):
        f = getattr(w, k)
        c.set(f.position, "target_world", X.translation)
        c.set(f.orientation, "R_world_frame", X.linear)
    c.set(w.trunk_orientation_task, "R_world_frame", R)
    for t, cond in ((w.trunk_task, w.trunk_mode), (w.com_task, NOT(w.trunk_mode))):
        old = t.target_world
        c.set(t, "target_world", Mat(3, 1, lambda i, j, old=old, cond=cond: ite(cond, goal(i), old(i))))


@contract(DW + "::translation", "double,double,double", "C27")
def _(c):
    c.returns(affine(ident(3), vec(*c.args)))


def carry(M, X):
    return flatten(aff_mul(M, X))


@contract(DW + "::update_T_world_support", "Affine3d", "C27")
def _(c):
    w = c.this
    left = w.support_left
    r = w.robot
    floating(c, r)
    for n in ("left_foot", "right_foot"):
        c.requires(known_frame(r, T.lit(n)))
    L, R, N = w.T_world_left, w.T_world_right, w.T_world_next
    S = affine(Mat(3, 3, lambda i, j: ite(left, L.linear(i, j), R.linear(i, j))), Mat(3, 1, lambda i, j: ite(left, L.translation(i), R.translation(i))))
    M = aff_mul(flatten(c.arg(0)), aff_inv(S))
    l, r_, n = carry(M, L), carry(M, R), carry(M, N)
    c.set(w, "T_world_left", l)
    c.set(w, "T_world_right", r_)
    c.set(w, "T_world_next", n)
    a, b = with_fbase(r.state.q, r, moved(r, frame_index(r, T.lit("left_foot")), l)), with_fbase(r.state.q, r, moved(r, frame_index(r, T.lit("right_foot")), r_))
    c.set(r.state, "q", Mat(a.rows, 1, lambda i, j: ite(left, a(i), b(i))))


def from_trajectory(c, w, tr, t, com_shift=None):
    """feet and trunk at t, centre of mass at t + delay"""
    q, qc = Query(c, t, tr), Query(c, t + w.com_delay, tr)
    TL, TR = foot_pose(q, LEFT), foot_pose(q, RIGHT)
    evaluated(c, tr.trunk_yaw)
    R = trunk_rotation(tr, t)
    com = com_at(qc, 0)
    if com_shift:
        base = com
        com = vec(base(0) + com_shift(0), base(1) + com_shift(1), base(2))
    for a in wpg.swing.AX:
        sp = getattr(q.part.swing_trajectory, a)
        f = OR(q.flying(LEFT), q.flying(RIGHT))
        old = F(sp)["_splines"]
        c.set(sp, "dirty", AND(sp.dirty, NOT(f)))
        c.set(sp, "_splines", merge(f, splines(F(sp)), raw(old)))
    targets(c, w, TL, TR, com, R)


@contract(WK + "::update_tasks", "Trajectory,double", "C27")
def _(c):
    settled(c, c.this)
    from_trajectory(c, c.this, c.arg(0), c.arg(1))


@contract(WK + "::update_tasks_and_pid", "Trajectory,double,Vector2d,double,double", "C27")
def _(c):
    w = c.this
    settled(c, w)
    tr, t, dcm, om, dt = c.args
    c.requires(NOT(eq(om, 0)), NOT(eq(dt, 0)))
    qc = Query(c, t + w.com_delay, tr)
    p, v = com_at(qc, 0), com_at(qc, 1)
    e = Mat(2, 1, lambda i, j: dcm(i) - (p(i) + inv(om) * v(i)))
    I = Mat(2, 1, lambda i, j: (1 - getattr(w, "lambda")) * w.integral(i) + e(i) * dt)
    D = Mat(2, 1, lambda i, j: (e(i) - w.last_error(i)) * inv(dt))
    off = Mat(2, 1, lambda i, j: w.K_p * e(i) + w.K_i * I(i) + w.K_d * D(i))
    c.set(w, "integral", I)
    c.set(w, "last_error", e)
    from_trajectory(c, w, tr, t, off)
