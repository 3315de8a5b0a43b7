"""Contracts of HumanoidRobot (C26), over those of the robot (C22) and the floor utilities (C11)."""
from spec import *
import robot, utils
from robot import RW, pose, known_frame, frame_index, floating, fbase, with_fbase, moved, opaque, nv, sized
from utils import flatten, vec

HR = "placo::humanoid::HumanoidRobot"
HEAP.update([HR])
LEFT, RIGHT = 0, 1


@contract(HR + "::string_to_side", "string", "C26")
def _(c):
    c.returns(side_named(c.arg(0)))


def side_named(s):
    return ite(eq(s, T.lit("right")), RIGHT, LEFT)


@contract(HR + "::other_side", "Side", "C26")
def _(c):
    c.returns(ite(eq(c.arg(0), LEFT), RIGHT, LEFT))


for _n, _f in (("left", "left_foot"), ("right", "right_foot"), ("trunk", "trunk")):
    @contract(HR + "::get_T_world_" + _n, "", "C26")
    def _(c, _f=_f):
        c.returns(pose(c.this, getattr(c.this, _f)))


def switch(c, side, frame):
    """a new support frame is flattened where it is; the current one is kept as it is"""
    w = c.this
    new = NOT(eq(frame, w.support_frame))
    T0, T1 = w.T_world_support, flatten(pose(w, frame))
    c.set(w, "support_frame", frame)
    c.set(w, "support_side", ite(new, side, w.support_side))
    c.set(w, "T_world_support", affine(Mat(3, 3, lambda i, j: ite(new, T1.linear(i, j), T0.linear(i, j))),
                                       Mat(3, 1, lambda i, j: ite(new, T1.translation(i), T0.translation(i)))))


@contract(HR + "::update_support_side", "Side,FrameIndex", "C26")
def _(c):
    switch(c, c.arg(0), c.arg(1))


def foot(w, side):
    return ite(eq(side, LEFT), w.left_foot, w.right_foot)


@contract(HR + "::update_support_side", "Side", "C26")
def _(c):
    switch(c, c.arg(0), foot(c.this, c.arg(0)))


@contract(HR + "::update_support_side", "string", "C26")
def _(c):
    s = side_named(c.arg(0))
    switch(c, s, foot(c.this, s))


@contract(HR + "::update_support_side", "string,string", "C26")
def _(c):
    w = c.this
    c.throws(NOT(known_frame(w, c.arg(1))))
    switch(c, side_named(c.arg(0)), frame_index(w, c.arg(1)))


@contract(RW + "::update_kinematics", "", "", trusted=True)
def _(c):
    """brings the poses up to date with the configuration: the poses these contracts speak about are those of the configuration on entry"""


@contract(HR + "::ensure_on_floor", "", "C26")
def _(c):
    w = c.this
    floating(c, w)
    c.set(w.state, "q", with_fbase(w.state.q, w, moved(w, w.support_frame, w.T_world_support)))


for _f in ("ensure_on_floor_oriented", "update_from_imu"):
    @contract(HR + "::" + _f, "Matrix3d", "C26")
    def _(c):
        w = c.this
        floating(c, w)
        a, b = pose(w, w.trunk).linear, pose(w, w.support_frame).linear
        X = affine(matmul(c.arg(0), matmul(a.T, b)), w.T_world_support.translation)
        c.set(w, "T_world_support", X)
        c.set(w.state, "q", with_fbase(w.state.q, w, moved(w, w.support_frame, X)))


for _f, _k in (("dcm", 1), ("zmp", -2)):
    @contract(HR + "::" + _f, "double,Vector2d", "C26")
    def _(c, _k=_k):
        w, om, v = c.this, c.arg(0), c.arg(1)
        c.requires(NOT(eq(om, 0)))
        x = opaque(w, "com_world", 3, 1)
        c.returns(Mat(2, 1, lambda i, j: x(i, 0) + v(i) / om if _k == 1 else x(i, 0) - v(i) / (om * om)))
