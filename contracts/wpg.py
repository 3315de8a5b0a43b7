"""Contracts of WalkPatternGenerator::Trajectory (C23), over those of the footsteps (C19), the centre-of-mass trajectory (C20) and the swing foot (C21)."""
from spec import *
import spline, swing, lipm, utils
from spline import F, GEN, increasing, named_value, splines
from footsteps import SU, FS, LEFT, RIGHT, other, foot_frame, carried, SUF
from utils import flatten, rot_z, atan2, vec
from lipm import tr_fields, tr_value, inv_trajectory

HU = "placo::humanoid::"
WT = HU + "WalkPatternGenerator::Trajectory"


def part_of(parts, t):
    """the part a query at t is answered from"""
    q = parts(P(GEN))
    return T.app("part_of", (parts.len, q.t_start, q.t_end, P(t)), "I")


def contains(parts, k, t):
    return AND(ge(k, 0), lt(k, parts.len), OR(eq(k, 0), le(parts(k).t_start, t)), OR(eq(k, parts.len - 1), le(t, parts(k).t_end)))


def tile(c, parts):
    """the parts follow each other in time"""
    i = T.var("$p", "I")
    c.requires(ge(parts.len, 0))
    c.requires(forall((i.atom(),), IMP(AND(ge(i, 0), lt(i, parts.len)), le(parts(i).t_start, parts(i).t_end))))
    c.requires(forall((i.atom(),), IMP(AND(ge(i, 0), lt(i + 1, parts.len)), eq(parts(i).t_end, parts(i + 1).t_start))))


@contract(HU + "_findPart", "vector<TrajectoryPart>,double,int*", "C23")
def _(c):
    parts, t = c.arg(0), c.arg(1)
    tile(c, parts)
    c.throws(eq(parts.len, 0))
    n = parts.len
    c.invariant("low high", lambda lo, hi: AND(ge(lo, 0), le(lo, hi), lt(hi, n), OR(eq(lo, 0), gt(t, parts(lo - 1).t_end)), OR(eq(hi, n - 1), lt(t, parts(hi).t_start))),
                variant=lambda lo, hi: hi - lo)
    if c.mode == "call":
        k = part_of(parts, t)
        c.returns(c._vals[0].at("i", k))
        c.assume(OR(eq(n, 0), contains(parts, k, t)))
        c.set_through(2, k)
        return
    if c.mode == "check" and c.result is not None:
        r = c.result
        k = r.path[-1][1] if isinstance(r, Loc) and r.cell == c._vals[0].cell and r.path and r.path[-1][0] == "i" and r.path[:-1] == c._vals[0].path else None
        if k is None:
            raise Unsupported("the result is not an element of the list")
        c.ensures("the part contains the time, or is the first or last one", lambda r, post: contains(parts, k, t))
        c.set_through(2, k)


class Query:
    """a query of a trajectory at some time"""

    def __init__(self, c, t, w=None):
        w = c.this if w is None else w
        self.c, self.t, self.w = c, t, w
        tile(c, w.parts)
        c.throws(eq(w.parts.len, 0))
        self.k = part_of(w.parts, t)
        self.part = w.parts(self.k)
        self.fs = self.part.support.footsteps
        # footsteps of the phase: one, or both feet
        fs = self.fs
        c.assume(OR(eq(fs.len, 1), AND(eq(fs.len, 2), NOT(eq(fs(0).side, fs(1).side)))), *[OR(eq(fs(i).side, LEFT), eq(fs(i).side, RIGHT)) for i in range(2)])
        c.assume(OR(eq(w.parts.len, 0), contains(w.parts, self.k, t)))
        self.both = eq(fs.len, 2)

    def flying(self, side):
        return AND(NOT(self.both), NOT(eq(self.fs(0).side, side)))

    def com(self, d):
        """derivative d of the horizontal coordinates of the centre of mass"""
        c = self.c
        out = []
        for a in ("x", "y"):
            s = tr_fields(getattr(self.part.com_trajectory, a))
            inv_trajectory(c, s)
            c.requires(eq(s["order"], 3))
            out.append(tr_value(s, self.t, P(d)))
        return out

    def swing(self, order):
        sw = self.part.swing_trajectory
        for a in swing.AX:
            evaluated(self.c, getattr(sw, a), write=False)
        return swing.named3(sw, self.t, order)

    def yaw(self, spline_, order=0):
        evaluated(self.c, spline_)
        return named_value(spline_, self.t, order)


def evaluated(c, sp, write=True, when=TRUE):
    """reading a spline only brings its cache up to date"""
    c.requires(increasing(F(sp)["_points"]))
    c.represents(sp, "_splines", splines(F(sp)), NOT(sp.dirty))
    if write:
        c.set(sp, "dirty", FALSE)
        c.set(sp, "_splines", splines(F(sp)))


def lin(M, v):
    return Mat(3, 1, lambda i, j: sum((M(i, k) * v[k] for k in range(3)), P(0)))


def com_at(q, d):
    x, y = q.com(d)
    T_ = q.w.T
    r = lin(T_.linear, [x, y, q.w.com_target_z if d == 0 else P(0)])
    return Mat(3, 1, lambda i, j: r(i) + T_.translation(i)) if d == 0 else r


for _n, _d in (("p", 0), ("v", 1), ("a", 2), ("j", 3)):
    @contract(WT + "::get_%s_world_CoM" % _n, "double", "C23")
    def _(c, _d=_d):
        c.returns(com_at(Query(c, c.arg(0)), _d))


@contract(WT + "::get_p_world_DCM", "double,double", "C23")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    q = Query(c, c.arg(0))
    p, v = com_at(q, 0), com_at(q, 1)
    c.returns(Mat(2, 1, lambda i, j: p(i) + inv(w) * v(i)))


@contract(WT + "::get_p_world_ZMP", "double,double", "C23")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    q = Query(c, c.arg(0))
    p, a = com_at(q, 0), com_at(q, 2)
    c.returns(Mat(2, 1, lambda i, j: p(i) - inv(w * w) * a(i)))


@contract(WT + "::get_part_end_dcm", "double,double", "C23")
def _(c):
    w = c.arg(1)
    c.requires(NOT(eq(w, 0)))
    q = Query(c, c.arg(0))
    e = Query(c, q.part.t_end)
    p, v = com_at(e, 0), com_at(e, 1)
    c.returns(Mat(2, 1, lambda i, j: p(i) + inv(w) * v(i)))


for _n in ("t_start", "t_end"):
    @contract(WT + "::get_part_" + _n, "double", "C23")
    def _(c, _n=_n):
        c.returns(getattr(Query(c, c.arg(0)).part, _n))


@contract(WT + "::is_flying", "Side,double", "C23")
def _(c):
    side(c, c.arg(0))
    c.returns(Query(c, c.arg(1)).flying(c.arg(0)))


def side(c, s):
    c.requires(OR(eq(s, LEFT), eq(s, RIGHT)))


@contract(WT + "::support_is_both", "double", "C23")
def _(c):
    c.returns(Query(c, c.arg(0)).both)


@contract(WT + "::support_side", "double", "C23")
def _(c):
    q = Query(c, c.arg(0))
    c.throws(q.both)
    c.returns(q.fs(0).side)


def foot_pose(q, s):
    evaluated(q.c, q.w.left_foot_yaw if s == LEFT else q.w.right_foot_yaw)
    return pose_of(q, s)


def pose_of(q, s):
    """the planned footstep, or the swing trajectory; the yaw is that of the foot's spline"""
    w, T_ = q.w, q.w.T
    sp = w.left_foot_yaw if s == LEFT else w.right_foot_yaw
    yaw = named_value(sp, q.t, 0)
    fly, sw, st = q.flying(s), q.swing(0), foot_frame(q.fs, s).get("translation")
    R = rot_z(yaw)
    p = [ite(fly, sw(i), st(i)) for i in range(3)]
    tr = lin(T_.linear, p)
    return affine(Mat(3, 3, lambda i, j: sum((T_.linear(i, k) * R(k, j) for k in range(3)), P(0))), Mat(3, 1, lambda i, j: tr(i) + T_.translation(i)))


def foot_speed(q, s):
    fly, sw = q.flying(s), q.swing(1)
    v = lin(q.w.T.linear, [sw(i) for i in range(3)])
    return Mat(3, 1, lambda i, j: ite(fly, v(i), 0))


def cache(q, s, order):
    """the swing trajectory's splines are evaluated when the foot flies"""
    c = q.c
    for a in swing.AX:
        sp = getattr(q.part.swing_trajectory, a)
        f = q.flying(s)
        old = F(sp)["_splines"]
        c.set(sp, "dirty", AND(sp.dirty, NOT(f)))
        c.set(sp, "_splines", merge(f, splines(F(sp)), raw(old)))


for _n, _s in (("left", LEFT), ("right", RIGHT)):
    @contract(WT + "::get_T_world_" + _n, "double", "C23")
    def _(c, _s=_s):
        q = Query(c, c.arg(0))
        c.returns(foot_pose(q, _s))
        cache(q, _s, 0)

    @contract(WT + "::get_v_world_" + _n, "double", "C23")
    def _(c, _s=_s):
        q = Query(c, c.arg(0))
        c.returns(foot_speed(q, _s))
        cache(q, _s, 1)

    @contract(WT + "::get_yaw_world_" + _n, "double", "C23")
    def _(c, _n=_n):
        yaw_of(c, getattr(c.this, _n + "_foot_yaw"))


def yaw_of(c, sp):
    R = c.this.T.linear
    evaluated(c, sp)
    c.returns(atan2(R(1, 0), R(0, 0)) + named_value(sp, c.arg(0), 0))


@contract(WT + "::get_yaw_world_trunk", "double", "C23")
def _(c):
    yaw_of(c, c.this.trunk_yaw)


def rot_y(a):
    co, si = T.cos(a), T.sin(a)
    return mat_of([[co, P(0), si], [P(0), P(1), P(0)], [-si, P(0), co]])


def rot_x(a):
    co, si = T.cos(a), T.sin(a)
    return mat_of([[P(1), P(0), P(0)], [P(0), co, -si], [P(0), si, co]])


@contract(WT + "::get_R_world_trunk", "double", "C23")
def _(c):
    w = c.this
    evaluated(c, w.trunk_yaw)
    c.returns(trunk_rotation(w, c.arg(0)))


def trunk_rotation(w, t):
    return matmul(raw(w.T.linear), matmul(matmul(rot_z(named_value(w.trunk_yaw, t, 0)), rot_y(w.trunk_pitch)), rot_x(w.trunk_roll)))


def moved_support(w, s):
    T_ = w.T
    fs = s.footsteps
    return StructV(SU, None, footsteps=SeqV(fs.len, lambda k: carried(T_, fs(k)), FS), computed_polygon=FALSE, **{k: raw(getattr(s, k)) for k in SUF})


@contract(WT + "::get_support", "double", "C23")
def _(c):
    c.returns(moved_support(c.this, Query(c, c.arg(0)).part.support))


@contract(WT + "::get_next_support", "double,int", "C23")
def _(c):
    q, n = Query(c, c.arg(0)), c.arg(1)
    c.requires(ge(q.k + n, 0))
    c.returns(moved_support(c.this, c.this.parts(tmin(q.k + n, c.this.parts.len - 1)).support))


@contract(WT + "::get_prev_support", "double,int", "C23")
def _(c):
    q, n = Query(c, c.arg(0)), c.arg(1)
    c.requires(lt(q.k - n, c.this.parts.len))
    c.returns(moved_support(c.this, c.this.parts(tmax(q.k - n, 0)).support))


@contract(WT + "::remaining_supports", "double", "C23")
def _(c):
    q = Query(c, c.arg(0))
    c.returns(c.this.parts.len - q.k - 1)


@contract(WT + "::get_supports", "", "C23")
def _(c):
    w = c.this
    c.returns(SeqV(w.parts.len, lambda k: moved_support(w, w.parts(k).support), SU))


@contract(WT + "::apply_transform", "Affine3d", "C23")
def _(c):
    c.set(c.this, "T", aff_mul(raw(c.arg(0)), raw(c.this.T)))


# ---------------------------------------------------------------- by side, and in the frame of the support
def chosen(s, a, b):
    l = eq(s, LEFT)
    return Mat(a.rows, a.cols, lambda i, j: ite(l, a(i, j), b(i, j)))


def foot_at(q, s):
    """pose of the foot of side s (a term)"""
    c = q.c
    w, l = q.w, eq(s, LEFT)
    evaluated_if(c, w.left_foot_yaw, l)
    evaluated_if(c, w.right_foot_yaw, NOT(l))
    cache(q, s, 0)
    a, b = pose_of(q, LEFT), pose_of(q, RIGHT)
    return affine(chosen(s, a.linear, b.linear), chosen(s, a.translation, b.translation))


def evaluated_if(c, sp, when):
    evaluated(c, sp, write=False)
    old = F(sp)["_splines"]
    c.set(sp, "dirty", AND(sp.dirty, NOT(when)))
    c.set(sp, "_splines", merge(when, splines(F(sp)), raw(old)))


@contract(WT + "::get_T_world_foot", "Side,double", "C23")
def _(c):
    side(c, c.arg(0))
    c.returns(foot_at(Query(c, c.arg(1)), c.arg(0)))


@contract(WT + "::get_v_world_foot", "Side,double", "C23")
def _(c):
    s = c.arg(0)
    side(c, s)
    q = Query(c, c.arg(1))
    c.returns(chosen(s, foot_speed(q, LEFT), foot_speed(q, RIGHT)))
    cache(q, s, 1)


@contract(WT + "::get_yaw_world_foot", "Side,double", "C23")
def _(c):
    s, w = c.arg(0), c.this
    side(c, s)
    R, l = w.T.linear, eq(s, LEFT)
    evaluated_if(c, w.left_foot_yaw, l)
    evaluated_if(c, w.right_foot_yaw, NOT(l))
    c.returns(atan2(R(1, 0), R(0, 0)) + ite(l, named_value(w.left_foot_yaw, c.arg(1), 0), named_value(w.right_foot_yaw, c.arg(1), 0)))


def support_frame(c):
    """query and frame (on the floor) of the single support at t"""
    q = Query(c, c.arg(0))
    c.throws(q.both)
    return q, flatten(foot_at(q, q.fs(0).side))


def seen_com(q, S, d):
    p, R = com_at(q, d), S.linear
    x = p if d else Mat(3, 1, lambda i, j: p(i) - S.translation(i))
    return Mat(3, 1, lambda i, j: sum((R(k, i) * x(k) for k in range(3)), P(0)))


for _n, _d in (("p", 0), ("v", 1)):
    @contract(WT + "::get_%s_support_CoM" % _n, "double", "C23")
    def _(c, _d=_d):
        q, S = support_frame(c)
        c.orthonormal_inverse()
        c.returns(seen_com(q, S, _d))


@contract(WT + "::get_p_support_DCM", "double,double", "C23")
def _(c):
    om = c.arg(1)
    c.requires(NOT(eq(om, 0)))
    q, S = support_frame(c)
    p, v = seen_com(q, S, 0), seen_com(q, S, 1)
    c.returns(Mat(2, 1, lambda i, j: p(i) + inv(om) * v(i)))
