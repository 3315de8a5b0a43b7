"""Contracts of the kinematics tasks (C12): what each update() leaves in A and b."""
from spec import *
from robot import *
from utils import mask_apply, mask_ok, safe_acos
from fractions import Fraction

KT = "placo::kinematics::"


def linked(c):
    """the task belongs to a solver whose size is the robot's"""
    s = c.this.solver
    c.requires(eq(s.N, nv(s.robot)), ge(s.N, 6))
    return s, s.robot


class Mask:
    """the task's mask with another local orientation"""
    def __init__(self, m, R):
        self.frame, self.indices, self.R_custom_world, self.R_local_world = m.frame, m.indices, m.R_custom_world, R


def put(c, A, b):
    c.set(c.this, "A", A)
    c.set(c.this, "b", b)


def put_masked(c, J, e, R=None):
    m = c.this.mask
    mask_ok(c, m)
    if R is not None:
        c.set(m, "R_local_world", R)
        m = Mask(m, R)
    put(c, mask_apply(m, J), mask_apply(m, e))


@contract(KT + "PositionTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    f = c.this.frame_index
    T_ = pose(r, f)
    put_masked(c, rows(jac(r, f, LWA), 0, 3), sub3(c.this.target_world, T_.translation), T_.linear.T)


@contract(KT + "OrientationTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    f, R = c.this.frame_index, c.this.R_world_frame
    put_masked(c, rows(jac(r, f, WORLD), 3, 3), log3(matmul(R, pose(r, f).linear.T)), R.T)


@contract(KT + "CoMTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    put_masked(c, opaque(r, "com_jacobian", 3, nv(r)), sub3(c.this.target_world, opaque(r, "com_world", 3, 1)))


@contract(KT + "RelativePositionTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    a, b = c.this.frame_a, c.this.frame_b
    put_masked(c, rel_jac(r, a, b), sub3(c.this.target, rel_pos(r, a, b)))


@contract(KT + "RelativeOrientationTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    a, b = c.this.frame_a, c.this.frame_b
    Ra, Rb = pose(r, a).linear, pose(r, b).linear
    put_masked(c, matmul(Ra.T, rows(jac(r, b, WORLD), 3, 3) - rows(jac(r, a, WORLD), 3, 3)),
               log3(matmul(c.this.R_a_b, matmul(Ra.T, Rb).T)))


@contract(KT + "DistanceTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    a, b = c.this.frame_a, c.this.frame_b
    c.requires(eq(c.this.b.rows, 1), eq(c.this.b.cols, 1))
    ab = sub3(pose(r, b).translation, pose(r, a).translation)
    n = sqrt(squared_norm(ab))
    c.requires(gt(squared_norm(ab), 0))
    J = rows(jac(r, b, LWA), 0, 3) - rows(jac(r, a, LWA), 0, 3)
    put(c, Mat(1, nv(r), lambda i, j: sum((ab(k) * inv(n) * J(k, j) for k in range(3)), P(0))), Mat(1, 1, lambda i, j: c.this.distance - n))


@contract(KT + "CentroidalMomentumTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    m = c.this.mask
    mask_ok(c, m)
    c.throws(eq(s.dt, 0))
    put(c, mask_apply(m, rows(opaque(r, "centroidal_map", 6, nv(r)), 3, 3)).scale(inv(s.dt)), mask_apply(m, c.this.L_world))


@contract(KT + "JointsTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    jm = c.this.joints.v
    n, key, _i = jm.enum
    k = T.fresh("$p", "I")
    c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), known_joint(r, key(P(k))))))
    put(c, Mat(n, nv(r), lambda i, j: ite(eq(j, v_offset(r, key(i))), 1, 0)),
        Mat(n, 1, lambda i, j: jm.get(key(i)) - joint_q(r, key(i))))


@contract(KT + "JointsTask::set_joint", "string,double", "C12")
def _(c):
    c.set(c.this, "joints", c.this.joints.v.set(c.arg(0), c.arg(1)))


@contract(KT + "JointsTask::get_joint", "string", "C12")
def _(c):
    jm = c.this.joints.v
    c.throws(NOT(jm.has(c.arg(0))))
    c.returns(jm.get(c.arg(0)))


@contract(KT + "RegularizationTask::set_weight", "double", "C12")
def _(c):
    c.set(c.this, "default_weight", c.arg(0))
    c.set(c.this, "dirty", TRUE)


@contract(KT + "RegularizationTask::set_joint_weight", "string,double", "C12")
def _(c):
    c.set(c.this, "joint_weights", c.this.joint_weights.v.set(c.arg(0), c.arg(1)))
    c.set(c.this, "dirty", TRUE)


for cls, P_, O_, tp, to in (("FrameTask", "position", "orientation", "target_world", "R_world_frame"),
                            ("RelativeFrameTask", "position", "orientation", "target", "R_a_b")):
    fr = "T_world_frame" if cls == "FrameTask" else "T_a_b"

    @contract(KT + cls + "::get_" + fr, "", "C12")
    def _(c, P_=P_, O_=O_, tp=tp, to=to):
        c.returns(affine(getattr(getattr(c.this, O_), to), getattr(getattr(c.this, P_), tp)))

    @contract(KT + cls + "::set_" + fr, "Affine3d", "C12")
    def _(c, P_=P_, O_=O_, tp=tp, to=to):
        c.set(getattr(c.this, P_), tp, c.arg(0).translation)
        c.set(getattr(c.this, O_), to, c.arg(0).linear)


def qof(r):
    return r.state.q


@contract(KT + "GearTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    gm = c.this.gears.v
    n, key, _i = gm.enum
    q = r.state.q
    k, m = T.fresh("$p", "I"), T.fresh("$p", "I")
    inner = lambda i: gm.get(key(i)).enum
    N = nv(r)
    ok = lambda t: AND(ge(t, 0), lt(t, N))
    c.requires(eq(q.rows, N + 1))
    c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), ok(key(P(k))))))
    c.requires(forall((k, m), IMP(AND(ge(P(k), 0), lt(P(k), n), ge(P(m), 0), lt(P(m), inner(P(k))[0])), ok(inner(P(k))[1](P(m))))))

    def a(i, j):
        src = gm.get(key(i))
        return ite(member(src, j), src.get(j), ite(eq(j, key(i)), -1, 0))

    def b(i):
        src = gm.get(key(i))
        cnt, sk, _ = src.enum
        return q(key(i) + 1) - Sum(cnt, lambda t: q(sk(t) + 1) * src.get(sk(t)))
    put(c, Mat(n, N, a), Mat(n, 1, lambda i, j: b(i)))


def member(m, k):
    """k is a key of the map: it is found at its place in the enumeration"""
    n, key, idx = m.enum
    return AND(ge(idx(k), 0), lt(idx(k), n), eq(key(idx(k)), k))


@contract(KT + "KineticEnergyRegularizationTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    c.throws(eq(s.dt, 0))
    M = opaque(r, "mass_matrix", nv(r), nv(r))
    R = matrix_sqrt(None, M)
    put(c, R.scale(inv(sqrt(P(2)) * s.dt)), zeros(nv(r), 1))


@contract(KT + "RegularizationTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    w = c.this
    N = nv(r)
    jw = w.joint_weights.v
    n, key, _i = jw.enum
    k, m = T.fresh("$p", "I"), T.fresh("$p", "I")
    c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), known_joint(r, key(P(k))))))
    c.assume(*joint_layout(r, n, key))
    wt = lambda i: ite(member(jw, joint_at(r, i)), sqrt(jw.get(joint_at(r, i))), sqrt(w.default_weight))
    W_ = Mat(N, N, lambda i, j: ite(eq(i, j), wt(i), 0))
    c.represents(w, "W", W_, NOT(w.dirty))
    # overrides seen so far: those of the first k joints
    c.loop("this.W", lambda init, k: Mat(N, N, lambda i, j: ite(eq(i, j), ite(AND(member(jw, joint_at(r, i)), lt(jw.enum[2](joint_at(r, i)), k)),
                                                                              sqrt(jw.get(joint_at(r, i))), sqrt(w.default_weight)), 0)))
    c.set(w, "W", W_)
    c.set(w, "dirty", FALSE)
    put(c, Mat(N - 6, N, lambda i, j: W_(i + 6, j)), zeros(N - 6, 1))


def unit(v):
    """v over its norm; a null vector stays"""
    q = squared_norm(v)
    k = inv(sqrt(q))
    return Mat(3, 1, lambda i, j: ite(gt(q, 0), v(i) * k, v(i)))


@contract(KT + "GearTask::add_gear", "string,string,double", "C12")
def _(c):
    s, r = linked(c)
    t, u = v_offset(r, c.arg(0)), v_offset(r, c.arg(1))
    c.throws(NOT(known_joint(r, c.arg(0))))
    c.throws(NOT(known_joint(r, c.arg(1))))
    g = c.this.gears.v
    old = g.get(t)
    known = MapV(lambda o: AND(g.has(t), old.has(o)), old.get, None, old.kt, old.vt)
    c.set(c.this, "gears", g.set(t, known.set(u, c.arg(2))))


@contract(KT + "GearTask::set_gear", "string,string,double", "C12")
def _(c):
    s, r = linked(c)
    t, u = v_offset(r, c.arg(0)), v_offset(r, c.arg(1))
    c.throws(NOT(known_joint(r, c.arg(0))))
    c.throws(NOT(known_joint(r, c.arg(1))))
    g = c.this.gears.v
    old = g.get(t)
    none = MapV(lambda o: FALSE, old.get, None, old.kt, old.vt)
    c.set(c.this, "gears", g.set(t, none.set(u, c.arg(2))))


@contract(KT + "WheelTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    w = c.this
    c.throws(NOT(known_frame(r, w.joint)))
    c.throws(NOT(known_joint(r, w.joint)))
    c.name_products()
    Tsw = named(aff_mul(aff_inv(raw(w.T_world_surface)), pose(r, frame_index(r, w.joint))))
    R = Tsw.linear
    # from the wheel's centre to the contact point: the direction of the wheel plane that goes down most
    down = matmul(R, unit(vec(-R(2, 0), -R(2, 1), 0)))
    # rolling direction: orthogonal to the axle and to the surface's normal
    x = unit(cross(Mat(3, 1, lambda i, j: R(i, 2)), vec(0, 0, 1)))
    y = cross(vec(0, 0, 1), x)
    Rc = mat_of([[x(i), y(i), 1 if i == 2 else 0] for i in range(3)])
    origin = Tsw.translation + down.scale(w.radius)
    J = matmul(action_matrix(named(aff_mul(aff_inv(affine(Rc, origin)), Tsw))), joint_jac(r, w.joint, T.lit("local")))
    c.split(w.omniwheel)
    n = ite(w.omniwheel, 2, 3)
    row = lambda i: ite(AND(w.omniwheel, eq(i, 1)), 2, i)
    put(c, Mat(n, nv(r), lambda i, j: ite(eq(row(i), 0), J(0, j), ite(eq(row(i), 1), J(1, j), J(2, j)))),
        Mat(n, 1, lambda i, j: ite(eq(row(i), 2), -origin(2), 0)))


@contract(KT + "AxisAlignTask::update", "", "C12")
def _(c):
    s, r = linked(c)
    w = c.this
    c.orthonormal_inverse()
    c.ex.name_units = True
    v = named_vec(matmul(pose(r, w.frame_index).linear, w.axis_frame))
    c.requires(gt(squared_norm(v), 0), gt(squared_norm(w.targetAxis_world), 0))
    x, t = unit(v), unit(w.targetAxis_world)
    ax = cross(x, t)
    par = lt(sqrt(squared_norm(ax)), Fraction(1, 10 ** 8))
    c.split(par)
    u = unit_orthogonal(x)
    z = unit(Mat(3, 1, lambda i, j: ite(par, u(i), ax(i))))
    y = cross(z, x)
    J = rows(jac(r, w.frame_index, WORLD), 3, 3)
    dot = lambda a, j: sum((a(k) * J(k, j) for k in range(3)), P(0))
    put(c, Mat(2, nv(r), lambda i, j: ite(eq(i, 0), dot(y, j), dot(z, j))),
        Mat(2, 1, lambda i, j: ite(eq(i, 0), 0, safe_acos(sum((x(k) * t(k) for k in range(3)), P(0))))))
