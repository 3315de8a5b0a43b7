"""Assumed contracts of the robot model: pinocchio's results as functions of the robot (its current state), the frame and the reference."""
from spec import *

RW = "placo::model::RobotWrapper"
HEAP.update([RW, "placo::kinematics::KinematicsSolver", "placo::kinematics::Task"])
WORLD, LOCAL, LWA = 0, 1, 2


def rows(M, i, n):
    return M.block(i, 0, n, M.cols)


def sub3(a, b):
    return Mat(3, 1, lambda i, j: a(i, 0) - b(i, 0))


def nv(r):
    """number of degrees of freedom: the field model.nv of the robot"""
    return T.app("heap:" + RW + ".model.nv", (r.obj,), "I")


def model_vec(c, r, name):
    """a vector held by the robot's pinocchio model"""
    return c.ex.types.sym("Eigen::VectorXd", "heap:" + RW + ".model." + name, (r.obj,))


def joint_at(r, i):
    """name of the joint a velocity index belongs to"""
    return T.app("joint_at", (r.obj, P(i)), "Str")


def joint_layout(r, n, key):
    """joints occupy disjoint ranges that cover the velocity vector (stated for the names key(0..n-1))"""
    i, k = T.fresh("$p", "I"), T.fresh("$p", "I")
    i, k = P(i), P(k)
    lo = lambda x: v_offset(r, x)
    hi = lambda x: v_offset(r, x) + v_size(r, x)
    return [forall((i.atom(), k.atom()), IMP(AND(ge(k, 0), lt(k, n), le(lo(key(k)), i), lt(i, hi(key(k)))), eq(joint_at(r, i), key(k)))),
            forall((i.atom(),), IMP(AND(ge(i, 0), lt(i, nv(r))), AND(le(lo(joint_at(r, i)), i), lt(i, hi(joint_at(r, i))))))]


def jac(r, frame, ref):
    o = r.obj
    return Mat(6, nv(r), lambda i, j: T.app("frame_jacobian", (o, P(frame), P(ref), P(i), P(j))))


def jacdot(r, frame, ref):
    o = r.obj
    return Mat(6, nv(r), lambda i, j: T.app("frame_jacobian_dot", (o, P(frame), P(ref), P(i), P(j))))


def pose(r, frame):
    o = r.obj
    return affine(Mat(3, 3, lambda i, j: T.app("pose_R", (o, P(frame), P(i), P(j)))),
                  Mat(3, 1, lambda i, j: T.app("pose_t", (o, P(frame), P(i)))))


def opaque(r, name, rows, cols):
    o = r.obj
    return Mat(rows, cols, lambda i, j: T.app(name, (o, P(i), P(j))))


def orthonormal(R):
    """columns and rows are orthonormal (rotation matrix)"""
    out = []
    for a in range(3):
        for b in range(a, 3):
            out.append(eq(sum((R(k, a) * R(k, b) for k in range(3)), P(0)), 1 if a == b else 0))
            out.append(eq(sum((R(a, k) * R(b, k) for k in range(3)), P(0)), 1 if a == b else 0))
    return out


@contract(RW + "::frame_jacobian", "FrameIndex,ReferenceFrame", "", trusted=True)
def _(c):
    c.returns(jac(c.this, c.arg(0), c.arg(1)))


@contract(RW + "::frame_jacobian_time_variation", "FrameIndex,ReferenceFrame", "", trusted=True)
def _(c):
    c.returns(jacdot(c.this, c.arg(0), c.arg(1)))


@contract(RW + "::get_T_world_frame", "FrameIndex", "", trusted=True)
def _(c):
    f = pose(c.this, c.arg(0))
    c.returns(f)


@contract(RW + "::com_jacobian", "", "", trusted=True)
def _(c):
    c.returns(opaque(c.this, "com_jacobian", 3, nv(c.this)))


@contract(RW + "::com_jacobian_time_variation", "", "", trusted=True)
def _(c):
    c.returns(opaque(c.this, "com_jacobian_dot", 3, nv(c.this)))


@contract(RW + "::com_world", "", "", trusted=True)
def _(c):
    c.returns(opaque(c.this, "com_world", 3, 1))


@contract(RW + "::centroidal_map", "", "", trusted=True)
def _(c):
    c.returns(opaque(c.this, "centroidal_map", 6, nv(c.this)))


@contract(RW + "::mass_matrix", "", "", trusted=True)
def _(c):
    c.returns(opaque(c.this, "mass_matrix", nv(c.this), nv(c.this)))


MODEL = "heap:" + RW + ".model."


def joint_id(r, name):
    """pinocchio's Model::getJointId"""
    return T.app(MODEL + "getJointId()", (r.obj, name), "I")


def joint_int(r, name, what):
    return T.app(MODEL + "joints[]." + what + "()", (r.obj, joint_id(r, name)), "I")


def v_offset(r, name):
    return joint_int(r, name, "idx_v")


def v_size(r, name):
    return joint_int(r, name, "nv")


def q_offset(r, name):
    return joint_int(r, name, "idx_q")


def q_size(r, name):
    return joint_int(r, name, "nq")


def nq(r):
    return T.app(MODEL + "nq", (r.obj,), "I")


def known_joint(r, name):
    return T.bapp(MODEL + "existJointName()", (r.obj, name))


def frame_index(r, name):
    return T.app(MODEL + "getFrameId()", (r.obj, name), "I")


def known_frame(r, name):
    return T.bapp(MODEL + "existFrame()", (r.obj, name))


def model_ok(c, r, name):
    """pinocchio's model: a known joint has its place in the model's tables and in the state vectors, which are sized as the model"""
    k = joint_id(r, name)
    c.assume(IMP(known_joint(r, name), AND(
        ge(k, 0), lt(k, T.app(MODEL + "joints.len", (r.obj,), "I")),
        ge(v_offset(r, name), 0), ge(v_size(r, name), 1), le(v_offset(r, name) + v_size(r, name), nv(r)),
        ge(q_offset(r, name), 0), ge(q_size(r, name), 1), le(q_offset(r, name) + q_size(r, name), nq(r)))))
    sized(c, r)


def sized(c, r):
    c.assume(eq(r.state.q.rows, nq(r)), eq(r.state.qd.rows, nv(r)), eq(r.state.qdd.rows, nv(r)),
             ge(nv(r), 0), ge(nq(r), 0))


def joint_q(r, name):
    return r.state.q(q_offset(r, name))


def joint_qd(r, name):
    return r.state.qd(v_offset(r, name))


@contract(RW + "::get_frame_index", "string", "C22")
def _(c):
    c.throws(NOT(known_frame(c.this, c.arg(0))))
    c.returns(frame_index(c.this, c.arg(0)))


for _f, _v in (("get_joint_offset", q_offset), ("get_joint_size", q_size), ("get_joint_v_offset", v_offset), ("get_joint_v_size", v_size)):
    @contract(RW + "::" + _f, "string", "C22")
    def _(c, _v=_v):
        r, n = c.this, c.arg(0)
        model_ok(c, r, n)
        c.throws(NOT(known_joint(r, n)))
        c.returns(_v(r, n))


for _f, _s, _v in (("joint", "q", q_offset), ("joint_velocity", "qd", v_offset), ("joint_acceleration", "qdd", v_offset)):
    @contract(RW + "::get_" + _f, "string", "C22")
    def _(c, _s=_s, _v=_v):
        r, n = c.this, c.arg(0)
        model_ok(c, r, n)
        c.throws(NOT(known_joint(r, n)))
        c.returns(getattr(r.state, _s)(_v(r, n)))

    @contract(RW + "::set_" + _f, "string,double", "C22")
    def _(c, _s=_s, _v=_v):
        r, n, x = c.this, c.arg(0), c.arg(1)
        model_ok(c, r, n)
        c.throws(NOT(known_joint(r, n)))
        c.set(r.state, _s, entry(getattr(r.state, _s), _v(r, n), x))


def entry(v, k, x):
    """the vector with entry k replaced"""
    return Mat(v.rows, 1, lambda i, j: ite(eq(i, k), x, v(i)))


for _f, _s in (("set_velocity_limit", "velocityLimit"), ("set_torque_limit", "effortLimit"), ("set_rotor_inertia", "rotorInertia"),
               ("set_gear_ratio", "rotorGearRatio")):
    @contract(RW + "::" + _f, "string,double", "C22")
    def _(c, _s=_s):
        r, n, x = c.this, c.arg(0), c.arg(1)
        model_ok(c, r, n)
        v = model_vec(c, r, _s)
        c.assume(eq(v.rows, nv(r)))
        c.throws(NOT(known_joint(r, n)))
        c.set(r.model, _s, entry(v, v_offset(r, n), x))


@contract(RW + "::set_joint_limits", "string,double,double", "C22")
def _(c):
    r, n = c.this, c.arg(0)
    model_ok(c, r, n)
    lo, hi = model_vec(c, r, "lowerPositionLimit"), model_vec(c, r, "upperPositionLimit")
    c.assume(eq(lo.rows, nq(r)), eq(hi.rows, nq(r)))
    c.throws(NOT(known_joint(r, n)))
    c.set(r.model, "lowerPositionLimit", entry(lo, q_offset(r, n), c.arg(1)))
    c.set(r.model, "upperPositionLimit", entry(hi, q_offset(r, n), c.arg(2)))


@contract(RW + "::get_joint_limits", "string", "C22")
def _(c):
    r, n = c.this, c.arg(0)
    model_ok(c, r, n)
    lo, hi = model_vec(c, r, "lowerPositionLimit"), model_vec(c, r, "upperPositionLimit")
    c.assume(eq(lo.rows, nq(r)), eq(hi.rows, nq(r)))
    c.throws(NOT(known_joint(r, n)))
    c.returns(StructV("pair", None, first=lo(q_offset(r, n)), second=hi(q_offset(r, n))))


# ---------------------------------------------------------------- floating base
def placement(r):
    """placement of the root joint in the model"""
    o = r.obj
    return affine(Mat(3, 3, lambda i, j: T.app(MODEL + "jointPlacements[].rotation()", (o, P(1), P(i), P(j)))),
                  Mat(3, 1, lambda i, j: T.app(MODEL + "jointPlacements[].translation()", (o, P(1), P(i), P(0)))))


def quat_coef(k, R):
    """coefficient of Eigen's quaternion of a rotation"""
    return T.app("quat_" + "xyzw"[k], mat_key(R))


def fbase(r):
    """pose of the floating base encoded by the configuration"""
    q = r.state.q
    return aff_mul(placement(r), affine(quat_rotation(q(6), q(3), q(4), q(5)), Mat(3, 1, lambda i, j: q(i))))


def with_fbase(q, r, pose_):
    """the configuration with the floating base at a pose, joints untouched"""
    x = aff_mul(aff_inv(placement(r)), pose_)
    R, t = x.linear, x.translation
    return Mat(q.rows, 1, lambda i, j: ite(lt(i, 3), t(i), ite(lt(i, 7), ite(eq(i, 3), quat_coef(0, R), ite(eq(i, 4), quat_coef(1, R), ite(eq(i, 5), quat_coef(2, R), quat_coef(3, R)))), q(i))))


def floating(c, r):
    """robots have a floating base: seven coordinates first"""
    sized(c, r)
    c.requires(ge(nq(r), 7))
    c.assume(ge(T.app(MODEL + "jointPlacements.len", (r.obj,), "I"), 2))


@contract(RW + "::get_T_world_fbase", "", "C22")
def _(c):
    floating(c, c.this)
    c.returns(fbase(c.this))


@contract(RW + "::set_T_world_fbase", "Affine3d", "C22")
def _(c):
    r = c.this
    floating(c, r)
    c.set(r.state, "q", with_fbase(r.state.q, r, c.arg(0)))


def moved(r, frame, target):
    """base pose that puts a frame at a target, the joints being fixed"""
    return aff_mul(target, aff_mul(aff_inv(pose(r, frame)), fbase(r)))


@contract(RW + "::set_T_world_frame", "FrameIndex,Affine3d", "C22")
def _(c):
    r = c.this
    floating(c, r)
    c.set(r.state, "q", with_fbase(r.state.q, r, moved(r, c.arg(0), c.arg(1))))


@contract(RW + "::set_T_world_frame", "string,Affine3d", "C22")
def _(c):
    r = c.this
    floating(c, r)
    c.throws(NOT(known_frame(r, c.arg(0))))
    c.set(r.state, "q", with_fbase(r.state.q, r, moved(r, frame_index(r, c.arg(0)), c.arg(1))))


def reference(name):
    return ite(eq(name, T.lit("local_world_aligned")), LWA, ite(eq(name, T.lit("local")), LOCAL, WORLD))


def known_reference(name):
    return OR(*[eq(name, T.lit(x)) for x in ("local_world_aligned", "local", "world")])


def joint_jac_at(r, k, ref, what="joint_jacobian"):
    o = r.obj
    return Mat(6, nv(r), lambda i, j: T.app(what, (o, P(k), P(ref), P(i), P(j))))


def joint_jac(r, name, ref):
    return joint_jac_at(r, joint_id(r, name), reference(ref))


@contract(RW + "::get_T_world_frame", "string", "C22")
def _(c):
    c.throws(NOT(known_frame(c.this, c.arg(0))))
    c.returns(pose(c.this, frame_index(c.this, c.arg(0))))


@contract(RW + "::get_T_a_b", "FrameIndex,FrameIndex", ("C14", "C22"))
def _(c):
    r = c.this
    x = aff_mul(aff_inv(pose(r, c.arg(0))), pose(r, c.arg(1)))
    c.returns(named(x) if c.mode == "call" and getattr(c.ex, "name_products", False) else x)


@contract(RW + "::get_T_a_b", "string,string", "C22")
def _(c):
    r = c.this
    c.throws(NOT(known_frame(r, c.arg(0))))
    c.throws(NOT(known_frame(r, c.arg(1))))
    c.returns(aff_mul(aff_inv(pose(r, frame_index(r, c.arg(0)))), pose(r, frame_index(r, c.arg(1)))))


for _f, _v in (("frame_jacobian", jac), ("frame_jacobian_time_variation", jacdot)):
    @contract(RW + "::" + _f, "string,string", "C22")
    def _(c, _v=_v):
        r = c.this
        c.throws(NOT(known_frame(r, c.arg(0))))
        c.throws(NOT(known_reference(c.arg(1))))
        c.returns(_v(r, frame_index(r, c.arg(0)), reference(c.arg(1))))


for _f in ("joint_jacobian", "joint_jacobian_time_variation"):
    @contract(RW + "::" + _f, "JointIndex,ReferenceFrame", "", trusted=True)
    def _(c, _f=_f):
        c.returns(joint_jac_at(c.this, c.arg(0), c.arg(1), _f))

    @contract(RW + "::" + _f, "string,string", "C22")
    def _(c, _f=_f):
        r = c.this
        c.throws(NOT(known_joint(r, c.arg(0))))
        c.throws(NOT(known_reference(c.arg(1))))
        c.returns(joint_jac_at(r, joint_id(r, c.arg(0)), reference(c.arg(1)), _f))


@contract(RW + "::relative_position_jacobian", "string,string", "C22")
def _(c):
    r = c.this
    c.requires(ge(nv(r), 6))
    c.throws(NOT(known_frame(r, c.arg(0))))
    c.throws(NOT(known_frame(r, c.arg(1))))
    c.returns(rel_jac(r, frame_index(r, c.arg(0)), frame_index(r, c.arg(1))))


@contract(RW + "::relative_position_jacobian", "FrameIndex,FrameIndex", ("C12", "C22"))
def _(c):
    r, a, b = c.this, c.arg(0), c.arg(1)
    c.requires(ge(nv(r), 6))
    c.returns(rel_jac(r, a, b))


def rel_pos(r, a, b):
    """position of b in the frame a"""
    Ra, ta, tb = pose(r, a).linear, pose(r, a).translation, pose(r, b).translation
    return matmul(Ra.T, sub3(tb, ta))


def rel_jac(r, a, b):
    Ra = pose(r, a).linear
    Ja, Jb = jac(r, a, LWA), jac(r, b, LWA)
    return matmul(Ra.T, rows(Jb, 0, 3) - rows(Ja, 0, 3)) + matmul(skew(rel_pos(r, a, b)), matmul(Ra.T, rows(Ja, 3, 3)))
