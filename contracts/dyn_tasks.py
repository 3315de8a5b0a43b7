"""Contracts of the dynamics tasks (C17): what each update() leaves in A, b and the errors."""
from spec import *
from robot import *
from utils import mask_apply, mask_ok
from kin_tasks import linked, rows, sub3, Mask, member, rel_pos, rel_jac

DT = "placo::dynamics::"
HEAP.update([DT + "Task", DT + "DynamicsSolver", DT + "Contact", DT + "Constraint"])


def qd_of(c, r):
    v = r.state.qd
    c.requires(eq(v.rows, nv(r)), eq(v.cols, 1))
    return v


def gain(c):
    c.requires(IMP(lt(c.this.kd, 0), ge(c.this.kp, 0)))
    return ite(lt(c.this.kd, 0), 2 * sqrt(c.this.kp), c.this.kd)


@contract(DT + "Task::get_kd", "", "C17")
def _(c):
    c.returns(gain(c))


def put(c, A, b, e, de):
    for f, x in (("A", A), ("b", b), ("error", e), ("derror", de)):
        c.set(c.this, f, x)


def column(n, f):
    return Mat(n, 1, lambda i, j: f(i))


def command(c, J, drift, err, derr, ff, R=None, rows3=3):
    """A qdd = b asks for: acceleration (J qdd + drift) = kp error + kd velocity error + feed-forward, on the masked axes"""
    kp, kd = c.this.kp, gain(c)
    m = c.this.mask
    mask_ok(c, m)
    if R is not None:
        c.set(m, "R_local_world", R)
        m = Mask(m, R)
    b = column(3, lambda i: kp * err(i) + kd * derr(i) + ff(i) - drift(i))
    put(c, mask_apply(m, J), mask_apply(m, b), mask_apply(m, err), mask_apply(m, derr))


@contract(DT + "PositionTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, f, v = c.this, c.this.frame_index, qd_of(c, r)
    T_ = pose(r, f)
    J, dJ = rows(jac(r, f, LWA), 0, 3), rows(jacdot(r, f, LWA), 0, 3)
    command(c, J, matmul(dJ, v), sub3(w.target_world, T_.translation), sub3(w.dtarget_world, matmul(J, v)), w.ddtarget_world, T_.linear.T)


@contract(DT + "CoMTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, v = c.this, qd_of(c, r)
    J, dJ = opaque(r, "com_jacobian", 3, nv(r)), opaque(r, "com_jacobian_dot", 3, nv(r))
    command(c, J, matmul(dJ, v), sub3(w.target_world, opaque(r, "com_world", 3, 1)), sub3(w.dtarget_world, matmul(J, v)), w.ddtarget_world)


@contract(DT + "OrientationTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, f, v, R = c.this, c.this.frame_index, qd_of(c, r), c.this.R_world_frame
    J, dJ = rows(jac(r, f, WORLD), 3, 3), rows(jacdot(r, f, WORLD), 3, 3)
    command(c, J, matmul(dJ, v), log3(matmul(R, pose(r, f).linear.T)), sub3(w.omega_world, matmul(J, v)), w.domega_world, R.T)


@contract(DT + "RelativePositionTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, a, b, v = c.this, c.this.frame_a_index, c.this.frame_b_index, qd_of(c, r)
    Ra = pose(r, a).linear
    Ja, Jb, dJa, dJb = jac(r, a, LWA), jac(r, b, LWA), jacdot(r, a, LWA), jacdot(r, b, LWA)
    p = rel_pos(r, a, b)
    w_v = matmul(rows(Jb, 0, 3) - rows(Ja, 0, 3), v)
    om = matmul(Ra.T, matmul(rows(Ja, 3, 3), v)).scale(-1)      # angular velocity of the world with respect to a, in a
    vel = cross(om, p) + matmul(Ra.T, w_v)
    # derivative of vel at constant velocities: transport, centripetal and Euler terms
    drift = (matmul(Ra.T, matmul(rows(dJb, 0, 3) - rows(dJa, 0, 3), v)) + cross(om, matmul(Ra.T, w_v)).scale(2)
             + cross(om, cross(om, p)) + cross(p, matmul(Ra.T, matmul(rows(dJa, 3, 3), v))))
    J = matmul(Ra.T, rows(Jb, 0, 3) - rows(Ja, 0, 3)) + matmul(skew(p), matmul(Ra.T, rows(Ja, 3, 3)))
    command(c, J, drift, sub3(w.target, p), sub3(w.dtarget, vel), w.ddtarget)


@contract(DT + "RelativeOrientationTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, a, b, v = c.this, c.this.frame_a_index, c.this.frame_b_index, qd_of(c, r)
    Ra, Rb = pose(r, a).linear, pose(r, b).linear
    Ja, Jb, dJa, dJb = [rows(x, 3, 3) for x in (jac(r, a, WORLD), jac(r, b, WORLD), jacdot(r, a, WORLD), jacdot(r, b, WORLD))]
    oa, ob = matmul(Ja, v), matmul(Jb, v)
    # rotation of b with respect to a, expressed in the world
    err = matmul(Ra, log3(matmul(w.R_a_b, matmul(Ra.T, Rb).T)))
    derr = sub3(matmul(Ra, w.omega_a_b), sub3(ob, oa))
    drift = sub3(sub3(matmul(dJb, v), matmul(dJa, v)), cross(oa, sub3(ob, oa)))
    command(c, Jb - Ja, drift, err, derr, matmul(Ra, w.domega_a_b))


@contract(DT + "JointsTask::set_joint", "string,double,double,double", "C17")
def _(c):
    for k, f in enumerate(("joints", "djoints", "ddjoints")):
        c.set(c.this, f, getattr(c.this, f).v.set(c.arg(0), c.arg(k + 1)))


@contract(DT + "JointsTask::get_joint", "string", "C17")
def _(c):
    jm = c.this.joints.v
    c.throws(NOT(jm.has(c.arg(0))))
    c.returns(jm.get(c.arg(0)))


def all_known(c, r, n, key):
    k = T.fresh("$p", "I")
    c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), known_joint(r, key(P(k))))))


@contract(DT + "JointsTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, v = c.this, qd_of(c, r)
    jm, dm, am = w.joints.v, w.djoints.v, w.ddjoints.v
    n, key, _i = jm.enum
    all_known(c, r, n, key)
    kp, kd = w.kp, gain(c)
    e = lambda i: jm.get(key(i)) - joint_q(r, key(i))
    de = lambda i: ite(dm.has(key(i)), dm.get(key(i)), 0) - v(v_offset(r, key(i)))
    put(c, Mat(n, nv(r), lambda i, j: ite(eq(j, v_offset(r, key(i))), 1, 0)),
        column(n, lambda i: kp * e(i) + kd * de(i) + ite(am.has(key(i)), am.get(key(i)), 0)), column(n, e), column(n, de))


@contract(DT + "TorqueTask::reset_torque", "string", "C17")
def _(c):
    c.set(c.this, "torques", c.this.torques.v.erase(c.arg(0)))


@contract(DT + "TorqueTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    w, v = c.this, qd_of(c, r)
    tm = w.torques.v
    n, key, _i = tm.enum
    all_known(c, r, n, key)
    t = lambda i: tm.get(key(i))
    put(c, Mat(n, nv(r), lambda i, j: ite(eq(j, v_offset(r, key(i))), 1, 0)),
        column(n, lambda i: t(i).torque - t(i).kp * joint_q(r, key(i)) - t(i).kd * joint_qd(r, key(i))),
        zeros(n, 1), zeros(n, 1))


@contract(DT + "GearTask::update", "", "C17")
def _(c):
    s, r = linked(c)
    gm = c.this.gears.v
    n, key, _i = gm.enum
    q, v = r.state.q, qd_of(c, r)
    k, m = T.fresh("$p", "I"), T.fresh("$p", "I")
    inner = lambda i: gm.get(key(i)).enum
    N = nv(r)
    ok = lambda t: AND(ge(t, 0), lt(t, N))
    c.requires(eq(q.rows, N + 1))
    c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), ok(key(P(k))))))
    c.requires(forall((k, m), IMP(AND(ge(P(k), 0), lt(P(k), n), ge(P(m), 0), lt(P(m), inner(P(k))[0])), ok(inner(P(k))[1](P(m))))))
    kp, kd = c.this.kp, gain(c)

    def a(i, j):
        src = gm.get(key(i))
        return ite(member(src, j), src.get(j), ite(eq(j, key(i)), -1, 0))

    def gap(x, o):
        def f(i):
            src = gm.get(key(i))
            cnt, sk, _ = src.enum
            return x(key(i) + o) - Sum(cnt, lambda t: x(sk(t) + o) * src.get(sk(t)))
        return f
    e, de = gap(q, 1), gap(v, 0)
    put(c, Mat(n, N, a), column(n, lambda i: kp * e(i) + kd * de(i)), column(n, e), column(n, de))


for name, keep in (("add_gear", True), ("set_gear", False)):
    @contract(DT + "GearTask::" + name, "string,string,double", "C17")
    def _(c, keep=keep):
        s, r = linked(c)
        t, u = v_offset(r, c.arg(0)), v_offset(r, c.arg(1))
        c.throws(NOT(known_joint(r, c.arg(0))))
        c.throws(NOT(known_joint(r, c.arg(1))))
        g = c.this.gears.v
        old = g.get(t)
        known = MapV((lambda o: AND(g.has(t), old.has(o))) if keep else (lambda o: FALSE), old.get, None, old.kt, old.vt)
        c.set(c.this, "gears", g.set(t, known.set(u, c.arg(2))))


for cls, P_, O_, tp, to in (("FrameTask", "position", "orientation", "target_world", "R_world_frame"),
                            ("RelativeFrameTask", "position", "orientation", "target", "R_a_b")):
    fr = "T_world_frame" if cls == "FrameTask" else "T_a_b"

    @contract(DT + cls + "::get_" + fr, "", "C17")
    def _(c, P_=P_, O_=O_, tp=tp, to=to):
        c.returns(affine(getattr(getattr(c.this, O_), to), getattr(getattr(c.this, P_), tp)))

    @contract(DT + cls + "::set_" + fr, "Affine3d", "C17")
    def _(c, P_=P_, O_=O_, tp=tp, to=to):
        c.set(getattr(c.this, P_), tp, c.arg(0).translation)
        c.set(getattr(c.this, O_), to, c.arg(0).linear)
