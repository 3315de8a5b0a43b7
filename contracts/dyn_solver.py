"""Contracts of the dynamics solver (C15: options and limits; C24: what it holds and frees)."""
from spec import *
from robot import *
from expr import *
import problem
from kin_tasks import member
from dyn_contacts import push_all, ge0, DT, comb

DS = DT + "DynamicsSolver"

for f, field in (("mask_fbase", "masked_fbase"), ("enable_joint_limits", "joint_limits"), ("enable_velocity_limits", "velocity_limits"),
                 ("enable_velocity_vs_torque_limits", "velocity_vs_torque_limits"), ("enable_torque_limits", "torque_limits")):
    @contract(DS + "::" + f, "bool", "C15")
    def _(c, field=field):
        c.set(c.this, field, c.arg(0))

for f, field in (("set_qdd_safe", "qdd_safe"), ("set_torque_limit", "overriden_torque_limits")):
    @contract(DS + "::" + f, "string,double", "C15")
    def _(c, field=field):
        s, r = c.this, c.this.robot
        c.throws(NOT(known_joint(r, c.arg(0))))
        m = getattr(s, field).v
        c.set(s, field, m.set(v_offset(r, c.arg(0)), c.arg(1)))


@contract(DS + "::compute_limits_inequalities", "Expression", "C15")
def _(c):
    s, tau = c.this, c.arg(0)
    r, p = s.robot, s.problem
    N = s.N
    n = N - 6
    q, qd = r.state.q, r.state.qd
    hi, lo, vel, eff = [model_vec(c, r, x) for x in ("upperPositionLimit", "lowerPositionLimit", "velocityLimit", "effortLimit")]
    wf(c, tau)
    c.requires(ge(N, 6), eq(q.rows, N + 1), eq(qd.rows, N), eq(hi.rows, N + 1), eq(lo.rows, N + 1), eq(vel.rows, N), eq(eff.rows, N),
               eq(tau.A.rows, N), eq(tau.A.cols, p.n_variables), ge(p.n_variables, N))
    k = T.fresh("$p", "I")
    # speed-torque limits are used with motors that have an effort limit
    c.requires(IMP(s.velocity_vs_torque_limits, forall((k,), IMP(AND(ge(P(k), 6), lt(P(k), N)), gt(eff(P(k)), 0)))))
    safe, over = s.qdd_safe.v, s.overriden_torque_limits.v
    # every degree of freedom has a safe acceleration (set by the constructor), which is not negative
    c.requires(forall((k,), IMP(AND(ge(P(k), 6), lt(P(k), N)), AND(safe.has(P(k)), ge(safe.get(P(k)), 0)))))
    on, key, _i = over.enum
    c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), on)), AND(ge(key(P(k)), 0), lt(key(P(k)), N)))))
    c.throws(AND(OR(s.joint_limits, s.velocity_limits, s.velocity_vs_torque_limits), eq(s.dt, 0)))
    some, tl, jl, vt, vl = c.split(gt(N, 6), s.torque_limits, s.joint_limits, s.velocity_vs_torque_limits, s.velocity_limits)
    new = []
    if some and tl:
        lim = lambda i: ite(member(over, i), over.get(i), eff(i))
        for sg in (-1, 1):
            new.append(ge0(expr(Mat(n, tau.A.cols, lambda i, j, sg=sg: sg * tau.A(i + 6, j)), Mat(n, 1, lambda i, j, sg=sg: lim(i + 6) + sg * tau.b(i + 6)))))
    kinds = (["vt+", "vt-"] if vt else ["v+", "v-"] if vl else []) + (["j+", "j-"] if jl else [])
    if some and kinds:
        m = len(kinds)
        unit = lambda d, j: ite(eq(j, d + 6), 1, 0)

        def row(kind, d):
            """coefficients and offset of an inequality a x + b <= 0 for the joint d"""
            sg = 1 if kind[-1] == "+" else -1
            v, x = qd(d + 6), q(d + 7)
            if kind[:-1] == "v":
                return (lambda j: sg * s.dt * unit(d, j)), sg * v - vel(d + 6)
            if kind[:-1] == "vt":
                ra = vel(d + 6) * inv(eff(d + 6))
                return (lambda j: sg * (ra * tau.A(d + 6, j) + s.dt * unit(d, j))), sg * (ra * tau.b(d + 6) + v) - vel(d + 6)
            gap = hi(d + 7) - x if sg > 0 else x - lo(d + 7)
            a = safe.get(d + 6)
            return (lambda j: sg * ite(lt(gap, 0), 1, s.dt) * unit(d, j)), ite(lt(gap, 0), a, sg * v - sqrt(2 * gap * a))

        def at(f):
            def g(i, *j):
                d = T.ediv(i, m)
                out = f(row(kinds[-1], d), *j)
                for t in reversed(range(m - 1)):
                    out = ite(eq(i - m * d, t), f(row(kinds[t], d), *j), out)
                return out
            return g
        A, b = at(lambda r_, j: r_[0](j)), at(lambda r_: r_[1])
        new.append(ge0(expr(Mat(m * n, p.n_variables, lambda i, j: -A(i, j)), Mat(m * n, 1, lambda i, j: -b(i)))))
    push_all(c, p, new)


# ---------------------------------------------------------------- objects held by the solver (C24)
PT, OT, FT = DT + "PositionTask", DT + "OrientationTask", DT + "FrameTask"
owned = lambda cls: lambda o: T.bapp("heap:%s.solver_memory" % cls, (o,))


@contract(DS + "::add_task", "Task", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.set(t, "solver", s.obj)
    c.set(s, "tasks", s.tasks.v.set(t.obj, None))


@contract(DS + "::add_constraint", "Constraint", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.set(t, "solver", s.obj)
    c.set(s, "constraints", s.constraints.v.set(t.obj, None))


@contract(DS + "::add_contact", "Contact", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.set(t, "solver", s.obj)
    c.set(s, "contacts", s.contacts.v.push(t.obj))


@contract(DS + "::remove_task", "Task", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t)
    c.set(s, "tasks", s.tasks.v.erase(t.obj))
    c.frees(t, t.solver_memory)


@contract(DS + "::remove_constraint", "Constraint", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t)
    c.set(s, "constraints", s.constraints.v.erase(t.obj))
    c.frees(t, t.solver_memory)


@contract(DS + "::remove_task", "FrameTask", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t.position, t.orientation)
    c.requires(NOT(eq(t.position.obj, t.orientation.obj)))
    c.set(s, "tasks", s.tasks.v.erase(t.position.obj).erase(t.orientation.obj))
    c.frees(t.position, t.position.solver_memory)
    c.frees(t.orientation, t.orientation.solver_memory)


@contract(DS + "::remove_contact", "Contact", ("C15", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t)
    c.set(s, "contacts", removed(s.contacts.v, t.obj))
    c.frees(t, t.solver_memory)


@contract(DS + "::clear", "", ("C15", "C24"))
def _(c):
    s = c.this
    a, b, v = s.tasks.v, s.constraints.v, s.contacts.v
    x = T.fresh("$p", "Obj")
    i = T.fresh("$p", "I")
    at = lambda k: AND(ge(P(k), 0), lt(P(k), v.len))
    c.requires(forall((x,), IMP(OR(member(a, x), member(b, x)), NOT(c.freed(x)))))
    c.requires(forall((i,), IMP(at(i), NOT(c.freed(v(P(i)))))))
    # a contact is in the solver once (ghost: where it is)
    pos = lambda o: T.app("heap:%s.contacts[].pos" % DS, (s.obj, o), "I")
    c.requires(forall((i,), IMP(at(i), eq(pos(v(P(i))), P(i)))))
    # a task is not a constraint, nor a contact (distinct classes)
    c.assume(forall((x,), NOT(AND(member(a, x), member(b, x)))))
    c.assume(forall((i,), IMP(at(i), NOT(OR(member(a, v(P(i))), member(b, v(P(i))))))))
    none = lambda m: MapV(lambda o: FALSE, m.get, (P(0), None, None), m.kt, m.vt, P(0))
    c.set(s, "tasks", none(a))
    c.set(s, "constraints", none(b))
    c.set(s, "contacts", seq_of([], v.et))
    held = lambda o: AND(ge(pos(o), 0), lt(pos(o), v.len), eq(v(pos(o)), o))
    c.frees_all(lambda o: OR(AND(OR(member(a, o), member(b, o)), owned("placo::tools::Prioritized")(o)), AND(held(o), owned(DT + "Contact")(o))))
