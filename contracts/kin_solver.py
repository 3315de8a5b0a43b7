"""Contracts of the inverse-kinematics solver (C13): what it holds, and the limits it adds to the problem."""
from spec import *
from robot import *
from expr import *
import problem
from kin_tasks import linked, member
KS = "placo::kinematics::KinematicsSolver"
HEAP.update(["placo::kinematics::Constraint"])


@contract(KS + "::mask_dof", "string", "C13")
def _(c):
    s, r, n = c.this, c.this.robot, c.arg(0)
    c.throws(NOT(known_joint(r, n)))
    lo, m = v_offset(r, n), v_size(r, n)
    old = s.masked_dof.v
    c.loop("this.masked_dof", lambda init, k: MapV(lambda o: OR(init.has(o), AND(le(lo, o), lt(o, lo + k))), None, None, init.kt, init.vt))
    c.set(s, "masked_dof", MapV(lambda o: OR(old.has(o), AND(le(lo, o), lt(o, lo + m))), None, None, old.kt, old.vt))


@contract(KS + "::unmask_dof", "string", "C13")
def _(c):
    s, r, n = c.this, c.this.robot, c.arg(0)
    c.throws(NOT(known_joint(r, n)))
    lo, m = v_offset(r, n), v_size(r, n)
    old = s.masked_dof.v
    c.loop("this.masked_dof", lambda init, k: MapV(lambda o: AND(init.has(o), NOT(AND(le(lo, o), lt(o, lo + k)))), None, None, init.kt, init.vt))
    c.set(s, "masked_dof", MapV(lambda o: AND(old.has(o), NOT(AND(le(lo, o), lt(o, lo + m)))), None, None, old.kt, old.vt))


@contract(KS + "::mask_fbase", "bool", "C13")
def _(c):
    c.set(c.this, "masked_fbase", c.arg(0))


@contract(KS + "::enable_joint_limits", "bool", "C13")
def _(c):
    c.set(c.this, "joint_limits", c.arg(0))


@contract(KS + "::enable_velocity_limits", "bool", "C13")
def _(c):
    c.set(c.this, "velocity_limits", c.arg(0))


@contract(KS + "::tasks_count", "", "C13")
def _(c):
    c.returns(c.this.tasks.v.enum[0])


@contract(KS + "::add_task", "Task", ("C13", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.set(t, "solver", s.obj)
    c.set(s, "tasks", s.tasks.v.set(t.obj, None))


@contract(KS + "::add_constraint", "Constraint", ("C13", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.set(t, "solver", s.obj)
    c.set(s, "constraints", s.constraints.v.set(t.obj, None))


@contract(KS + "::remove_task", "Task", ("C13", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t)
    c.set(s, "tasks", s.tasks.v.erase(t.obj))
    c.frees(t, t.solver_memory)


@contract(KS + "::remove_constraint", "Constraint", ("C13", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t)
    c.set(s, "constraints", s.constraints.v.erase(t.obj))
    c.frees(t, t.solver_memory)


@contract(KS + "::remove_task", "FrameTask", ("C13", "C24"))
def _(c):
    s, t = c.this, c.arg(0)
    c.alive(t.position, t.orientation)
    c.requires(NOT(eq(t.position.obj, t.orientation.obj)))
    c.set(s, "tasks", s.tasks.v.erase(t.position.obj).erase(t.orientation.obj))
    c.frees(t.position, t.position.solver_memory)
    c.frees(t.orientation, t.orientation.solver_memory)


@contract(KS + "::compute_limits_inequalities", "", "C13")
def _(c):
    s = c.this
    r, p = s.robot, s.problem
    N = s.N
    q = r.state.q
    hi, lo, vel = [model_vec(c, r, x) for x in ("upperPositionLimit", "lowerPositionLimit", "velocityLimit")]
    c.requires(ge(N, 6), eq(q.rows, N + 1), eq(hi.rows, N + 1), eq(lo.rows, N + 1), eq(vel.rows, N))
    v = s.qd
    c.requires(ge(v.k_start, 0), eq(v.k_end - v.k_start, N))
    c.throws(AND(s.velocity_limits, eq(s.dt, 0)))
    jl, vl, some = c.split(s.joint_limits, s.velocity_limits, gt(N, 6))
    n = N - 6
    new = []
    sel = lambda k: Mat(n, v.k_end, lambda i, j: ite(eq(j, v.k_start + 6 + i), k, 0))
    if jl and some:
        new.append(expr(sel(-1), Mat(n, 1, lambda i, j: hi(i + 7) - q(i + 7))))
        new.append(expr(sel(1), Mat(n, 1, lambda i, j: q(i + 7) - lo(i + 7))))
    if vl and some:
        new.append(expr(sel(-1), Mat(n, 1, lambda i, j: s.dt * vel(i + 6))))
        new.append(expr(sel(1), Mat(n, 1, lambda i, j: s.dt * vel(i + 6))))
    seq = p.constraints.v
    for k, e in enumerate(new):
        o = c.pushed(p, "constraints", PC, k)
        for f, x in dict(expression=e, type=P(INEQUALITY), priority=P(HARD), weight=P(1), is_active=FALSE).items():
            c.set(o, f, x)
        seq = seq.push(o.obj)
    if new:
        c.set(p, "constraints", seq)


@contract(KS + "::clear", "", ("C13", "C24"))
def _(c):
    s = c.this
    a, b = s.tasks.v, s.constraints.v
    x = T.fresh("$p", "Obj")
    c.requires(forall((x,), IMP(OR(member(a, x), member(b, x)), NOT(c.freed(x)))))
    # a task is not a constraint (distinct classes)
    c.assume(forall((x,), NOT(AND(member(a, x), member(b, x)))))
    none = lambda m: MapV(lambda o: FALSE, m.get, (P(0), None, None), m.kt, m.vt, P(0))
    owned = lambda o: T.bapp("heap:placo::tools::Prioritized.solver_memory", (o,))
    c.set(s, "tasks", none(a))
    c.set(s, "constraints", none(b))
    c.frees_all(lambda o: AND(OR(member(a, o), member(b, o)), owned(o)))
