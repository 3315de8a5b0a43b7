"""Contracts of AxisesMask, Prioritized and the geometric utilities (C11)."""
from spec import *

AM = "placo::tools::AxisesMask"
PR = "placo::tools::Prioritized"
UT = "placo::tools::"
TASK, LOCAL, CUSTOM = 0, 1, 2
S_ = T.lit


def axis_char(s, k):
    x = T.app("str.at", (s, P(k)), "I")
    return ite(AND(ge(x, 65), le(x, 90)), x + 32, x)


def masked(c, s, frame):
    """row selection: one row per character"""
    w = c.this
    n = T.app("str.len", (s,), "I")
    k = T.fresh("$p", "I")
    ch = axis_char(s, P(k))
    c.assume(ge(n, 0))
    c.throws(NOT(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), AND(ge(ch, 120), le(ch, 122))))))
    c.set(w, "indices", SeqV(n, lambda k: axis_char(s, k) - 120, "int"))
    c.set(w, "frame", frame)


@contract(AM + "::AxisesMask", "", "C11")
def _(c):
    c.returns(StructV(AM, None, indices=SeqV(3, lambda k: P(k), "int"), frame=P(TASK), R_local_world=ident(3), R_custom_world=ident(3)))


@contract(AM + "::set_axises", "string,ReferenceFrame", "C11")
def _(c):
    masked(c, c.arg(0), c.arg(1))


@contract(AM + "::set_axises", "string,string", "C11")
def _(c):
    f = c.arg(1)
    known = OR(*[eq(f, S_(x)) for x in ("task", "world", "local", "custom")])
    c.throws(NOT(known))
    masked(c, c.arg(0), ite(OR(eq(f, S_("task")), eq(f, S_("world"))), TASK, ite(eq(f, S_("local")), LOCAL, CUSTOM)))


def mask_apply(s, M):
    R = Mat(3, 3, lambda i, j: ite(eq(s.frame, CUSTOM), s.R_custom_world(i, j), ite(eq(s.frame, LOCAL), s.R_local_world(i, j), ite(eq(i, j), 1, 0))))
    ind = s.indices
    return Mat(ind.len, M.cols, lambda i, j: R(ind(i), 0) * M(0, j) + R(ind(i), 1) * M(1, j) + R(ind(i), 2) * M(2, j))


def mask_ok(c, s):
    k = T.fresh("$p", "I")
    c.requires(OR(eq(s.frame, 0), eq(s.frame, 1), eq(s.frame, 2)),
               forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), s.indices.len)), AND(ge(s.indices(P(k)), 0), lt(s.indices(P(k)), 3)))))


@contract(AM + "::apply", "MatrixXd", "C11")
def _(c):
    s, M = c.this, c.arg(0)
    c.requires(eq(M.rows, 3))
    mask_ok(c, s)
    c.returns(mask_apply(s, M))


# ------------------------------------------------------------------ utilities
def atan2(y, x):
    return T.app("atan2", (P(y), P(x)))


@contract(UT + "wrap_angle", "double", "C11")
def _(c):
    a = P(c.arg(0))
    c.returns(atan2(T.sin(a), T.cos(a)))
    c.ensures("has the same sine", lambda r, post: eq(T.sin(r), T.sin(a)))
    c.ensures("has the same cosine", lambda r, post: eq(T.cos(r), T.cos(a)))
    c.ensures("lies in [-pi, pi]", lambda r, post: AND(le(r, T.PI), ge(r, -T.PI)))


@contract(UT + "frame_yaw", "Matrix3d", "C11")
def _(c):
    R = c.arg(0)
    c.returns(atan2(R(1, 0), R(0, 0)))


def rot_z(a):
    co, si = T.cos(a), T.sin(a)
    return mat_of([[co, -si, P(0)], [si, co, P(0)], [P(0), P(0), P(1)]])


def flatten(f):
    return affine(rot_z(atan2(f.linear(1, 0), f.linear(0, 0))), vec(f.translation(0), f.translation(1), 0))


@contract(UT + "flatten_on_floor", "Affine3d", "C11")
def _(c):
    c.returns(flatten(c.arg(0)))


@contract(UT + "interpolate_frames", "Affine3d,Affine3d,double", "C11")
def _(c):
    a, b, t = c.args
    c.returns(affine(slerp(a.linear, b.linear, t), Mat(3, 1, lambda i, j: a.translation(i) + t * (b.translation(i) - a.translation(i)))))
    for q, e in ((0, a), (1, b)):
        i, j = T.fresh("sk", "I"), T.fresh("sk", "I")
        c.ensures("translation at ratio %d" % q, lambda r, post, q=q, e=e: IMP(eq(t, q), AND(*[eq(r.get("translation")(k), e.translation(k)) for k in range(3)])))
        c.ensures("rotation at ratio %d" % q, lambda r, post, q=q, e=e: IMP(eq(t, q), AND(*[eq(r.get("linear")(k, l), e.linear(k, l)) for k in range(3) for l in range(3)])))


def safe_acos(v):
    return T.app("acos", (ite(le(v, -1), -1, ite(ge(v, 1), 1, v)),))


@contract(UT + "safe_acos", "double", "C11")
def _(c):
    c.returns(safe_acos(c.arg(0)))


def axis_index(s):
    return ite(eq(s, S_("x")), 0, ite(eq(s, S_("y")), 1, 2))


@contract(UT + "directions_2d", "int", "C11")
def _(c):
    n = c.arg(0)
    c.requires(ge(n, 0))
    a = lambda i: 2 * T.PI * i * inv(n)
    c.returns(Mat(n, 2, lambda i, j: ite(eq(j, 0), T.cos(a(i)), T.sin(a(i)))))


@contract(UT + "directions_3d", "int,double", "C11")
def _(c):
    n = c.arg(0)
    c.requires(ge(n, 0), NOT(eq(n - 1 + 2 * c.arg(1), 0)))
    k = T.fresh("sk", "I")
    c.ensures("one unit vector per row", lambda r, post: AND(eq(r.rows, n), eq(r.cols, 3), IMP(AND(ge(P(k), 0), lt(P(k), n)),
              eq(r(P(k), 0) * r(P(k), 0) + r(P(k), 1) * r(P(k), 1) + r(P(k), 2) * r(P(k), 2), 1))))


# ------------------------------------------------------------------ priorities
HARD, SOFT, SCALED = 0, 1, 2


@contract(UT + "priority_from_string", "string", "C11")
def _(c):
    s = c.arg(0)
    c.throws(NOT(OR(*[eq(s, S_(x)) for x in ("hard", "soft", "scaled")])))
    c.returns(ite(eq(s, S_("hard")), HARD, ite(eq(s, S_("soft")), SOFT, SCALED)))


@contract(PR + "::Prioritized", "", "C11")
def _(c):
    c.returns(StructV(PR, None, name=T.lit(""), priority=P(SOFT), weight=P(1)))


@contract(PR + "::configure", "string,Priority,double", "C11")
def _(c):
    for f, v in zip(("name", "priority", "weight"), c.args):
        c.set(c.this, f, v)


@contract(PR + "::configure", "string,string,double", "C11")
def _(c):
    s = c.arg(1)
    c.throws(NOT(OR(*[eq(s, S_(x)) for x in ("hard", "soft", "scaled")])))
    c.set(c.this, "name", c.arg(0))
    c.set(c.this, "priority", ite(eq(s, S_("hard")), HARD, ite(eq(s, S_("soft")), SOFT, SCALED)))
    c.set(c.this, "weight", c.arg(2))


@contract(PR + "::priority_name", "", "C11")
def _(c):
    p = c.this.priority
    c.throws(NOT(OR(eq(p, HARD), eq(p, SOFT), eq(p, SCALED))))
    c.returns(ite(eq(p, HARD), S_("hard"), ite(eq(p, SOFT), S_("soft"), S_("scaled"))))

