"""Contracts of placo::problem::Problem (variables, constraints), PolygonConstraint, Polynom, ProblemPolynom."""
from spec import *
from expr import *
from calls import mat_key


def push(seq, v):
    return seq.push(v)


# ---------------------------------------------------------------- variables (C03)
@contract(PROB + "::add_variable", "int", "C03")
def _(c):
    p, size = c.this, c.arg(0)
    c.requires(ge(size, 0), ge(p.n_variables, 0))
    n0 = p.n_variables
    v = c.new(VAR)
    c.set(v, "k_start", n0)
    c.set(v, "k_end", n0 + size)
    c.set(v, "version", P(0))
    c.set(v, "problem", p.obj)
    c.set(v, "value", zeros(0, 1))
    c.set(p, "n_variables", n0 + size)
    c.set(p, "variables", p.variables.v.push(v.obj))


def owned(c, seq, name):
    """the pointers of a sequence are distinct (pos is their place) and their objects alive; returns membership"""
    pos = lambda o: T.app("heap:%s.%s[].pos" % (PROB, name), (c.this.obj, o), "I")
    member = lambda o: AND(ge(pos(o), 0), lt(pos(o), seq.len), eq(seq(pos(o)), o))
    k = T.fresh("$p", "I")
    if c.tracks_memory():
        c.requires(forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), seq.len)), AND(eq(pos(seq(P(k))), P(k)), NOT(c.freed(seq(P(k))))))))
    return member


@contract(PROB + "::clear_variables", "", ("C03", "C24"))
def _(c):
    p = c.this
    c.frees_all(owned(c, p.variables.v, "variables"))
    c.set(p, "n_variables", P(0))
    c.set(p, "variables", seq_of([], p.variables.v.et))


# ---------------------------------------------------------------- constraints (C04)
@contract(PROB + "::clear_constraints", "", ("C04", "C24"))
def _(c):
    p = c.this
    c.frees_all(owned(c, p.constraints.v, "constraints"))
    c.set(p, "constraints", seq_of([], p.constraints.v.et))


@contract(PROB + "::add_constraint", "ProblemConstraint", "C04")
def _(c):
    p, k = c.this, c.arg(0)
    n = c.new(PC)
    for f in ("expression", "type", "priority", "weight", "is_active"):
        c.set(n, f, getattr(k, f))
    c.set(p, "constraints", p.constraints.v.push(n.obj))


def pad(e, n):
    """coefficients over n decision variables"""
    return Mat(e.A.rows, n, lambda i, j: padA(e, i, j))


def cexpr(p, k):
    """constraint k in the coordinates of the QP: A over the free variables, b (see get_constraint_expressions)"""
    e = k.expression
    det = gt(p.determined_variables, 0)
    AQ = qmul(p, pad(e, p.n_variables))
    D, F_ = p.determined_variables, p.free_variables
    y = p.y
    A = merge(det, AQ.block(0, p.n_variables - F_, e.A.rows, F_), e.A)
    b = merge(det, Mat(e.A.rows, 1, lambda i, j: e.b(i) + Sum(D, lambda t: AQ(i, t) * y(t))), e.b)
    return A, b


def qfun(qr):
    """entries of the orthogonal factor of a QR decomposition (uninterpreted)"""
    key = raw(qr).get("key")
    return lambda k, j: T.app("QR.Q", (key, P(k), P(j)))


def qmul(p, M):
    """M * Q, with Q the orthogonal factor held by the problem"""
    n = p.n_variables
    Q = qfun(p.QR)
    return Mat(M.rows, n, lambda i, j: Sum(n, lambda k: M(i, k) * Q(k, j)))


@contract(PROB + "::get_constraint_expressions", "ProblemConstraint*,MatrixXd,MatrixXd", "C04")
def _(c):
    p, k = c.this, c.arg(0)
    wf(c, k.expression)
    c.requires(ge(p.determined_variables, 0), le(k.expression.A.cols, p.n_variables), ge(p.n_variables, 0),
               eq(p.free_variables, p.n_variables - p.determined_variables), ge(p.free_variables, 0),
               OR(eq(p.determined_variables, 0), AND(eq(p.y.rows, p.determined_variables), eq(p.y.cols, 1))))
    A, b = cexpr(p, k)
    c.set_arg(1, A)
    c.set_arg(2, b)


@contract(PROB + "::add_limit", "Expression,VectorXd", "C04")
def _(c):
    p, e, t = c.this, c.arg(0), c.arg(1)
    wf(c, e)
    n = e.A.rows
    c.throws(NOT(eq(t.rows, n)))
    k = c.new(PC)
    ex_ = expr(Mat(2 * n, e.A.cols, lambda i, j: ite(lt(i, n), -e.A(i, j), e.A(i - n, j))),
               Mat(2 * n, 1, lambda i, j: ite(lt(i, n), t(i) - e.b(i), t(i - n) + e.b(i - n))))
    c.set(k, "expression", ex_)
    c.set(k, "type", P(INEQUALITY))
    c.set(k, "priority", P(HARD))
    c.set(k, "weight", P(1))
    c.set(k, "is_active", FALSE)
    c.set(p, "constraints", p.constraints.v.push(k.obj))


def ext_method(ex, st, name, loc, v, A, n):
    if "QR" in v.tname:
        return struct_method(ex, st, name, loc, StructV("QRdec", None, key=v.get("key")), A, n)
    return NotImplemented


class FamQ:
    def __init__(self, fn):
        self.fn = fn


def mat_method(ex, st, name, loc, m, A, n):
    if name == "colPivHouseholderQr":
        ex.externs.add("Eigen ColPivHouseholderQR")
        return StructV("QRdec", None, key=T.app("qr", mat_key(m)))
    if name == "transposeInPlace":
        ex.write(st, loc, m.T)
        return None
    if name == "triangularView":
        return StructV("TriView", None, M=m)
    return NotImplemented


def struct_method(ex, st, name, loc, v, A, n):
    if v.tname == "QRdec" and name == "rank":
        return T.app("QR.rank", (v.key,), "I")
    if v.tname == "QRdec" and name == "matrixR":
        nn = T.app("QR.dim", (v.key,), "I")
        return ex.uninit_mat(T.app("QR.rows", (v.key,), "I"), T.app("QR.cols", (v.key,), "I"))
    if v.tname == "QRdec" and name == "colsPermutation":
        return StructV("Perm", None, key=v.key)
    if v.tname == "Perm" and name == "applyThisOnTheRight":
        tgt = ex.lv(n["inner"][1], st)
        M = ex.read(st, tgt)
        ex.write(st, tgt, Mat(M.rows, M.cols, lambda i, j: M(i, T.app("QR.perm", (v.key, P(j)), "I"))))
        return None
    if v.tname == "TriView" and name == "solve":
        ex.externs.add("Eigen triangular solve")
        return ex.uninit_mat(A[0].rows, A[0].cols)
    if v.tname == "QRdec" and name == "matrixQ":
        return StructV("HQ", None, Q=FamQ(qfun(v)))
    if v.tname == "HQ" and name == "applyThisOnTheRight":
        tgt = ex.lv(n["inner"][1], st)
        M, Q = ex.read(st, tgt), v.Q.fn
        ex.externs.add("Eigen HouseholderSequence::applyThisOnTheRight (M := M Q)")
        ex.write(st, tgt, Mat(M.rows, M.cols, lambda i, j: Sum(M.cols, lambda k: M(i, k) * Q(k, j))))
        return None
    return NotImplemented


HOOKS = {"ext_method": ext_method, "struct_method": struct_method, "mat_method": mat_method}
