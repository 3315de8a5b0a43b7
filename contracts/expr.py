"""Contracts of placo::problem::Expression, ProblemConstraint (comparisons, configure) and Variable."""
from spec import *

E = "placo::problem::Expression"
PC = "placo::problem::ProblemConstraint"
VAR = "placo::problem::Variable"
PROB = "placo::problem::Problem"
HEAP.update({VAR, PROB, PC})

EQUALITY, INEQUALITY = 0, 1
SOFT, HARD = 0, 1


def expr(A, b):
    return StructV(E, None, A=A, b=b)


def wf(c, *es):
    """class invariant of Expression: as many offsets as rows; sizes non-negative"""
    for e in es:
        c.requires(eq(e.b.rows, e.A.rows), ge(e.A.rows, 0), ge(e.A.cols, 0))


def padA(e, i, j):
    return ite(lt(j, e.A.cols), e.A(i, j), 0)


def sconst(e):
    return AND(eq(e.A.rows, 1), eq(e.A.cols, 0))


def e_add(a, b, sb=1):
    """a + sb*b with the broadcasting of scalar constants"""
    s1, s2 = sconst(a), sconst(b)
    rows = ite(s1, b.A.rows, a.A.rows)
    sb = P(sb)
    return expr(Mat(rows, tmax(a.A.cols, b.A.cols), lambda i, j: padA(a, i, j) + sb * padA(b, i, j)),
                Mat(rows, 1, lambda i, j: a.b(ite(s1, 0, i)) + sb * b.b(ite(AND(s2, NOT(s1)), 0, i))))


def add_throws(a, b):
    return AND(NOT(sconst(a)), NOT(sconst(b)), NOT(eq(a.A.rows, b.A.rows)))


def e_scale(e, f):
    f = P(f)
    return expr(e.A.map(lambda x: f * x), e.b.map(lambda x: f * x))


def e_const(v):
    return expr(zeros(v.rows, 0), v)


def e_double(f):
    f = P(f)
    return expr(zeros(1, 0), Mat(1, 1, lambda i, j: f))


def F(name, ptypes, prop="C01"):
    return contract(E + "::" + name, ptypes, prop)


# ---------------------------------------------------------------- construction, observers
@F("Expression", "")
def _(c):
    c.returns(expr(zeros(0, 0), zeros(0, 1)))


@F("Expression", "Expression")
def _(c):
    e = c.arg(0)
    c.returns(expr(e.A, e.b))


@F("Expression", "VectorXd")
def _(c):
    c.returns(e_const(c.arg(0)))


@F("from_vector", "VectorXd")
def _(c):
    c.returns(e_const(c.arg(0)))


@F("from_double", "double")
def _(c):
    c.returns(e_double(c.arg(0)))


@F("is_scalar", "")
def _(c):
    c.returns(eq(c.this.A.rows, 1))


@F("is_constant", "")
def _(c):
    c.returns(eq(c.this.A.cols, 0))


@F("rows", "")
def _(c):
    c.returns(c.this.A.rows)


@F("cols", "")
def _(c):
    c.returns(c.this.A.cols)


@F("value", "VectorXd")
def _(c):
    e, x = c.this, c.arg(0)
    wf(c, e)
    c.requires(ge(x.rows, e.A.cols))
    c.returns(Mat(e.A.rows, 1, lambda i, j: Sum(e.A.cols, lambda k: e.A(i, k) * x(k)) + e.b(i)))


@F("slice", "int,int")
def _(c):
    e, start, rows = c.this, c.arg(0), c.arg(1)
    wf(c, e)
    n = ite(lt(rows, 0), e.A.rows - start, rows)
    c.requires(ge(start, 0), ge(n, 0), le(start + n, e.A.rows))
    c.returns(expr(e.A.block(start, 0, n, e.A.cols), e.b.block(start, 0, n, 1)))


# ---------------------------------------------------------------- algebra
@F("piecewise_add", "double")
def _(c):
    e, f = c.this, c.arg(0)
    wf(c, e)
    c.returns(expr(e.A, e.b.map(lambda x: x + f)))


@F("operator+", "Expression")
def _(c):
    a, b = c.this, c.arg(0)
    wf(c, a, b)
    c.throws(add_throws(a, b))
    c.returns(e_add(a, b))


@F("operator-", "Expression")
def _(c):
    a, b = c.this, c.arg(0)
    wf(c, a, b)
    c.throws(add_throws(a, b))
    c.returns(e_add(a, b, -1))


@F("operator-", "")
def _(c):
    wf(c, c.this)
    c.returns(e_scale(c.this, -1))


@F("operator*", "double")
def _(c):
    wf(c, c.this)
    c.returns(e_scale(c.this, c.arg(0)))


@F("operator*", "double,Expression")
def _(c):
    wf(c, c.arg(1))
    c.returns(e_scale(c.arg(1), c.arg(0)))


@F("operator*", "Expression")
def _(c):
    a, b = c.this, c.arg(0)
    wf(c, a, b)
    m1 = AND(eq(a.A.rows, 1), eq(b.A.cols, 0))      # scalar times constant
    m2 = AND(eq(b.A.rows, 1), eq(a.A.cols, 0))      # constant times scalar
    c.throws(AND(NOT(m1), NOT(m2)))

    def prod(s, k):                                  # s: scalar expression, k: constant vector
        return expr(Mat(k.A.rows, s.A.cols, lambda i, j: s.A(0, j) * k.b(i)),
                    Mat(k.A.rows, 1, lambda i, j: s.b(0) * k.b(i)))
    c.returns(merge(m1, prod(a, b), prod(b, a)))


def add_vec(e, v, se, sv):
    return expr(e.A.map(lambda x: P(se) * x), Mat(e.A.rows, 1, lambda i, j: P(se) * e.b(i) + P(sv) * v(i)))


for name, ptypes, k, se, sv in (("operator+", "VectorXd", None, 1, 1), ("operator+", "VectorXd,Expression", 1, 1, 1),
                                ("operator-", "VectorXd", None, 1, -1), ("operator-", "VectorXd,Expression", 1, -1, 1)):
    @F(name, ptypes)
    def _(c, k=k, se=se, sv=sv):
        e = c.this if k is None else c.arg(k)
        v = c.arg(0)
        wf(c, e)
        c.throws(NOT(eq(v.rows, e.A.rows)))
        c.returns(add_vec(e, v, se, sv))

for name, ptypes, k, se, sv in (("operator+", "double", None, 1, 1), ("operator+", "double,Expression", 1, 1, 1),
                                ("operator-", "double", None, 1, -1), ("operator-", "double,Expression", 1, -1, 1)):
    @F(name, ptypes)
    def _(c, k=k, se=se, sv=sv):
        e = c.this if k is None else c.arg(k)
        f = c.arg(0)
        wf(c, e)
        c.returns(add_vec(e, const_mat(e.A.rows, 1, f), se, sv))


def left_mul(M, e):
    return expr(matmul(M, e.A), matmul(M, e.b))


@F("operator*", "MatrixXd,Expression")
def _(c):
    M, e = c.arg(0), c.arg(1)
    wf(c, e)
    c.throws(NOT(eq(M.cols, e.A.rows)))
    c.returns(left_mul(M, e))


@F("left_multiply", "MatrixXd")
def _(c):
    M, e = c.arg(0), c.this
    wf(c, e)
    c.throws(NOT(eq(M.cols, e.A.rows)))
    c.returns(left_mul(M, e))


def e_sum(e):
    return expr(Mat(1, e.A.cols, lambda i, j: Sum(e.A.rows, lambda k: e.A(k, j))),
                Mat(1, 1, lambda i, j: Sum(e.A.rows, lambda k: e.b(k))))


@F("sum", "")
def _(c):
    wf(c, c.this)
    c.returns(e_sum(c.this))


@F("mean", "")
def _(c):
    e = c.this
    wf(c, e)
    c.requires(ge(e.A.rows, 1))
    c.returns(e_scale(e_sum(e), inv(e.A.rows)))


@F("operator/", "Expression")
def _(c):
    a, b = c.this, c.arg(0)
    wf(c, a, b)
    n = a.A.rows
    c.returns(expr(Mat(n + b.A.rows, tmax(a.A.cols, b.A.cols),
                       lambda i, j: ite(lt(i, n), padA(a, i, j), padA(b, i - n, j))),
                   Mat(n + b.A.rows, 1, lambda i, j: ite(lt(i, n), a.b(i), b.b(i - n)))))


# ---------------------------------------------------------------- comparisons (C02)
def pconstraint(e, type_, priority=HARD, weight=1, is_active=FALSE):
    return StructV(PC, None, expression=e, type=P(type_), priority=P(priority), weight=P(weight), is_active=bl(is_active))


def neg(e):
    return e_scale(e, -1)


def compare(name, ptypes, get, op):
    @F(name, ptypes, "C02")
    def _(c):
        a, b = get(c)
        for x in (a, b):
            if isinstance(x, W):
                wf(c, x)
        c.throws(add_throws(a, b))
        d = e_add(a, b, -1)
        if op == "<=":
            d = neg(d)
        c.returns(pconstraint(d, EQUALITY if op == "==" else INEQUALITY))


for op in (">=", "<=", "=="):
    compare("operator" + op, "Expression", lambda c: (c.this, c.arg(0)), op)
    compare("operator" + op, "double", lambda c: (c.this, e_double(c.arg(0))), op)
    compare("operator" + op, "VectorXd", lambda c: (c.this, e_const(c.arg(0))), op)


def compare_left(op, ptypes, lift):
    # v >= e: the constraint v - e >= 0; v == e is compiled as e - v == 0 (same set)
    if op == "==":
        compare("operator" + op, ptypes, lambda c: (c.arg(1), lift(c.arg(0))), op)
    else:
        compare("operator" + op, ptypes, lambda c: (lift(c.arg(0)), c.arg(1)), op)


for op in (">=", "<=", "=="):
    compare_left(op, "double,Expression", e_double)
    compare_left(op, "VectorXd,Expression", e_const)


@contract(PC + "::configure", "Priority,double", "C02")
def _(c):
    c.set(c.this, "priority", c.arg(0))
    c.set(c.this, "weight", c.arg(1))


@contract(PC + "::configure", "string,double", "C02")
def _(c):
    c.set(c.this, "priority", ite(eq(c.arg(0), T.lit("hard")), HARD, SOFT))
    c.set(c.this, "weight", c.arg(1))


# ---------------------------------------------------------------- variables (C03)
def var_expr(v, start, rows):
    """selector of `rows` components of v from `start`"""
    return expr(Mat(rows, v.k_end, lambda i, j: ite(eq(j, v.k_start + start + i), 1, 0)), zeros(rows, 1))


@contract(VAR + "::size", "", "C03")
def _(c):
    c.returns(c.this.k_end - c.this.k_start)


@contract(VAR + "::expr", "int,int", "C03")
def _(c):
    v = c.this
    start = ite(eq(c.arg(0), -1), 0, c.arg(0))
    rows = ite(eq(c.arg(1), -1), v.k_end - v.k_start - start, c.arg(1))
    c.requires(ge(v.k_start, 0), ge(v.k_end, v.k_start), ge(start, 0), ge(rows, 0),
               le(start + rows, v.k_end - v.k_start))
    c.returns(var_expr(v, start, rows))
