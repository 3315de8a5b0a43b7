"""Contracts of Polynom and ProblemPolynom (C08)."""
from spec import *
from expr import *

POL = "placo::tools::Polynom"
PPOL = "placo::problem::ProblemPolynom"
HEAP.add(VAR)


def falling(n, k):
    """n (n-1) ... (n-k+1)"""
    f = spec_rec("falling", lambda ks, p: P(1), lambda prev, m, ks, p: prev([]) * (p[0] - m), [n])
    return f(tmax(k, 0))


def dcoef(n, k):
    """coefficient of x^(n-k) in the k-th derivative of x^n"""
    return ite(gt(k, n), 0, falling(n, k))


@contract(POL + "::derivative_coefficient", "int,int", "C08")
def _(c):
    c.returns(dcoef(c.arg(0), c.arg(1)))


@contract(POL + "::Polynom", "VectorXd", "C08")
def _(c):
    c.returns(StructV(POL, None, coefficients=c.arg(0)))


@contract(POL + "::value", "double,int", "C08")
def _(c):
    co, x, d = c.this.coefficients, c.arg(0), c.arg(1)
    n = co.rows
    c.requires(ge(d, 0), eq(co.cols, 1))
    c.returns(Sum(tmax(n - d, 0), lambda m: dcoef(m + d, d) * co(n - 1 - d - m) * powterm(x, m)))


@contract(PPOL + "::ProblemPolynom", "Variable", "C08")
def _(c):
    c.returns(StructV(PPOL, None, variable=c.arg(0).obj))


@contract(PPOL + "::expr", "double,int", "C08")
def _(c):
    v, x, d = c.this.variable, c.arg(0), c.arg(1)
    n = v.k_end - v.k_start
    c.requires(ge(v.k_start, 0), ge(n, 0), ge(d, 0))

    def coef(i):
        # the i-th component of the variable multiplies x^(n-1-i)
        o = n - 1 - i
        return ite(ge(o, d), dcoef(o, d) * powterm(x, o - d), 0)
    c.returns(expr(Mat(1, v.k_end, lambda i, j: ite(ge(j, v.k_start), coef(j - v.k_start), 0)), zeros(1, 1)))


@contract(PPOL + "::get_polynom", "", "C08")
def _(c):
    c.returns(StructV(POL, None, coefficients=c.this.variable.value))
