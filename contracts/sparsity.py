"""Contracts of Sparsity (C05)."""
from spec import *

SP = "placo::problem::Sparsity"
IV = SP + "::Interval"


@contract(IV + "::Interval", "", "C05")
def _(c):
    c.returns(StructV(IV, None, start=P(0), end=P(0)))


@contract(IV + "::Interval", "int,int", "C05")
def _(c):
    c.returns(StructV(IV, None, start=P(c.arg(0)), end=P(c.arg(1))))


@contract(IV + "::contains", "int", "C05")
def _(c):
    s, i = c.this, c.arg(0)
    c.returns(AND(le(s.start, i), le(i, s.end)))
