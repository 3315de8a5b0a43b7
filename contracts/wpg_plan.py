"""Contracts of the walk pattern generator's planning steps (C25)."""
from spec import *
import wpg
from wpg import *
from footsteps import HP

WG = HU + "WalkPatternGenerator"


# ---------------------------------------------------------------- timings
def timings(p):
    """time step, time steps and durations of the double supports"""
    n = p.single_support_timesteps
    dt = p.single_support_duration * inv(n)
    a, b = T.tround(p.double_support_ratio * n), T.tround(p.startend_double_support_ratio * n)
    return dict(dt=dt, double_support_timesteps=a, startend_double_support_timesteps=b, double_support_duration=a * dt, startend_double_support_duration=b * dt)


def sane(c, p):
    c.requires(gt(p.single_support_timesteps, 0))


for _f in ("dt", "double_support_timesteps", "startend_double_support_timesteps", "double_support_duration", "startend_double_support_duration"):
    @contract(HP + "::" + _f, "", "C25")
    def _(c, _f=_f):
        sane(c, c.this)
        c.returns(timings(c.this)[_f])


@contract(HP + "::has_double_support", "", "C25")
def _(c):
    sane(c, c.this)
    c.returns(gt(timings(c.this)["double_support_timesteps"], 0))


def of_support(p, s, single, what):
    t = timings(p)
    return ite(eq(s.footsteps.len, 2), ite(OR(s.start, s.end), t["startend_double_support_" + what], t["double_support_" + what]), single)


@contract(WG + "::support_default_timesteps", "Support", "C25")
def _(c):
    p = c.this.parameters
    sane(c, p)
    c.returns(of_support(p, c.arg(0), p.single_support_timesteps, "timesteps"))


@contract(WG + "::support_default_duration", "Support", "C25")
def _(c):
    p = c.this.parameters
    sane(c, p)
    c.returns(of_support(p, c.arg(0), p.single_support_duration, "duration"))


@contract(WG + "::can_replan_supports", "Trajectory,double", "C25")
def _(c):
    w, t = c.arg(0), c.arg(1)
    tile(c, w.parts)
    c.throws(eq(w.parts.len, 0))
    k = part_of(w.parts, t)
    c.assume(OR(eq(w.parts.len, 0), contains(w.parts, k, t)))
    s, n = w.parts(k).support, w.parts(tmin(k + 1, w.parts.len - 1)).support
    c.returns(NOT(OR(s.start, s.end, n.end, eq(s.footsteps.len, 2))))
