"""Contracts of footsteps, supports, step clipping and planners (C18, C19)."""
from spec import *
from utils import rot_z, atan2
from fractions import Fraction

FP = "placo::humanoid::FootstepsPlanner"
FS = FP + "::Footstep"
SU = FP + "::Support"
HP = "placo::humanoid::HumanoidParameters"
HR = "placo::humanoid::HumanoidRobot"
LEFT, RIGHT = 0, 1
ANY = OpaqueV("unspecified")


def other(s):
    return ite(eq(s, LEFT), RIGHT, LEFT)


@contract(HR + "::other_side", "Side", "C18")
def _(c):
    c.requires(OR(eq(c.arg(0), LEFT), eq(c.arg(0), RIGHT)))
    c.returns(other(c.arg(0)))


# ------------------------------------------------------------------ parameters
def scaled(w, step):
    """the displacement in units of the reachable amounts"""
    fx = ite(ge(step(0), 0), w.walk_max_dx_forward, w.walk_max_dx_backward)
    return [step(0) * inv(fx), step(1) * inv(w.walk_max_dy), step(2) * inv(w.walk_max_dtheta)]


def reach(c, w):
    c.requires(*[gt(getattr(w, f), 0) for f in ("walk_max_dx_forward", "walk_max_dx_backward", "walk_max_dy", "walk_max_dtheta")])


def norm_ellipsoid(u):
    return sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2])


def norm_box(u):
    return tabs(u[0]) + tabs(u[1]) + tabs(u[2])


def norm_conic(u):
    return sqrt(u[0] * u[0] + u[1] * u[1]) + tabs(u[2])


def clipped(w, norm, step):
    n = norm(scaled(w, step))
    k = ite(gt(n, 1), inv(n), 1)
    return Mat(3, 1, lambda i, j: step(i) * k)


def opaque_clip(w, name, step):
    """the clipped displacement as a named function of its inputs: callers reason with the name, the definition is proved on the function itself"""
    a = tuple(P(x) for x in (w.walk_max_dx_forward, w.walk_max_dx_backward, w.walk_max_dy, w.walk_max_dtheta, step(0), step(1), step(2)))
    return mat_of([[T.app("def:clip_%s_%d" % (name, i), a)] for i in range(3)])


NORMS = dict(ellipsoid=norm_ellipsoid, box=norm_box, conic=norm_conic)
for name, nf in NORMS.items():
    def mk(name, nf):
        def k(c):
            w, step = c.this, c.arg(0)
            reach(c, w)
            c.returns(opaque_clip(w, name, step) if c.mode == "call" else clipped(w, nf, step))
        return k
    contract(HP + "::" + name + "_clip", "Vector3d", "C18")(mk(name, nf))


def moved(frame, sgn, spacing, dx, dy, dth):
    """frame displaced in its own axes"""
    t = vec(dx, dy + sgn * spacing, 0)
    R, p = frame.linear, frame.translation
    mv = matmul(raw(R), raw(t))
    return affine(matmul(raw(R), rot_z(dth)), Mat(3, 1, lambda i, j: p(i) + mv(i, 0)))


def opposite(w, side, frame, dx, dy, dth):
    return moved(frame, ite(eq(side, LEFT), -1, 1), w.feet_spacing, dx, dy, dth)


@contract(HP + "::opposite_frame", "Side,Affine3d,double,double,double", "C18")
def _(c):
    side, f, dx, dy, dth = c.args
    c.returns(opposite(c.this, side, f, dx, dy, dth))


@contract(HP + "::neutral_frame", "Side,Affine3d,double,double,double", "C18")
def _(c):
    side, f, dx, dy, dth = c.args
    c.returns(moved(f, ite(eq(side, LEFT), -1, 1), c.this.feet_spacing * Fraction(1, 2), dx, dy, dth))


# ------------------------------------------------------------------ footsteps
def corner(f, margin, k):
    """k-th corner, clockwise: (-,+) (+,+) (+,-) (-,-)"""
    sx = ite(OR(eq(k, 0), eq(k, 3)), -1, 1)
    sy = ite(OR(eq(k, 0), eq(k, 1)), 1, -1)
    x, y = sx * (margin + f.foot_length * Fraction(1, 2)), sy * (margin + f.foot_width * Fraction(1, 2))
    R, p = f.frame.linear, f.frame.translation
    return Mat(2, 1, lambda i, j: p(i) + R(i, 0) * x + R(i, 1) * y)


def rect(f, margin):
    return SeqV(P(4), lambda k: corner(f, margin, k))


@contract(FS + "::compute_polygon", "double", "C19")
def _(c):
    c.returns(rect(c.this, c.arg(0)))


@contract(FS + "::support_polygon", "", "C19")
def _(c):
    r = rect(c.this, P(0))
    c.set(c.this, "polygon", r)
    c.set(c.this, "computed_polygon", TRUE)
    c.returns(r)


@contract(FP + "::create_footstep", "Side,Affine3d", "C18")
def _(c):
    p = c.this.parameters
    c.returns(StructV(FS, None, foot_width=p.foot_width, foot_length=p.foot_length, side=c.arg(0), frame=raw(c.arg(1)),
                      polygon=seq_of([], "Eigen::Vector2d"), computed_polygon=FALSE))


def edge_dot(poly, n, k, pt):
    """positive inside, for the edge of a clockwise polygon that ends at vertex k"""
    b = poly(k)
    a = [ite(eq(k, 0), poly(n - 1)(i), poly(k - 1)(i)) for i in range(2)]
    return (b(1) - a[1]) * (pt(0) - a[0]) - (b(0) - a[0]) * (pt(1) - a[1])


def all_in(n, f):
    k = T.fresh("k", "I")
    return T.forall((k,), IMP(AND(ge(P(k), 0), lt(P(k), n)), f(P(k))))


@contract(FS + "::polygon_contains", "vector<Vector2d>,Vector2d", "C19")
def _(c):
    poly, pt = c.args
    n = poly.len
    c.requires(ge(n, 1))
    c.returns(all_in(n, lambda k: ge(edge_dot(poly, n, k, pt), 0)))


def separates(p, np_, q, nq):
    return NOT(all_in(np_, lambda k: NOT(all_in(nq, lambda j: lt(edge_dot(p, np_, k, q(j)), 0)))))


@contract(FS + "::polygon_separates", "vector<Vector2d>,vector<Vector2d>", "C18")
def _(c):
    p, q = c.args
    c.requires(ge(p.len, 1))
    c.returns(separates(p, p.len, q, q.len))


def overlapping(f, g, margin):
    p, q = rect(f, margin), rect(g, margin)
    return AND(NOT(separates(p, P(4), q, P(4))), NOT(separates(q, P(4), p, P(4))))


def opaque_overlap(f, g, margin):
    a = []
    for q in (f, g):
        R, t = q.frame.linear, q.frame.translation
        a += [q.foot_width, q.foot_length] + [R(i, j) for i in range(2) for j in range(2)] + [t(0), t(1)]
    return gt(T.app("def:overlap", tuple(P(x) for x in a + [margin])), 0)


@contract(FS + "::overlap", "Footstep,double", "C18")
def _(c):
    c.returns((opaque_overlap if c.mode == "call" else overlapping)(c.this, c.arg(0), c.arg(1)))


def opposite_step(w, f, dx, dy, dth):
    r = {k: raw(getattr(f, k)) for k in ("foot_width", "foot_length", "polygon", "computed_polygon")}
    return StructV(FS, None, side=other(f.side), frame=opposite(w.parameters, f.side, f.frame, dx, dy, dth), **r)


def side_ok(c, s):
    c.requires(OR(eq(s, LEFT), eq(s, RIGHT)))


@contract(FP + "::opposite_footstep", "Footstep,double,double,double", "C18")
def _(c):
    f, dx, dy, dth = c.args
    side_ok(c, f.side)
    c.returns(opposite_step(c.this, f, dx, dy, dth))


ELL, BOX, CONIC = 0, 1, 2


def wanted(w, f, dx, dy, dth):
    """requested displacement, widened by the turn, clipped to the reachable set"""
    p = w.parameters
    wide = p.walk_dtheta_spacing * tabs(dth)
    s = vec(dx, ite(eq(f.side, LEFT), dy - wide, dy + wide), dth)
    cl = {k: opaque_clip(p, k, s) for k in NORMS}
    m = w.footstep_clipping
    return Mat(3, 1, lambda i, j: ite(eq(m, CONIC), cl["conic"](i, j), ite(eq(m, ELL), cl["ellipsoid"](i, j), ite(eq(m, BOX), cl["box"](i, j), s(i, j)))))


REDUCTIONS = 32


def clipped_step(w, f, dx, dy, dth):
    """the first of the candidates reduced by 10 % each time that does not overlap the support foot (the last one if all do)"""
    s = wanted(w, f, dx, dy, dth)
    cands = []
    for k in range(REDUCTIONS + 1):
        q = Fraction(9, 10) ** k
        cands.append(opposite_step(w, f, q * s(0), q * s(1), q * s(2)))
    clash = [opaque_overlap(x, f, P(Fraction(1, 100))) for x in cands[:-1]]

    def pick(g):
        v = g(cands[-1])
        for x, b in reversed(list(zip(cands, clash))):
            v = ite(b, v, g(x))
        return v
    fr = affine(mat_of([[pick(lambda x: x.frame.linear(i, j)) for j in range(3)] for i in range(3)]),
                mat_of([[pick(lambda x: x.frame.translation(i))] for i in range(3)]))
    return opposite_like(f, fr)


def opposite_like(f, fr):
    r = {k: raw(getattr(f, k)) for k in ("foot_width", "foot_length", "polygon", "computed_polygon")}
    return StructV(FS, None, side=other(f.side), frame=fr, **r)


PARAMS = ("feet_spacing", "walk_dtheta_spacing", "walk_max_dx_forward", "walk_max_dx_backward", "walk_max_dy", "walk_max_dtheta")


def opaque_step(w, f, dx, dy, dth):
    p = w.parameters
    R, t = f.frame.linear, f.frame.translation
    a = [f.side, f.foot_width, f.foot_length, dx, dy, dth, w.footstep_clipping] + [getattr(p, x) for x in PARAMS] \
        + [R(i, j) for i in range(3) for j in range(3)] + [t(i) for i in range(3)]
    a = tuple(P(x) for x in a)
    return opposite_like(f, affine(Mat(3, 3, lambda i, j: T.app("def:step_R", a + (P(i), P(j)))), Mat(3, 1, lambda i, j: T.app("def:step_t", a + (P(i),)))))


@contract(FP + "::clipped_opposite_footstep", "Footstep,double,double,double", "C18")
def _(c):
    w = c.this
    f, dx, dy, dth = c.args
    side_ok(c, f.side)
    reach(c, w.parameters)
    c.returns((opaque_step if c.mode == "call" else clipped_step)(w, f, dx, dy, dth))


# ------------------------------------------------------------------ supports
def support(footsteps, t_start=-1, start=FALSE, end=FALSE):
    return StructV(SU, None, footsteps=footsteps, t_start=P(t_start), elapsed_ratio=P(0), time_ratio=P(1), target_world_dcm=zeros(2, 1),
                   start=start, end=end, polygon=seq_of([], "Eigen::Vector2d"), computed_polygon=FALSE)


@contract(SU + "::Support", "vector<Footstep>", "C19")
def _(c):
    c.returns(support(raw(c.arg(0))))


@contract(SU + "::Support", "", "C19")
def _(c):
    c.returns(support(seq_of([], FS)))


@contract(SU + "::is_both", "", "C19")
def _(c):
    c.returns(eq(c.this.footsteps.len, 2))


@contract(SU + "::side", "", "C19")
def _(c):
    fs = c.this.footsteps
    c.requires(ge(fs.len, 1))
    c.throws(gt(fs.len, 1))
    c.returns(fs(0).side)


def foot_frame(fs, side):
    """frame of the first of at most two footsteps of that side"""
    z = eq(fs(0).side, side)
    a, b = fs(0).frame, fs(1).frame
    return affine(Mat(3, 3, lambda i, j: ite(z, a.linear(i, j), b.linear(i, j))), Mat(3, 1, lambda i, j: ite(z, a.translation(i), b.translation(i))))


@contract(SU + "::footstep_frame", "Side", "C19")
def _(c):
    fs, side = c.this.footsteps, c.arg(0)
    c.requires(ge(fs.len, 0))
    isnt = lambda j: NOT(eq(fs(j).side, side))
    c.throws(all_in(fs.len, isnt))
    if c.mode == "call" and c.ex.valid(c.st, le(fs.len, 2)):
        c.returns(foot_frame(fs, side))
        return
    k = P(T.fresh("sk", "I"))
    a = fs(k).frame
    for i in range(3):
        for j in range(4):
            c.ensures("the first footstep of that side (%d,%d)" % (i, j), lambda r, post, i=i, j=j:
                      IMP(AND(ge(k, 0), lt(k, fs.len), eq(fs(k).side, side), all_in(k, isnt)),
                          eq(r.linear(i, j), a.linear(i, j)) if j < 3 else eq(r.translation(i), a.translation(i))))


@contract(SU + "::frame", "", "C19")
def _(c):
    fs = c.this.footsteps
    c.requires(ge(fs.len, 1), le(fs.len, 2))
    a, b = fs(0).frame, fs(1).frame
    one = eq(fs.len, 1)
    h = Fraction(1, 2)
    S = slerp(raw(a.linear), raw(b.linear), P(h))
    c.returns(affine(Mat(3, 3, lambda i, j: ite(one, a.linear(i, j), S(i, j))),
                     Mat(3, 1, lambda i, j: ite(one, a.translation(i), a.translation(i) * h + b.translation(i) * h))))


def shifted(f, dx, dy):
    R, t = f.frame.linear, f.frame.translation
    r = {k: raw(getattr(f, k)) for k in ("foot_width", "foot_length", "polygon", "side")}
    return StructV(FS, None, frame=affine(raw(R), Mat(3, 1, lambda i, j: t(i) + ite(eq(i, 0), dx, ite(eq(i, 1), dy, 0)))), computed_polygon=FALSE, **r)


@contract(SU + "::apply_offset", "Vector2d", "C19")
def _(c):
    o = c.arg(0)
    fs = c.this.footsteps
    c.set(c.this, "footsteps", SeqV(fs.len, lambda k: shifted(fs(k), o(0), o(1)), FS))
    c.set(c.this, "computed_polygon", FALSE)


def carried(T_, f):
    r = {k: raw(getattr(f, k)) for k in ("foot_width", "foot_length", "polygon", "side")}
    return StructV(FS, None, frame=aff_mul(raw(T_), raw(f.frame)), computed_polygon=FALSE, **r)


SUF = ("t_start", "elapsed_ratio", "time_ratio", "target_world_dcm", "start", "end", "polygon")


@contract(SU + "::operator*", "Affine3d,Support", "C19")
def _(c):
    T_, s = c.args
    fs = s.footsteps
    c.returns(StructV(SU, None, footsteps=SeqV(fs.len, lambda k: carried(T_, fs(k)), FS), computed_polygon=FALSE,
                      **{k: raw(getattr(s, k)) for k in SUF}))


@contract(FP + "::make_supports", "vector<Footstep>,double,bool,bool,bool", "C19")
def _(c):
    fs, t0, start, middle, end = c.args
    n = fs.len
    c.requires(ge(n, 0), OR(NOT(end), ge(n, 2)))
    many = gt(n, 2)
    L0 = ite(start, 1, ite(middle, 2, 1))   # supports before the steps
    one = lambda k: SeqV(P(1), lambda i: raw(fs(k)), FS)
    two = lambda k: SeqV(P(2), lambda i: merge(eq(i, 0), raw(fs(k)), raw(fs(k + 1))), FS)

    def mk(double, k, t_start=-1, s=FALSE, e=FALSE):
        f = SeqV(ite(double, 2, 1), lambda i: merge(eq(i, 0), raw(fs(k)), raw(fs(k + 1))), FS)
        return support(f, t_start, s, e)

    def elem(j):
        o = j - L0
        q = T.ediv(o, 2)
        inner = merge(middle, mk(eq(o - 2 * q, 1), q + 1), mk(FALSE, o + 1))
        first = mk(start, P(0), t0, start)
        second = mk(TRUE, P(0), t0)      # double support after a single first support
        return merge(eq(j, 0), first, merge(lt(j, L0), second, inner))

    def count(k):
        return L0 + k + ite(middle, tmin(k, n - 3), 0)
    c.loop("supports", lambda init, k: SeqV(count(k), elem, SU))
    m = ite(many, count(n - 2), 0)
    last = mk(TRUE, n - 2, -1, FALSE, TRUE)
    c.returns(SeqV(m + ite(end, 1, 0), lambda j: merge(lt(j, m), elem(j), last), SU))


# ------------------------------------------------------------------ plans
def new_step(w, side, frame):
    p = w.parameters
    return StructV(FS, None, foot_width=p.foot_width, foot_length=p.foot_length, side=side, frame=frame, polygon=seq_of([], "Eigen::Vector2d"), computed_polygon=FALSE)


def alternate(fs, n0, n):
    """the footsteps added from index n0 on alternate sides, starting with the other side of the last given one"""
    return all_in(n - n0, lambda k: eq(fs(n0 + k).side, other(fs(n0 + k - 1).side)))


def plan_rule(c):
    """what every plan_impl does to the plan: keeps the given footsteps and appends alternating ones"""
    fs = c.arg(0)
    n0 = fs.len
    c.requires(ge(n0, 2), OR(eq(fs(n0 - 1).side, LEFT), eq(fs(n0 - 1).side, RIGHT)))
    return fs, n0


@contract(FP + "::plan_impl", "vector<Footstep>,Side,Affine3d,Affine3d", "C18", trusted=True)
def _(c):
    fs, n0 = plan_rule(c)
    u = T._fresh
    nm = "plan%d" % next(u)
    n = T.fresh("planned", "I", nonneg=True)
    f = lambda k, x: T.app(nm + x, (P(k),))

    def added(k):
        fr = affine(Mat(3, 3, lambda i, j: T.app(nm + "R", (P(k), P(i), P(j)))), Mat(3, 1, lambda i, j: T.app(nm + "t", (P(k), P(i)))))
        return StructV(FS, None, foot_width=f(k, "w"), foot_length=f(k, "l"), side=T.app(nm + "side", (P(k),), "I"), frame=fr,
                       polygon=seq_of([], "Eigen::Vector2d"), computed_polygon=FALSE)
    out = SeqV(n0 + n, lambda k: merge(lt(k, n0), raw(fs(k)), added(k)), FS)
    c.set_arg(0, out)
    c.assume(alternate(out, n0, n0 + n))


@contract(FP + "::plan", "Side,Affine3d,Affine3d", "C18")
def _(c):
    side, L, R = c.args
    side_ok(c, side)
    pick = lambda s: merge(eq(s, LEFT), raw(L), raw(R))
    first = [new_step(c.this, side, pick(side)), new_step(c.this, other(side), pick(other(side)))]
    k = P(T.fresh("sk", "I"))
    for i, want in enumerate(first):
        c.ensures("footstep %d is the given foot" % i, lambda r, post, i=i, want=want: AND(
            ge(r.len, 2), eq(r(i).side, want.side), eq(r(i).foot_width, want.foot_width), eq(r(i).foot_length, want.foot_length),
            *[eq(r(i).frame.translation(a), want.frame.translation(a)) for a in range(3)],
            *[eq(r(i).frame.linear(a, b), want.frame.linear(a, b)) for a in range(3) for b in range(3)]))
    c.ensures("sides alternate", lambda r, post: IMP(AND(ge(k, 2), lt(k, r.len)), eq(r(k).side, other(r(k - 1).side))))


RP = "placo::humanoid::FootstepsPlannerRepetitive"
NP = "placo::humanoid::FootstepsPlannerNaive"


@contract(RP + "::configure", "double,double,double,int", "C18")
def _(c):
    for f, v in zip(("d_x", "d_y", "d_theta", "nb_steps"), c.args):
        c.set(c.this, f, v)


@contract(RP + "::plan_impl", "vector<Footstep>,Side,Affine3d,Affine3d", "C18")
def _(c):
    fs, n0 = plan_rule(c)
    w = c.this
    c.requires(eq(n0, 2))
    reach(c, w.parameters)
    n = tmax(w.nb_steps, 0)
    c.set_arg(0, ANY)       # described by the clauses below
    k = P(T.fresh("sk", "I"))
    c.ensures("as many steps as configured", lambda r, post: eq(post.arg(0).len, n0 + n))
    for i in range(2):
        c.ensures("given footsteps kept %d" % i, lambda r, post, i=i: AND(eq(post.arg(0)(i).side, fs(i).side),
                  *[eq(post.arg(0)(i).frame.translation(a), fs(i).frame.translation(a)) for a in range(3)],
                  *[eq(post.arg(0)(i).frame.linear(a, b), fs(i).frame.linear(a, b)) for a in range(3) for b in range(3)]))
    c.ensures("sides alternate", lambda r, post: IMP(AND(ge(k, n0), lt(k, n0 + n)), eq(post.arg(0)(k).side, other(post.arg(0)(k - 1).side))))

    def stepped(r, post, last):
        p = post.arg(0)
        z = (P(0),) * 3 if last else (w.d_x, w.d_y, w.d_theta)
        q = opaque_step(w, p(k - 1), *z)
        rng = AND(eq(k, n0 + n - 1), ge(n, 1)) if last else AND(ge(k, n0), lt(k, n0 + n - 1))
        return IMP(rng, AND(*[eq(p(k).frame.translation(a), q.frame.translation(a)) for a in range(3)],
                            *[eq(p(k).frame.linear(a, b), q.frame.linear(a, b)) for a in range(3) for b in range(3)]))
    c.ensures("every step is the configured one from the previous footstep", lambda r, post: stepped(r, post, False))
    c.ensures("the last step brings the feet side by side", lambda r, post: stepped(r, post, True))


@contract(NP + "::configure", "Affine3d,Affine3d", "C18")
def _(c):
    c.set(c.this, "T_world_targetLeft", raw(c.arg(0)))
    c.set(c.this, "T_world_targetRight", raw(c.arg(1)))
