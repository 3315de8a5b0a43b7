"""Discharging obligations: normaliser + z3 (cvc5 as second back end)."""
import itertools
import time, subprocess, tempfile, os
from fractions import Fraction
import z3
from terms import *
import terms as T

STATS = {"queries": 0, "z3_s": 0.0, "cvc5_s": 0.0, "by": {}}
_decl = {}
OBJ = z3.DeclareSort("Obj")
STR = z3.DeclareSort("Str")
SORT = {"I": z3.IntSort(), "R": z3.RealSort(), "Obj": OBJ, "Str": STR, "B": z3.BoolSort()}


def zsort(name):
    if name not in SORT:
        SORT[name] = z3.DeclareSort(name)
    return SORT[name]


def fdecl(name, dom, rng):
    key = (name, tuple(str(d) for d in dom), str(rng))
    f = _decl.get(key)
    if f is None:
        n = name + "".join("/" + str(d)[0] for d in dom) + ":" + str(rng)[0]
        f = z3.Function(n, *dom, rng)
        _decl[key] = f
    return f


_lits = {}
_zc = {}


def zc(x):
    """term -> z3"""
    r = _zc.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = _zpoly(x)
    elif isinstance(x, Atom):
        r = _zatom(x)
    elif isinstance(x, B):
        r = _zb(x)
    else:
        raise Unsupported("z3 of %r" % (x,))
    _zc[x] = r
    return r


def _num(c, isint):
    if isint:
        return z3.IntVal(int(c))
    return z3.RealVal(str(c))


def _zpoly(p):
    isint = p.is_int()
    terms = []
    for m, c in p.t:
        fs = []
        for a, e in m:
            za = zc(a)
            if not isint and a.sort == "I":
                za = z3.ToReal(za)
            fs += [za] * e
        if not fs:
            terms.append(_num(c, isint))
        else:
            t = fs[0] if len(fs) == 1 else z3.Product(fs)
            terms.append(t if c == 1 else _num(c, isint) * t)
    if not terms:
        return z3.IntVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def _asort(x):
    if isinstance(x, Poly):
        return SORT["I"] if x.is_int() else SORT["R"]
    if isinstance(x, B):
        return SORT["B"]
    return zsort(x.sort)


# functions whose numeric arguments are always real
REALARGS = {"sqrt", "sin", "cos", "floor", "atan2", "exp", "log", "pow", "tan", "acos", "asin"}


def _zargs(f, args):
    out = []
    for a in args:
        z = zc(a)
        if f in REALARGS and z.sort() == SORT["I"]:
            z = z3.ToReal(z)
        out.append(z)
    return out


def _zatom(a):
    k = a.kind
    if k == "var":
        return z3.Const(a.data, zsort(a.sort))
    if k in ("lit", "new"):
        c = z3.Const("%s:%s" % (k, a.data), zsort(a.sort))
        _lits.setdefault(a.sort, {})[a] = c
        return c
    if k == "app":
        args = _zargs(a.data[0], a.data[1:])
        if not args:
            return z3.Const(a.data[0], zsort(a.sort))
        return fdecl(a.data[0], [x.sort() for x in args], zsort(a.sort))(*args)
    if k == "ite":
        x, y = zc(a.data[1]), zc(a.data[2])
        if a.sort in ("I", "R") and x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == SORT["I"] else x
            y = z3.ToReal(y) if y.sort() == SORT["I"] else y
        if a.sort == "R" and x.sort() == SORT["I"]:
            x, y = z3.ToReal(x), z3.ToReal(y)
        return z3.If(zc(a.data[0]), x, y)
    if k == "sum":
        hi, kv, body = a.data
        shape, params = sum_shape(kv, body)
        args = [zc(hi)] + [zc(p) for p in params]
        return fdecl("SUM<" + shape + ">", [x.sort() for x in args], zsort(a.sort))(*args)
    if k == "inv":
        d = zc(a.data)
        if d.sort() == SORT["I"]:
            d = z3.ToReal(d)
        return fdecl("inv", [SORT["R"]], SORT["R"])(d)
    raise Unsupported("z3 atom " + k)


def sum_shape(kv, body):
    """canonical shape string with k-free maximal subterms abstracted"""
    params = []
    pid = {}
    anon = [True]
    memo = {}

    def hole(t):
        if anon[0]:
            return "#%s" % _asort(t)
        if t not in pid:
            pid[t] = len(params)
            params.append(t)
        return "#%d%s" % (pid[t], _asort(t))

    def key(t):
        # order independent of hole numbers
        r = memo.get(t)
        if r is None:
            was, anon[0] = anon[0], True
            r = memo[t] = go(t)
            anon[0] = was
        return r

    def mkey(mc):
        return (str(mc[1]),) + tuple(sorted("%s^%d" % (key(a), e) for a, e in mc[0]))

    def go(t):
        if isinstance(t, Poly):
            if t.const() is not None:
                return str(t.const())
            if kv not in t.fv:
                return hole(t)
            parts = []
            for m, c in sorted(t.t, key=mkey):
                fs = [go(a) + "^%d" % e for a, e in sorted(m, key=lambda x: (key(x[0]), x[1]))]
                parts.append("%s*%s" % (c, "*".join(fs)))
            return "(" + "+".join(parts) + ")"
        if isinstance(t, Atom):
            if t is kv:
                return "$k"
            if kv not in t.fv:
                if t.kind in ("lit", "new"):
                    return hole(t)
                return hole(P(t) if t.sort in ("I", "R") else t)
            if t.kind == "app":
                return "%s(%s)" % (t.data[0], ",".join(go(x) for x in t.data[1:]))
            if t.kind == "ite":
                return "ite(%s,%s,%s)" % tuple(go(x) for x in t.data)
            if t.kind == "sum":
                return "S[%s;%s;%s]" % (go(t.data[0]), t.data[1].data, go(t.data[2]))
            if t.kind == "inv":
                return "inv(%s)" % go(t.data)
            if t.kind == "var":
                return "?" + t.data
            raise Unsupported("sum shape " + t.kind)
        if isinstance(t, B):
            if kv not in t.fv:
                return hole(t)
            return "%s(%s)" % (t.kind, ",".join(go(x) if not isinstance(x, str) else x for x in t.data))
        return str(t)
    anon[0] = False
    # inner bound variables of nested sums count as 'vars' named $k<n>: keep them literal
    return go(body), params


def _zb(b):
    k = b.kind
    if k == "true":
        return z3.BoolVal(True)
    if k == "false":
        return z3.BoolVal(False)
    if k == "bvar":
        return z3.Bool(b.data)
    if k in ("le", "lt", "eq"):
        p = b.data[0]
        z = zc(p)
        zero = z3.IntVal(0) if z.sort() == SORT["I"] else z3.RealVal(0)
        return {"le": z <= zero, "lt": z < zero, "eq": z == zero}[k]
    if k == "not":
        return z3.Not(zc(b.data[0]))
    if k == "and":
        return z3.And(*[zc(x) for x in b.data])
    if k == "or":
        return z3.Or(*[zc(x) for x in b.data])
    if k == "bapp":
        args = _zargs(b.data[0], b.data[1:])
        if not args:
            return z3.Bool(b.data[0])
        return fdecl(b.data[0], [x.sort() for x in args], SORT["B"])(*args)
    if k == "eqo":
        return zc(b.data[0]) == zc(b.data[1])
    if k == "forall":
        vs, body = b.data
        zv = [z3.Const(v.data, zsort(v.sort)) for v in vs]
        zbody = zc(body)
        return z3.ForAll(zv, zbody)
    raise Unsupported("z3 bool " + k)


# ------------------------------------------------------------ atom axioms
def collect(ts):
    """all atoms in terms (not under binders' bound variables)"""
    seen = set()
    out = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack.extend(t)
            continue
        if not isinstance(t, (Poly, Atom, B)) or t in seen:
            continue
        seen.add(t)
        if isinstance(t, Poly):
            for m, _ in t.t:
                for a, _e in m:
                    stack.append(a)
        elif isinstance(t, Atom):
            out.add(t)
            if t.kind == "sum":
                stack.append(t.data[0])
                shape, params = sum_shape(t.data[1], t.data[2])
                stack.extend(params)
            elif t.kind not in ("var", "lit", "new"):
                stack.append(t.data)
        else:
            stack.append(t.data)
    return out


def is_bound(a):
    return any(v.data.startswith("$") for v in a.fv)


EXTRA_AXIOMS = []    # functions atom -> list[B]
SET_AXIOMS = []      # functions set of atoms -> list[B]
REWRITES = []        # functions (facts, goal, budget) -> goal


def axioms(atoms):
    ax = []
    trig = {}
    for a in atoms:
        if is_bound(a):
            continue
        if a.nonneg and a.kind in ("var", "app", "sum") and a.sort in ("I", "R"):
            ax.append(mk_b("le", (-P(a),)))
        if a.kind == "inv":
            ax.append(OR(eq(a.data, ZERO), eq(P(a) * a.data, ONE)))
            ax.append(IMP(gt(a.data, ZERO), gt(P(a), ZERO)))
            ax.append(IMP(lt(a.data, ZERO), lt(P(a), ZERO)))
        elif a.kind == "app":
            f = a.data[0]
            if f == "sqrt":
                x = a.data[1]
                ax.append(IMP(ge(x, ZERO), AND(eq(P(a) * P(a), x), ge(P(a), ZERO))))
                ax.append(IMP(gt(x, ZERO), gt(P(a), ZERO)))
            elif f in ("sin", "cos"):
                trig.setdefault(a.data[1], {})[f] = a
                ax.append(AND(le(P(a), ONE), ge(P(a), -ONE)))
            elif f == "atan2":
                ax.append(AND(le(P(a), T.PI), ge(P(a), -T.PI)))
            elif f == "acos":
                ax.append(AND(ge(P(a), ZERO), le(P(a), T.PI)))
            elif f == "floor":
                x = a.data[1]
                ax.append(AND(le(P(a), x), lt(x, P(a) + ONE)))
            elif f == "idiv":
                x, n = a.data[1], a.data[2]
                if n.iconst():
                    ax.append(AND(le(n * P(a), x), lt(x, n * P(a) + n)))
        for g in EXTRA_AXIOMS:
            ax.extend(g(a))
    for g in SET_AXIOMS:
        ax.extend(g(atoms))
    for x, d in trig.items():
        s, c = T.app("sin", (x,)), T.app("cos", (x,))
        ax.append(eq(s * s + c * c, ONE))
    return [x for x in ax if x is not TRUE]


class Result:
    __slots__ = ("status", "by", "model", "detail", "time")

    def __init__(self, status, by="", model=None, detail="", time=0.0):
        self.status, self.by, self.model, self.detail, self.time = status, by, model, detail, time

    def __repr__(self):
        return "%s[%s]" % (self.status, self.by)


def _nonlinear(ts):
    for a in collect(ts):
        pass
    return True


def _solver(timeout_ms, arith=None):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    return s


def _setup(s, facts, goal_neg):
    ts = list(facts) + ([goal_neg] if goal_neg is not None else [])
    atoms = collect(ts)
    ax = axioms(atoms)
    at2 = collect(ax) - atoms
    if at2:
        ax += axioms(at2)
    for f in facts:
        s.add(zc(f))
    for f in ax:
        s.add(zc(f))
    if goal_neg is not None:
        s.add(zc(goal_neg))
    by = {}
    for a in atoms | at2:
        if a.kind in ("lit", "new"):
            by.setdefault(a.sort, []).append(zc(a))
    for sort, cs in by.items():
        if len(cs) > 1:
            s.add(z3.Distinct(*cs))


def check(facts, goal, timeout=5.0):
    """'unsat' means facts |= goal"""
    t0 = time.time()
    STATS["queries"] += 1
    s = _solver(timeout * 1000)
    _setup(s, facts, NOT(goal) if goal is not FALSE else None)
    r = s.check()
    dt = time.time() - t0
    STATS["z3_s"] += dt
    return str(r), s


def cvc5_check(s, timeout=10):
    """second opinion through SMT-LIB"""
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        res = out[0] if out else "unknown"
    except Exception:
        res = "unknown"
    finally:
        os.unlink(f.name)
    STATS["cvc5_s"] += time.time() - t0
    return res if res in ("sat", "unsat") else "unknown"


_valid_cache = {}


def quick_valid(facts, c, timeout=1.0):
    """facts |= c by z3 with linear abstraction of non-linear monomials"""
    key = (tuple(facts), c)
    r = _valid_cache.get(key)
    if r is None:
        fs = [linearise(f) for f in facts]
        r0, _ = check(fs, linearise(c), timeout)
        r = r0 == "unsat"
        _valid_cache[key] = r
    return r


_lin_memo = {}


def linearise(t):
    """abstract products of two or more non-constant atoms by opaque applications (sound for proving)"""
    r = _lin_memo.get(t)
    if r is not None:
        return r
    if isinstance(t, Poly):
        out = ZERO
        for m, c in t.t:
            m2 = tuple((linearise(a) if True else a, e) for a, e in m)
            if sum(e for _, e in m) <= 1:
                if not m2:
                    out = out + P(c)
                else:
                    out = out + P(c) * P(m2[0][0])
            else:
                args = []
                isint = all(a.sort == "I" for a, _ in m)
                for a, e in m2:
                    args += [P(a)] * e
                args.sort(key=lambda p: p.id)
                out = out + P(c) * P(mk_atom("app", ("mono%d" % len(args),) + tuple(args), "I" if isint else "R"))
        r = out
    elif isinstance(t, Atom):
        if t.kind in ("var", "lit", "new", "sum"):
            r = t
        elif t.kind == "app":
            r = mk_atom("app", (t.data[0],) + tuple(linearise(x) for x in t.data[1:]), t.sort)
        elif t.kind == "ite":
            r = mk_atom("ite", tuple(linearise(x) for x in t.data), t.sort)
        elif t.kind == "inv":
            r = mk_atom("inv", linearise(t.data), t.sort)
        else:
            r = t
    elif isinstance(t, B):
        if t.kind in ("le", "lt", "eq"):
            r = mk_b(t.kind, (linearise(t.data[0]),)) if linearise(t.data[0]).const() is None else \
                mk_cmp(t.kind, linearise(t.data[0]))
        elif t.kind == "not":
            r = NOT(linearise(t.data[0]))
        elif t.kind in ("and", "or"):
            r = (AND if t.kind == "and" else OR)(*[linearise(x) for x in t.data])
        elif t.kind == "bapp":
            r = mk_b("bapp", (t.data[0],) + tuple(linearise(x) for x in t.data[1:]))
        elif t.kind == "forall":
            r = mk_b("forall", (t.data[0], linearise(t.data[1])))
        else:
            r = t
    else:
        r = t
    _lin_memo[t] = r
    return r


def find_conds(t, acc, seen, lim=50):
    """conditions of if-then-else atoms, outermost first"""
    if t in seen or len(acc) > lim:
        return
    seen.add(t)
    if isinstance(t, Poly):
        for a in t.atoms():
            find_conds(a, acc, seen)
    elif isinstance(t, Atom):
        if t.kind == "ite":
            if not any(v.data.startswith("$") for v in t.data[0].fv):
                acc.append(t.data[0])
            find_conds(t.data[1], acc, seen)
            find_conds(t.data[2], acc, seen)
            find_conds(t.data[0], acc, seen)
        elif t.kind == "app":
            for x in t.data[1:]:
                find_conds(x, acc, seen)
        elif t.kind == "sum":
            find_conds(t.data[0], acc, seen)
            find_conds(t.data[2], acc, seen)
        elif t.kind == "inv":
            find_conds(t.data, acc, seen)
    elif isinstance(t, B):
        for x in t.data:
            if isinstance(x, (Poly, Atom, B)):
                find_conds(x, acc, seen)


def lit_of(c):
    """a literal to split on inside condition c"""
    while c.kind in ("and", "or", "not"):
        c = c.data[0]
    return c


def solve_eq(b):
    """equality literal -> (atom, poly) substitution, preferring integer variables"""
    if b.kind != "eq":
        return None
    p = b.data[0]
    best = None
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == "var" and not a.data.startswith("$") and (abs(c) == 1 or a.sort == "R"):
                rest = p - P(c) * P(a)
                if a in rest.fv:
                    continue
                e = rest * P(Fraction(-1) / c)
                if a.sort == "I" and not e.is_int():
                    continue
                if best is None or a.id > best[0].id:
                    best = (a, e)
    if best is None:
        # an application equal to something
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and (abs(c) == 1 or m[0][0].sort == "R"):
                a = m[0][0]
                rest = p - P(c) * P(a)
                if a in collect([rest]):
                    continue
                e = rest * P(Fraction(-1) / c)
                if a.sort == "I" and not e.is_int():
                    continue
                if best is None or a.id > best[0].id:
                    best = (a, e)
    return best


def simplify_facts(facts, goal, kept=()):
    """use equality facts as substitutions"""
    facts = flatten(facts)
    les = {f.data[0] for f in facts if f.kind == "le"}
    extra = [eq(p, 0) for p in les if -p in les and p.id < (-p).id]
    if extra:
        facts = flatten(facts + extra)
    for _ in range(40):
        done = True
        for f in facts:
            s = solve_eq(f)
            if s:
                m = {s[0]: s[1]}
                memo = {}
                facts2 = []
                for g in facts:
                    if g is f:
                        continue
                    g2 = subst(g, m, memo)
                    if g2 is not TRUE:
                        facts2.append(g2)
                facts = flatten(facts2)
                kept = tuple(kept) + (f,)
                goal = subst(goal, m, memo)
                done = False
                break
        if done:
            break
    return facts, goal, kept


def flatten(facts):
    out = []
    seen = set()
    for f in facts:
        for x in (f.data if f.kind == "and" else (f,)):
            if x.kind == "and":
                for y in flatten([x]):
                    if y not in seen:
                        seen.add(y)
                        out.append(y)
            elif x is not TRUE and x not in seen:
                seen.add(x)
                out.append(x)
    return out


class Budget:
    def __init__(self, seconds):
        self.end = time.time() + seconds

    def left(self):
        return self.end - time.time()


def prove(facts, goal, seconds=20.0):
    """facts: list[B]; goal: B.  Result proved / refuted / unknown."""
    t0 = time.time()
    bud = Budget(seconds)
    goal = bl(goal)
    try:
        r = _prove(flatten(facts), goal, bud, 0)
    except Unsupported as e:
        r = Result("unknown", detail="unsupported: %s" % e)
    except z3.Z3Exception as e:
        r = Result("unknown", detail="z3: %s" % e)
    if r.status == "unknown":
        # second attempt with the universal facts instantiated at the indices of the goal
        try:
            inst = instances(flatten(facts), goal)
            if inst:
                r2 = _prove(flatten([f for f in flatten(facts) if f.kind != "forall"] + inst), goal, Budget(seconds), 0)
                if r2.status == "proved":
                    r = r2
        except (Unsupported, z3.Z3Exception):
            pass
    r.time = time.time() - t0
    if r.status == "proved":
        STATS["by"][r.by] = STATS["by"].get(r.by, 0) + 1
    return r


def instances(facts, goal):
    fas = [f for f in facts if f.kind == "forall"]
    if not fas:
        return []
    ground = [a for a in collect([goal] + [f for f in facts if f.kind != "forall"]) if not is_bound(a)]
    ints = [P(a) for a in ground if a.sort == "I" and (a.kind == "var" or (a.kind == "app" and a.data[0].endswith((".idx",))))]
    out = []
    for f in fas:
        vs, body = f.data
        if len(vs) > 2 or any(v.sort != "I" for v in vs):
            out.append(f)
            continue
        if len(ints) ** len(vs) > 64:
            out.append(f)
            continue
        for c in itertools.product(ints, repeat=len(vs)):
            b = subst(body, dict(zip(vs, c)))
            if b is not TRUE:
                out.append(b)
    return out


def _prove(facts, goal, bud, depth, kept=()):
    if goal is TRUE:
        return Result("proved", "normaliser")
    if FALSE in facts:
        return Result("proved", "normaliser")
    if goal.kind == "and":
        by = "normaliser"
        for g in goal.data:
            r = _prove(facts, g, bud, depth, kept)
            if r.status != "proved":
                return r
            if r.by != "normaliser":
                by = r.by
        return Result("proved", by)
    facts, goal, kept = simplify_facts(facts, goal, kept)
    if goal is TRUE or FALSE in facts:
        return Result("proved", "normaliser")
    if goal.kind == "and":
        return _prove(facts, goal, bud, depth, kept)
    if goal.kind == "or":
        # assume negations of all but the last disjunct, prefer keeping an equality as the goal
        ds = list(goal.data)
        ds.sort(key=lambda d: (d.kind == "eq", d.kind == "forall", d.kind == "and"))
        g = ds[-1]
        if g.kind != "and" or len(ds) == 2:
            return _prove(flatten(facts + [NOT(d) for d in ds[:-1]]), g, bud, depth, kept)
    if goal.kind == "forall":
        vs, body = goal.data
        for f in facts:
            if f.kind == "forall" and len(f.data[0]) == len(vs):
                if subst(f.data[1], {a: P(b) if b.sort in ("I", "R") else b for a, b in zip(f.data[0], vs)}) is body:
                    return Result("proved", "normaliser")
        m = {}
        for v in vs:
            f = T.fresh("sk", v.sort)
            m[v] = f
        return _prove(facts, subst(goal.data[1], m), bud, depth, kept)
    if bud.left() <= 0:
        return Result("unknown", detail="time budget")
    # 1. linear abstraction
    fl = [linearise(f) for f in facts]
    r, s = check(fl, linearise(goal), min(3.0, max(0.2, bud.left())))
    if r == "unsat":
        return Result("proved", "z3")
    if depth == 0 or goal.kind == "eq":
        for rw in REWRITES:
            g2 = rw(flatten(list(kept) + list(facts)), goal, bud)
            if g2 is not goal:
                return _prove(flatten(list(kept) + list(facts)), g2, bud, depth + 1)
    # 2. case splits for numeric goals containing conditionals
    if goal.kind in ("eq", "le", "lt", "bapp", "not", "eqo"):
        acc = []
        find_conds(goal, acc, set())
        if acc and depth < 40:
            c = lit_of(acc[0])
            rp = []
            for val in (True, False):
                cc = c if val else NOT(c)
                if quick_valid(facts, NOT(cc)):
                    continue
                g2 = assume_in(goal, c, val)
                f2 = [assume_in(f, c, val) for f in facts]
                rr = _prove(flatten([f for f in f2 if f is not TRUE] + [cc]), g2, bud, depth + 1, kept)
                if rr.status != "proved":
                    return rr
                rp.append(rr.by)
            return Result("proved", "z3" if "z3" in rp or not rp else rp[0])
    # 2b. compare two indices of the same array
    if goal.kind == "eq" and depth < 30:
        pr = index_pair(goal)
        if pr is not None:
            a, b = P(pr[0]), P(pr[1])
            if quick_valid(facts, AND(le(a - b, 1), le(b - a, 1))):
                by = "normaliser"
                for d in (0, 1, -1):
                    cc = eq(a, b + d)
                    if quick_valid(facts, NOT(cc)):
                        continue
                    rr = _prove(flatten(facts + [cc]), goal, bud, depth + 1, kept)
                    if rr.status != "proved":
                        return rr
                    by = rr.by if rr.by != "normaliser" else by
                return Result("proved", "z3")
    # 3. clear denominators
    if goal.kind in ("eq", "le", "lt"):
        g2 = clear_denominators(facts, goal)
        if g2 is not goal:
            rr = _prove(facts, g2, bud, depth + 1, kept)
            if rr.status == "proved":
                return rr
            if rr.status == "refuted":
                return rr
    # 3b. rewrite squares of square roots and trig
    if goal.kind in ("eq", "le", "lt"):
        g2 = root_reduce(facts, goal)
        if g2 is not goal:
            rr = _prove(facts, g2, bud, depth + 1, kept)
            if rr.status in ("proved",):
                return rr
    # 3c. split on conditionals in the facts
    acc = []
    seen = set()
    for f in facts:
        if f.kind != "forall":
            find_conds(f, acc, seen)
        if f.kind == "or":
            pass
    if acc and depth < 12 and goal.kind == "eq":
        c = lit_of(acc[0])
        ok = True
        for val in (True, False):
            cc = c if val else NOT(c)
            f2 = [assume_in(f, c, val) for f in facts]
            rr = _prove(flatten([f for f in f2 if f is not TRUE] + [cc]), assume_in(goal, c, val), bud, depth + 1, kept)
            if rr.status != "proved":
                return rr
        return Result("proved", "z3")
    # 4. full query
    if kept and any(has_forall(f) for f in facts):
        facts = flatten(list(facts) + [f for f in kept])
    r, s = check(facts, goal, min(8.0, max(0.2, bud.left())))
    if r == "sat" and kept:
        # equations used for substitution may be needed for terms that appeared later
        facts = flatten(list(facts) + list(kept))
        r, s = check(facts, goal, min(8.0, max(0.2, bud.left())))
    if r == "unsat":
        return Result("proved", "z3")
    if r == "sat":
        if soft(facts, goal):
            return Result("unknown", detail="not discharged (candidate model over abstracted terms) " + model_text(s, facts, goal))
        return Result("refuted", "z3", model=s, detail=model_text(s, facts, goal))
    c = cvc5_check(s, min(8.0, max(1.0, bud.left())))
    if c == "unsat":
        return Result("proved", "cvc5")
    if c == "sat" and not soft(facts, goal):
        return Result("refuted", "cvc5", detail="cvc5: sat; goal %s" % show_b(goal)[:2000])
    return Result("unknown", detail="z3 and cvc5 undecided; goal %s" % show_b(goal)[:2000])


SOFT = ("rec:", "def:", "own", "hv:", "out_of_range", "absent:", "none:", "powi", "expm", "cdiv", "cmod", "pow", "atan2", "let", "matrix_sqrt")


def soft_atom(a):
    return a.kind == "sum" or (a.kind == "app" and (a.data[0].startswith(SOFT)))


def index_pair(goal):
    """two different integer atoms indexing the same function"""
    by = {}
    for a in collect([goal]):
        if a.kind == "app" and len(a.data) > 1:
            for pos, x in enumerate(a.data[1:]):
                if not isinstance(x, Poly):
                    continue
                at = [y for y in x.atoms() if y.sort == "I"]
                if len(at) == 1 and at[0].kind == "var" and not is_bound(at[0]):
                    by.setdefault((a.data[0], pos), set()).add(at[0])
    for s in by.values():
        if len(s) == 2:
            return tuple(sorted(s, key=lambda a: a.id))
    return None


def has_forall(f):
    if f.kind == "forall":
        return True
    if f.kind in ("and", "or", "not"):
        return any(has_forall(x) for x in (f.data if isinstance(f.data, (tuple, list, frozenset)) else (f.data,)) if hasattr(x, "kind"))
    return False


def soft_bool(b):
    """booleans about which nothing is known"""
    if b.kind == "bapp":
        return b.data[0].startswith(("any:",) + SOFT)
    if b.kind in ("and", "or", "not"):
        return any(soft_bool(x) for x in b.data)
    return False


def soft(facts, goal):
    """does the candidate counterexample rest on terms that z3 sees as uninterpreted (sums, recursive functions)?"""
    ga = collect([goal])
    if soft_bool(goal) or any(soft_bool(f) for f in facts):
        return True
    if any(soft_atom(a) for a in ga) or goal.kind == "forall":
        return True
    names = {a for a in ga if a.kind in ("var", "app")}
    for f in facts:
        fa = collect([f])
        if (has_forall(f) or any(soft_atom(a) for a in fa)) and (not names or fa & names):
            return True
    return False


def model_text(s, facts, goal):
    try:
        m = s.model()
        lines = []
        for d in m.decls():
            if d.arity() == 0:
                lines.append("%s = %s" % (d.name(), m[d]))
        return "goal: %s\nmodel: %s" % (show_b(goal)[:3000], "; ".join(sorted(lines))[:3000])
    except Exception as e:
        return "goal: %s (no model: %s)" % (show_b(goal)[:3000], e)


def clear_denominators(facts, goal):
    """goal p~0 with inv(d) atoms, d != 0 provable -> multiply out"""
    p = goal.data[0]
    kind = goal.kind
    for _ in range(12):
        invs = [a for a in p.atoms() if a.kind == "inv" and not is_bound(a)]
        if not invs:
            break
        invs.sort(key=lambda a: -a.id)
        done = False
        for a in invs:
            d = a.data
            if not nonzero(facts, d):
                continue
            n = max(e for m, _ in p.t for x, e in m if x is a)
            if kind != "eq":
                if nonneg_pos(facts, d):
                    pass
                else:
                    n = n + (n % 2)
            out = ZERO
            for m, c in p.t:
                e = dict(m).get(a, 0)
                rest = T._mk({tuple((x, y) for x, y in m if x is not a): c})
                out = out + rest * (d ** (n - e))
            p = out
            done = True
            break
        if not done:
            break
    if p is goal.data[0]:
        return goal
    return mk_cmp(kind, p)


def nonzero(facts, d):
    if quick_valid(facts, NOT(eq(d, ZERO))):
        return True
    r, _ = check(facts, NOT(eq(d, ZERO)), 2.0)
    return r == "unsat"


def nonneg_pos(facts, d):
    return quick_valid(facts, gt(d, ZERO))


def root_reduce(facts, goal):
    p = goal.data[0]
    q = p
    for _ in range(30):
        changed = False
        for a in sorted(q.atoms(), key=lambda a: -a.id):
            if a.kind == "app" and a.data[0] == "sqrt":
                if max(e for m, _ in q.t for x, e in m if x is a) >= 2 and \
                        (quick_valid(facts, ge(a.data[1], ZERO)) or sos(a.data[1])):
                    q = _repl_sq(q, a, a.data[1])
                    changed = True
                    break
            if a.kind == "app" and a.data[0] == "sin":
                if max(e for m, _ in q.t for x, e in m if x is a) >= 2:
                    c = T.app("cos", (a.data[1],))
                    q = _repl_sq(q, a, ONE - c * c)
                    changed = True
                    break
        if not changed:
            break
    return goal if q is p else mk_cmp(goal.kind, q)


def sos(p):
    return all(c > 0 and all(e % 2 == 0 or a.nonneg for a, e in m) for m, c in p.t)


def _repl_sq(q, a, x):
    out = ZERO
    for m, c in q.t:
        e = dict(m).get(a, 0)
        rest = [(y, f) for y, f in m if y is not a]
        if e % 2:
            rest.append((a, 1))
            rest.sort(key=lambda z: z[0].id)
        out = out + T._mk({tuple(rest): c}) * (x ** (e // 2))
    return out


def mod_rewrite(facts, goal, bud):
    """C remainder within one period: x % n for 0 <= x < 2n"""
    for a in sorted(collect([goal]), key=lambda a: a.id):
        if a.kind == "app" and a.data[0] == "cmod" and not is_bound(a):
            x, n = a.data[1], a.data[2]
            if quick_valid(facts, AND(ge(x, ZERO), gt(n, ZERO))):
                if quick_valid(facts, lt(x, n)):
                    return subst(goal, {a: x})
                if quick_valid(facts, le(x, n)):
                    return subst(goal, {a: ite(eq(x, n), ZERO, x)})
                if quick_valid(facts, lt(x, n + n)):
                    return subst(goal, {a: ite(ge(x, n), x - n, x)})
    return goal


REWRITES.append(mod_rewrite)
