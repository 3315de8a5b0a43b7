"""Calls: placo functions (by contract or inlined), Eigen / std operations (built-in semantics), externs."""
import re
from terms import *
import terms as T
from values import *
from exec import *
import exec as X
from ctypes_ import norm_type, mat_dims, is_affine, targs, ExtV


def unwrap(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                            "CXXBindTemporaryExpr") and n.get("inner"):
        n = n["inner"][0]
    return n


def fixed_block_dims(t):
    """rows, cols from a Block<...>/VectorBlock type when fixed"""
    m = re.search(r"\bBlock<", t)
    i = t.find("Block<")
    if i < 0:
        return None
    name, a = targs(t[i:])
    try:
        return int(a[1]), int(a[2])
    except (IndexError, ValueError):
        return None


def ident3():
    return ident(3)


def cross(a, b):
    return vec(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0))


def skew(v):
    return mat_of([[0, -v(2), v(1)], [v(2), 0, -v(0)], [-v(1), v(0), 0]])


def affine(R, t):
    return StructV("Affine3d", None, linear=R, translation=t)


def aff_mul(a, b):
    return affine(matmul(a.linear, b.linear), matmul(a.linear, b.translation) + a.translation)


def unit_orthogonal(m):
    k = tuple(P(name_entry(m(i, 0))) for i in range(3))
    return Mat(3, 1, lambda i, j: T.app("unit_orthogonal", k + (P(i),)))


def cross_lemma():
    """|a x b|^2 = |a|^2 |b|^2 - (a.b)^2, a.(a x b) = 0, b.(a x b) = 0: polynomial identities, checked on symbols"""
    a, b = (vec(*[T.var("$%s%d" % (n, i), "R") for i in range(3)]) for n in "ab")
    c = cross(a, b)
    dot = lambda x, y: sum((x(k, 0) * y(k, 0) for k in range(3)), P(0))
    zero = [dot(c, c) - dot(a, a) * dot(b, b) + dot(a, b) * dot(a, b), dot(a, c), dot(b, c)]
    assert all(P(z).iconst() == 0 for z in zero)
    return True


def name_entry(x):
    """an abbreviation: an entry written as an uninterpreted identity of its polynomial (keeps the terms small)"""
    x = P(x)
    return x if x.iconst() is not None or len(x.atoms()) <= 1 else T.app("let", (x,))


def named_vec(m):
    f = lambda x: name_entry(x) if len(x.t) > 2 else x
    return vec(*[f(P(m(i, 0))) for i in range(3)])


def named(a):
    return affine(mat_of([[name_entry(a.linear(i, j)) for j in range(3)] for i in range(3)]),
                  vec(*[name_entry(a.translation(i, 0)) for i in range(3)]))


def aff_inv(a):
    """inverse of a rigid transform"""
    R = a.linear
    return affine(R.T, -matmul(R.T, a.translation))


def aff_matrix(a):
    def fn(i, j):
        top = ite(lt(j, 3), a.linear(i, j), a.translation(i, 0))
        return ite(lt(i, 3), top, ite(eq(j, 3), ONE, ZERO))
    return Mat(4, 4, fn)


def rodrigues(angle, ax):
    s, c = T.sin(angle), T.cos(angle)
    K = skew(ax)
    K2 = matmul(K, K)
    return Mat(3, 3, lambda i, j: ite(eq(i, j), ONE, ZERO) + s * K(i, j) + (ONE - c) * K2(i, j))


def quat_rotation(w, x, y, z):
    """Eigen::Quaterniond::toRotationMatrix"""
    E = [[ONE - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
         [2 * (x * y + z * w), ONE - 2 * (x * x + z * z), 2 * (y * z - x * w)],
         [2 * (x * z - y * w), 2 * (y * z + x * w), ONE - 2 * (x * x + y * y)]]
    return mat_of(E)


def squared_norm(m):
    d = m.dims()
    if d[0] is not None and d[1] is not None:
        r = ZERO
        for e in m.entries():
            r = r + e * e
        return r
    return Sum(m.rows, lambda i: Sum(m.cols, lambda j: m(i, j) * m(i, j)))


class Calls(X.Exec):
    # ------------------------------------------------------------ entry points
    def e_CXXMemberCallExpr(self, n, st):
        return self.rv(st, self.call(n, st, False))

    def e_CXXOperatorCallExpr(self, n, st):
        return self.rv(st, self.call(n, st, False))

    def e_CallExpr(self, n, st):
        return self.rv(st, self.call(n, st, False))

    def rv(self, st, v):
        if isinstance(v, (Loc, CondLoc, TLoc)):
            return self.read(st, v)
        return v

    def call(self, n, st, want_loc):
        k = n["kind"]
        inner = n["inner"]
        if k == "CXXMemberCallExpr":
            me = unwrap(inner[0])
            if me.get("kind") != "MemberExpr":
                raise Unsupported("member call through " + str(me.get("kind")))
            args = inner[1:]
            fid = me.get("referencedMemberDecl")
            mang = self.prog.func_id.get((self.frame.tu, fid))
            base = me["inner"][0]
            if mang is not None:
                f = self.prog.func_by_mangled.get(mang) or self.prog.decl_of[mang]
                if me.get("isArrow"):
                    this = self.deref(st, self.ev(base, st), self.ntype(base))
                else:
                    this = self.lv(base, st)
                nonvirt = "UncheckedDerivedToBase" in str(base.get("castKind")) or unwrap(base).get("kind") == "CXXThisExpr" and False
                return self.call_fn(f, this, args, st, n)
            if me.get("name", "").startswith("operator"):
                return self.oper(me["name"], [base] + list(args), n, st, want_loc)
            return self.method(me.get("name", ""), me, base, args, n, st, want_loc)
        if k == "CXXOperatorCallExpr":
            callee = unwrap(inner[0])
            rd = callee.get("referencedDecl", {})
            name = rd.get("name", "")
            mang = self.prog.func_id.get((self.frame.tu, rd.get("id")))
            args = inner[1:]
            if mang is not None:
                f = self.prog.func_by_mangled.get(mang) or self.prog.decl_of[mang]
                if f.kind == "CXXMethodDecl" and not f.static and f.cls and len(f.params) == len(args) - 1:
                    this = self.lv(args[0], st)
                    if f.name == "operator=" and f.node.get("isImplicit"):
                        self.write(st, this, self.ev(args[1], st))
                        return this
                    return self.call_fn(f, this, args[1:], st, n)
                return self.call_fn(f, None, args, st, n)
            return self.oper(name, args, n, st, want_loc)
        # plain call
        callee = unwrap(inner[0])
        rd = callee.get("referencedDecl")
        if rd is None:
            v = self.ev(inner[0], st)
            if isinstance(v, FnV):
                return v.fn(st, inner[1:], self.frame)
            raise Unsupported("indirect call")
        mang = self.prog.func_id.get((self.frame.tu, rd.get("id")))
        if mang is not None:
            f = self.prog.func_by_mangled.get(mang) or self.prog.decl_of[mang]
            return self.call_fn(f, None, inner[1:], st, n)
        return self.free(rd.get("name", ""), inner[1:], n, st, rd, callee)

    # ------------------------------------------------------------ placo functions
    def eval_args(self, f, args, st):
        vals = []
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else None
            t = p["type"]["qualType"].rstrip()
            ty = p["type"].get("desugaredQualType", t)
            if a is None or a.get("kind") == "CXXDefaultArgExpr":
                d = self.prog.defaults.get(f.mangled, [None] * 99)
                if i >= len(d) or d[i] is None:
                    raise Unsupported("default argument of " + f.qual)
                tu, dn = d[i]

                class FakeFn:
                    pass
                ff = FakeFn()
                ff.tu, ff.ns, ff.rtype = tu, f.ns, "void"
                fr = Frame(ff, self.nframe + 1)
                self.nframe += 1
                self.stack.append(fr)
                try:
                    v = self.ev(dn, st)
                finally:
                    self.stack.pop()
                vals.append(self.coerce(st, v, ty, dn))
            elif t.endswith("&"):
                vals.append(self.lv(a, st))
                v = None
                # binding a matrix expression to const MatrixXd& converts it
                d = mat_dims(ty)
                if d and isinstance(vals[-1], (Loc,)):
                    mv = self.read(st, vals[-1])
                    if isinstance(mv, Mat) and "const" in t and ((d[0] >= 0 and mv.rows is not P(d[0])) or
                                                                 (d[1] >= 0 and mv.cols is not P(d[1]))):
                        vals[-1] = self.temp(st, self.coerce(st, mv, ty, a))
                elif isinstance(vals[-1], Loc) and "const" in t and is_affine(ty):
                    mv = self.read(st, vals[-1])
                    if not (isinstance(mv, StructV) and mv.tname == "Affine3d"):
                        vals[-1] = self.temp(st, self.coerce(st, mv, ty, a))
            else:
                vals.append(self.coerce(st, self.ev(a, st), ty, a))
        return vals

    def call_fn(self, f, this, args, st, node, ctor=None):
        vals = self.eval_args(f, args, st)
        return self.call_vals(f, this, vals, st, node, ctor)

    def call_vals(self, f, this, vals, st, node, ctor=None):
        c = self.contracts.lookup(f) if self.contracts else None
        if c is not None and not c.inline:
            return self.apply_contract(c, f, this, vals, st, node, ctor)
        if f.body is None:
            f2 = self.prog.func_by_mangled.get(f.mangled)
            if f2 is None:
                raise Unsupported("no body or contract for " + f.qual)
            f = f2
        if self.depth > 24:
            raise Unsupported("inlining depth")
        if f.virtual and this is not None and not ctor:
            ov = self.hooks.get("virtual")
            if ov:
                f = ov(self, f, this, st) or f
        self.inlined.add(f.qual)
        self.depth += 1
        try:
            if ctor:
                return self.run_ctor(ctor, f, vals, st)
            self.nframe += 1
            fr = Frame(f, self.nframe)
            fr.this = this
            for p, v in zip(f.params, vals):
                self.bind_param(fr, p, v, st)
            self.stack.append(fr)
            try:
                outs = self.run(f.body, st.fork())
            finally:
                self.stack.pop()
            return self.finish_call(outs, st)
        finally:
            self.depth -= 1

    def apply_contract(self, c, f, this, vals, st, node, ctor):
        raise NotImplementedError

    # ------------------------------------------------------------ Eigen construction
    def construct_mat(self, n, st, d, args):
        if not args:
            return self.uninit_mat(max(d[0], 0), max(d[1], 0), d[2])
        vals = [self.ev(a, st) for a in args]
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, Mat):
                return self.coerce(st, v, "Eigen::Matrix<%s, %d, %d>" % ("int" if d[2] else "double", d[0], d[1]), n)
            if isinstance(v, Poly):
                if d[1] == 1 and d[0] < 0:
                    self.oblige(st, "vector size is non-negative", ge(v, ZERO), where=self.where(n))
                    return self.uninit_mat(v, 1, d[2])
                if d[0] == 1 and d[1] < 0:
                    return self.uninit_mat(1, v, d[2])
            if isinstance(v, StructV) and v.tname == "AngleAxis":
                return rodrigues(v.angle, v.axis)
            if isinstance(v, StructV) and v.tname == "Quaternion":
                return v.R
            if isinstance(v, SeqV):
                raise Unsupported("Eigen from initialiser list")
        if len(vals) == 2 and d[0] < 0 and d[1] < 0 or (len(vals) == 2 and (d[0] < 0 or d[1] < 0) and d != (-1, 1)):
            self.oblige(st, "matrix sizes are non-negative", AND(ge(vals[0], ZERO), ge(vals[1], ZERO)), where=self.where(n))
            return self.uninit_mat(vals[0], vals[1], d[2])
        if d[0] >= 0 and d[1] == 1 and len(vals) == d[0]:
            return vec(*vals)
        if d[0] == 1 and d[1] == len(vals):
            return vec(*vals).T
        raise Unsupported("Eigen constructor with %d arguments" % len(vals))

    def construct_container(self, n, st, t, c, args):
        name, a = c
        if not args:
            return self.default_val(t, st)
        vals = [self.ev(x, st) for x in args]
        v = vals[0]
        if name in ("vector", "list"):
            if isinstance(v, SeqV):
                return v
            if isinstance(v, Poly):
                x = vals[1] if len(vals) > 1 else self.default_val(a[0], st)
                self.oblige(st, "vector size is non-negative", ge(v, ZERO), where=self.where(n))
                return SeqV(v, lambda i: x, a[0])
        if name in ("map", "set"):
            if isinstance(v, MapV):
                return v
            if isinstance(v, SeqV):
                m = self.empty_map(name, a)
                k = v.len.iconst()
                if k is None:
                    raise Unsupported("map from a sequence")
                for i in range(k):
                    e = v(i)
                    m = m.set(e, None) if name == "set" else m.set(e.first, e.second)
                return m
        if name == "pair":
            if len(vals) == 2:
                return StructV("pair", None, first=vals[0], second=vals[1])
            if isinstance(v, StructV):
                return v
        raise Unsupported("construct " + t)

    def construct_geometry(self, t, args, st):
        """Eigen::AngleAxis, Quaternion, Translation"""
        if re.match(r"(?:pinocchio::)?SE3(?:Tpl<double.*>)?$", t) and args:
            vals = [self.ev(a, st) for a in args]
            if len(vals) == 2:
                R = vals[0].R if isinstance(vals[0], StructV) else vals[0]
                return affine(R, vals[1])
            if isinstance(vals[0], Mat) and vals[0].dims() == (4, 4):
                return affine(vals[0].block(0, 0, 3, 3), vals[0].block(0, 3, 3, 1))
            return None
        m = re.match(r"(?:Eigen::)?(AngleAxis|Quaternion|Translation)(?:<double.*>|d|3d)$", t)
        if not m or not args:
            return None
        k = m.group(1)
        vals = [self.ev(a, st) for a in args]
        v = vals[0]
        if k == "Translation":
            if len(vals) == 3:
                return StructV("Translation", None, v=vec(*vals))
            return StructV("Translation", None, v=v) if isinstance(v, Mat) else None
        if k == "AngleAxis":
            if len(vals) == 2:
                return StructV("AngleAxis", None, angle=P(v), axis=vals[1])
            if isinstance(v, StructV) and v.tname == "Quaternion":
                v = v.R
            if isinstance(v, Mat):
                self.externs.add("Eigen::AngleAxisd(rotation)")
                key = mat_key(v)
                return StructV("AngleAxis", None, angle=T.app("aa_angle", key), axis=Mat(3, 1, lambda i, j: T.app("aa_axis", key + (P(i),))), R=v)
            return v if isinstance(v, StructV) and v.tname == "AngleAxis" else None
        if isinstance(v, Mat) and v.dims() == (3, 3):
            return StructV("Quaternion", None, R=v)
        if len(vals) == 4:
            w, x, y, z = [P(a) for a in vals]
            return StructV("Quaternion", None, R=quat_rotation(w, x, y, z), w=w, x=x, y=y, z=z)
        if isinstance(v, StructV) and v.tname == "AngleAxis":
            return StructV("Quaternion", None, R=rodrigues(v.angle, v.axis))
        return v if isinstance(v, StructV) and v.tname == "Quaternion" else None

    def to_affine(self, v):
        if v.tname == "Translation":
            return affine(ident(3), v.v)
        if v.tname == "AngleAxis":
            return affine(rodrigues(v.angle, v.axis), zeros(3, 1))
        if v.tname == "Quaternion":
            return affine(v.R, zeros(3, 1))
        if v.tname == "Affine3d":
            return v
        raise Unsupported("to affine " + v.tname)

    # ------------------------------------------------------------ operators
    def oper(self, name, args, n, st, want_loc):
        op = name[8:] if name.startswith("operator") else name
        if op == "=":
            loc = self.lv(args[0], st)
            v = self.ev(args[1], st)
            self.assign(st, loc, v, n, args[0])
            return loc
        if op in ("+=", "-=", "*=", "/="):
            loc = self.lv(args[0], st)
            b = self.ev(args[1], st)
            a = self.read(st, loc)
            if isinstance(a, OpaqueV):
                return loc
            if isinstance(a, Atom) and a.sort == "Str":
                self.write(st, loc, T.app("strcat", (a, self.as_str(b)), "Str"))
                return loc
            v = self.binop(op[:-1], a, b, n, st)
            self.write(st, loc, v)
            return loc
        if op == "()":
            base = self.ev(args[0], st) if not self.is_lvalue(args[0]) else None
            loc = self.lv(args[0], st)
            b = self.read(st, loc)
            if isinstance(b, FnV):
                return b.fn(st, args[1:], self.frame)
            if isinstance(b, Mat):
                idx = [self.ev(a, st) for a in args[1:]]
                if any(not isinstance(x, Poly) for x in idx):
                    return self.index_list(st, b, idx, n)
                return self.entry_loc(st, loc, b, idx, n)
            raise Unsupported("operator() on %s" % type(b).__name__)
        if op == "[]":
            loc = self.lv(args[0], st)
            b = self.read(st, loc)
            k = self.ev(args[1], st)
            if isinstance(b, Mat):
                return self.entry_loc(st, loc, b, [k], n)
            if isinstance(b, SeqV):
                self.oblige(st, "vector index in range", AND(ge(k, ZERO), lt(k, b.len)), where=self.where(n))
                return self.sub(loc, ("i", k))
            if isinstance(b, MapV):
                h = b.has(k)
                if not (h is TRUE or self.valid(st, h)):
                    if self.deferred is not None and isinstance(loc, Loc):
                        self.deferred.append(loc)
                        return self.sub(loc, ("k", k))
                    # inserts a default element when absent
                    d = self.default_val(b.vt, st)
                    nv = merge(h, b.get(k), d) if not self.valid(st, NOT(h)) else d
                    nb = b.set(k, nv)
                    self.write(st, loc, nb)
                    self.inserted = self.inserted + [loc]
                return self.sub(loc, ("k", k))
            if isinstance(b, ExtV):
                t = self.ntype(n)
                kk = k if isinstance(k, (Poly, Atom)) else P(k)
                return self.types.sym(t, b.path + "[]", b.idx + (kk,))
            if isinstance(b, Atom) and b.sort == "Str":
                return T.app("charat", (b, k), "I")
            raise Unsupported("operator[] on %s" % type(b).__name__)
        if op == "<<":
            b = self.try_base(args[0], st)
            if isinstance(b, OpaqueV) or b is None:
                return OpaqueV("stream")
            loc = self.lv(args[0], st)
            v = self.read(st, loc)
            if isinstance(v, Mat):
                return Comma(loc, [self.ev(args[1], st)])
            return OpaqueV("stream")
        if op == ",":
            c = self.call(unwrap(args[0]), st, False) if unwrap(args[0]).get("kind") == "CXXOperatorCallExpr" else self.ev(args[0], st)
            if isinstance(c, Comma):
                return Comma(c.loc, c.items + [self.ev(args[1], st)])
            raise Unsupported("comma operator")
        if op == "->":
            v = self.ev(args[0], st)
            return v
        if op == "*" and len(args) == 1:
            loc = self.lv(args[0], st)
            v = self.read(st, loc)
            if isinstance(v, StructV) and v.tname == "iter":
                return v.get("loc").loc
            return v
        if op in ("++", "--"):
            raise Unsupported("iterator increment")
        vals = [self.ev(a, st) for a in args]
        if len(vals) == 1:
            if op == "-":
                v = vals[0]
                return v.map(lambda x: -x) if isinstance(v, Mat) else -P(v)
            if op == "!":
                return NOT(bl(vals[0]))
            raise Unsupported("unary operator " + op)
        a, b = vals
        if op in ("==", "!="):
            if isinstance(a, Mat) and isinstance(b, Mat):
                raise Unsupported("matrix comparison")
            if isinstance(a, StructV) and isinstance(b, StructV) and a.tname == "iter":
                r = eq(a.get("pos"), b.get("pos"))
                return r if op == "==" else NOT(r)
            if isinstance(a, StructV) and a.tname == "pair":
                r = AND(self.eq_vals(a.first, b.first), self.eq_vals(a.second, b.second))
                return r if op == "==" else NOT(r)
            r = self.eq_vals(a, b)
            return r if op == "==" else NOT(r)
        return self.binop(op, a, b, n, st)

    def try_base(self, node, st):
        """value of the leftmost operand of a << chain, None for streams"""
        x = unwrap(node)
        t = self.ntype(x)
        if "stream" in t or "ostream" in self.qtype(x):
            return None
        return self.ev(node, st)

    def is_lvalue(self, n):
        return n.get("valueCategory") == "lvalue"

    def as_str(self, v):
        if isinstance(v, Atom):
            return v
        if isinstance(v, Poly):
            return T.app("tostr", (v,), "Str")
        return T.app("tostr?", (), "Str")

    def sub(self, loc, acc):
        if isinstance(loc, CondLoc):
            return CondLoc(loc.c, self.sub(loc.a, acc), self.sub(loc.b, acc))
        if isinstance(loc, TLoc):
            if acc[0] == "e":
                return self.sub(loc.loc, ("e", acc[2], acc[1]))
            if acc[0] == "b":
                return TLoc(self.sub(loc.loc, ("b", acc[2], acc[1], acc[4], acc[3])))
            raise Unsupported("transposed access")
        return Loc(loc.cell, loc.path + (acc,))

    def entry_loc(self, st, loc, b, idx, n):
        if len(idx) == 2:
            i, j = P(idx[0]), P(idx[1])
        elif b.cols is ONE or b.cols.iconst() == 1:
            i, j = P(idx[0]), ZERO
        elif b.rows.iconst() == 1:
            i, j = ZERO, P(idx[0])
        else:
            raise Unsupported("linear index into a matrix")
        self.oblige(st, "matrix entry in range",
                    AND(ge(i, ZERO), lt(i, b.rows), ge(j, ZERO), lt(j, b.cols)), where=self.where(n))
        return self.sub(loc, ("e", i, j))

    def index_list(self, st, m, idx, n):
        """A(indices, Eigen::all)"""
        def sel(x, size):
            if isinstance(x, SeqV):
                k = T.fresh("ix", "I")
                e = x(k)
                f = st.fork()
                f.assume(AND(ge(k, ZERO), lt(k, x.len)))
                self.oblige(f, "row/column selection in range", AND(ge(e, ZERO), lt(e, size)), where=self.where(n))
                return x.len, lambda i: x(i)
            if isinstance(x, Poly):
                return ONE, lambda i: x
            return size, lambda i: i       # Eigen::all
        nr, fr = sel(idx[0], m.rows)
        nc, fc = sel(idx[1], m.cols) if len(idx) > 1 else (ONE, lambda j: j)
        return Mat(nr, nc, lambda i, j: m(fr(i), fc(j)))

    def assign(self, st, loc, v, n, target):
        cur_t = self.ntype(target)
        if isinstance(v, Mat):
            d = mat_dims(cur_t)
            if d is not None:
                if isinstance(loc, TLoc):
                    self.write(st, loc, v)
                    return
                self.write(st, loc, self.coerce(st, v, cur_t, n))
                return
            # block-like destination: sizes must agree
            dst = self.read(st, loc)
            if isinstance(dst, Mat):
                if v.cols.iconst() == 1 and dst.rows.iconst() == 1 and dst.cols.iconst() != 1:
                    v = v.T
                elif v.rows.iconst() == 1 and dst.cols.iconst() == 1 and dst.rows.iconst() != 1:
                    v = v.T
                self.same_size(st, dst, v, n, "assignment")
            elif isinstance(dst, StructV) and dst.tname == "Affine3d":
                v = affine(v.block(0, 0, 3, 3), v.block(0, 3, 3, 1))
            self.write(st, loc, v)
            return
        dst_t = cur_t
        self.write(st, loc, self.coerce(st, v, dst_t, n))

    def same_size(self, st, a, b, n, what):
        g = AND(eq(a.rows, b.rows), eq(a.cols, b.cols))
        self.oblige(st, "Eigen %s: sizes agree" % what, g, where=self.where(n))

    def binop(self, op, a, b, n, st):
        if isinstance(a, Mat) and isinstance(b, Mat):
            arr = a.tag == "array" or b.tag == "array"
            if op in ("+", "-"):
                self.same_size(st, a, b, n, "sum" if op == "+" else "difference")
                f = (lambda i, j: a(i, j) + b(i, j)) if op == "+" else (lambda i, j: a(i, j) - b(i, j))
                return Mat(a.rows, a.cols, f, "array" if arr else None)
            if op == "*" and arr:
                self.same_size(st, a, b, n, "product")
                return Mat(a.rows, a.cols, lambda i, j: a(i, j) * b(i, j), "array")
            if op == "*":
                self.oblige(st, "Eigen product: inner sizes agree", eq(a.cols, b.rows), where=self.where(n))
                return matmul(a, b)
        if isinstance(a, Mat) and isinstance(b, (Poly, B)):
            b = P(b)
            if op == "*":
                return Mat(a.rows, a.cols, lambda i, j: a(i, j) * b, a.tag)
            if op == "/":
                r = inv(b)
                return Mat(a.rows, a.cols, lambda i, j: a(i, j) * r, a.tag)
            if op in "+-" and a.tag == "array":
                s = b if op == "+" else -b
                return Mat(a.rows, a.cols, lambda i, j: a(i, j) + s, a.tag)
        if isinstance(b, Mat) and isinstance(a, (Poly, B)):
            a = P(a)
            if op == "*":
                return Mat(b.rows, b.cols, lambda i, j: a * b(i, j), b.tag)
            if op in "+-" and b.tag == "array":
                return Mat(b.rows, b.cols, lambda i, j: a + (b(i, j) if op == "+" else -b(i, j)), b.tag)
        if isinstance(a, StructV) and a.tname in ("Affine3d", "Translation", "AngleAxis", "Quaternion") and op == "*":
            if isinstance(b, Mat):
                A = self.to_affine(a)
                if a.tname in ("AngleAxis", "Quaternion"):
                    return matmul(A.linear, b)
                if b.rows.iconst() == 3:
                    if b.cols.iconst() == 1 or b.cols is ONE:
                        return matmul(A.linear, b) + A.translation
                    return Mat(3, b.cols, lambda i, j: matmul(A.linear, b)(i, j) + A.translation(i, 0))
                if b.rows.iconst() == 4:
                    return matmul(aff_matrix(A), b)
                raise Unsupported("affine times matrix")
            if isinstance(b, StructV):
                if a.tname == "AngleAxis" and b.tname == "AngleAxis":
                    return StructV("Quaternion", None, R=matmul(rodrigues(a.angle, a.axis), rodrigues(b.angle, b.axis)))
                r = aff_mul(self.to_affine(a), self.to_affine(b))
                return named(r) if getattr(self, "name_products", False) else r
            if isinstance(b, ExtV) or b is None:
                raise Unsupported("affine product")
        if isinstance(a, Mat) and isinstance(b, StructV) and op == "*":
            if b.tname in ("AngleAxis", "Quaternion"):
                return matmul(a, self.to_affine(b).linear)
            if b.tname == "Affine3d" and a.dims() == (4, 4):
                return matmul(a, aff_matrix(b))
        if isinstance(a, Atom) and a.sort == "Str" or isinstance(b, Atom) and b.sort == "Str":
            if op == "+":
                return T.app("strcat", (self.as_str(a), self.as_str(b)), "Str")
            if op == "<":
                return bapp("strlt", (a, b))
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return OpaqueV(op)
        if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
            return self.arith(op, a, b, n, st)
        raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------ methods
    BLOCKS = {"block", "row", "col", "head", "tail", "segment", "topRows", "bottomRows", "leftCols", "rightCols",
              "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "middleRows", "middleCols"}

    def method(self, name, me, base, args, n, st, want_loc):
        if me.get("isArrow"):
            bv = self.ev(base, st)
            if isinstance(bv, StructV) and bv.tname == "iter":
                loc = bv.get("loc").loc
            else:
                loc = self.deref(st, bv, self.ntype(base))
        else:
            x = unwrap(base)
            if "stream" in self.ntype(x):
                return T.app("str?", (), "Str") if name == "str" else OpaqueV("stream")
            loc = self.lv(base, st)
        v = self.read(st, loc)
        if name.startswith("operator") and not isinstance(v, ExtV):
            bn = name[8:].strip()
            if bn in ("+", "-", "*", "/"):
                return self.binop(bn, v, self.ev(args[0], st), n, st)
            if isinstance(v, (Poly, B)):
                return v
        if isinstance(v, Mat):
            return self.mat_method(name, loc, v, args, n, st)
        if isinstance(v, SeqV):
            return self.seq_method(name, loc, v, args, n, st)
        if isinstance(v, MapV):
            return self.map_method(name, loc, v, args, n, st)
        if isinstance(v, ExtV):
            return self.ext_method(name, loc, v, args, n, st, want_loc)
        if isinstance(v, StructV):
            return self.struct_method(name, loc, v, args, n, st)
        if isinstance(v, Atom) and v.sort == "Str":
            return self.str_method(name, loc, v, args, n, st)
        if isinstance(v, OpaqueV):
            return OpaqueV(name)
        if isinstance(v, FnV) and name == "operator bool":
            return TRUE
        raise Unsupported("method %s on %s" % (name, type(v).__name__))

    def block_loc(self, st, loc, m, r0, c0, nr, nc, n):
        r0, c0, nr, nc = P(r0), P(c0), P(nr), P(nc)
        self.oblige(st, "Eigen block in range",
                    AND(ge(r0, ZERO), ge(c0, ZERO), ge(nr, ZERO), ge(nc, ZERO), le(r0 + nr, m.rows), le(c0 + nc, m.cols)),
                    where=self.where(n))
        return self.sub(loc, ("b", r0, c0, nr, nc))

    def mat_method(self, name, loc, m, args, n, st):
        A = [self.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        R, C = m.rows, m.cols
        isrow = R.iconst() == 1 and C.iconst() != 1
        if name in self.BLOCKS:
            fd = fixed_block_dims(self.ntype(n))
            fr = P(fd[0]) if fd and fd[0] >= 0 else None
            fc = P(fd[1]) if fd and fd[1] >= 0 else None
            if name == "block":
                if len(A) == 4:
                    return self.block_loc(st, loc, m, A[0], A[1], A[2], A[3], n)
                return self.block_loc(st, loc, m, A[0], A[1], fr, fc, n)
            if name == "row":
                return self.block_loc(st, loc, m, A[0], 0, 1, C, n)
            if name == "col":
                return self.block_loc(st, loc, m, 0, A[0], R, 1, n)
            if name in ("head", "tail", "segment"):
                if name == "segment":
                    s0 = A[0]
                    k = A[1] if len(A) > 1 else (fc if isrow else fr)
                else:
                    k = A[0] if A else None
                    if k is None:
                        t = self.ntype(n)
                        mm = re.search(r"VectorBlock<.*, (\d+)>", t)
                        k = P(int(mm.group(1))) if mm else (fc if isrow else fr)
                    s0 = ZERO if name == "head" else (C if isrow else R) - k
                if isrow:
                    return self.block_loc(st, loc, m, 0, s0, 1, k, n)
                return self.block_loc(st, loc, m, s0, 0, k, 1, n)
            if name == "topRows":
                k = A[0] if A else fr
                return self.block_loc(st, loc, m, 0, 0, k, C, n)
            if name == "bottomRows":
                k = A[0] if A else fr
                return self.block_loc(st, loc, m, R - k, 0, k, C, n)
            if name == "leftCols":
                k = A[0] if A else fc
                return self.block_loc(st, loc, m, 0, 0, R, k, n)
            if name == "rightCols":
                k = A[0] if A else fc
                return self.block_loc(st, loc, m, 0, C - k, R, k, n)
            if name == "middleRows":
                return self.block_loc(st, loc, m, A[0], 0, A[1] if len(A) > 1 else fr, C, n)
            if name == "middleCols":
                return self.block_loc(st, loc, m, 0, A[0], R, A[1] if len(A) > 1 else fc, n)
            a, b = (A[0], A[1]) if len(A) == 2 else (fr, fc)
            r0 = ZERO if name.startswith("top") else R - a
            c0 = ZERO if "Left" in name else C - b
            return self.block_loc(st, loc, m, r0, c0, a, b, n)
        if name in ("x", "y", "z", "w"):
            return self.entry_loc(st, loc, m, [P("xyzw".index(name))], n)
        if name in ("coeff", "coeffRef"):
            return self.entry_loc(st, loc, m, A, n)
        if name == "rows":
            return R
        if name == "cols":
            return C
        if name == "size":
            return R * C
        if name in ("noalias", "eval", "derived", "matrix"):
            return loc if name != "matrix" else Mat(R, C, m._fn)
        if name == "array":
            v = Mat(R, C, lambda i, j: m(i, j), "array")
            if isinstance(loc, Loc) and self.is_assigned_array(n):
                return loc
            return v
        if name == "transpose":
            return TLoc(loc)
        if name == "adjoint":
            return m.T
        if name in ("setZero", "setOnes", "setConstant", "setIdentity"):
            if name in ("setZero", "setOnes") and A or (name == "setConstant" and len(A) > 1):
                dims = A if name != "setConstant" else A[:-1]
                R, C = (dims[0], dims[1]) if len(dims) == 2 else (dims[0], ONE)
            x = {"setZero": ZERO, "setOnes": ONE}.get(name)
            if name == "setConstant":
                x = P(A[-1])
            self.write(st, loc, ident(R, C) if name == "setIdentity" else const_mat(R, C, x))
            return loc
        if name in ("resize", "conservativeResize"):
            nr, nc = (P(A[0]), P(A[1])) if len(A) == 2 else (P(A[0]), ONE)
            if len(A) == 1 and isrow:
                nr, nc = ONE, P(A[0])
            u = self.uninit_mat(nr, nc)
            if name == "resize":
                # contents survive when the size does not change
                same = AND(eq(nr, R), eq(nc, C))
                self.write(st, loc, Mat(nr, nc, lambda i, j: ite(same, m(i, j), u(i, j))) if same is not FALSE else u)
            else:
                self.write(st, loc, Mat(nr, nc, lambda i, j: ite(AND(lt(i, R), lt(j, C)), m(i, j), u(i, j))))
            return None
        if name == "norm":
            return T.sqrt(squared_norm(m))
        if name == "squaredNorm":
            return squared_norm(m)
        if name in ("normalized", "normalize"):
            if getattr(self, "name_units", False):
                m = named_vec(m)
            nn = squared_norm(m)
            k = inv(T.sqrt(nn))
            r = Mat(R, C, lambda i, j: ite(gt(nn, ZERO), m(i, j) * k, m(i, j)))
            if name == "normalize":
                self.write(st, loc, r)
                return None
            return r
        if name == "dot":
            b = A[0]
            self.oblige(st, "dot: sizes agree", eq(R * C, b.rows * b.cols), where=self.where(n))
            ga = (lambda i: m(0, i)) if isrow else (lambda i: m(i, 0))
            gb = (lambda i: b(0, i)) if b.rows.iconst() == 1 and b.cols.iconst() != 1 else (lambda i: b(i, 0))
            return Sum(C if isrow else R, lambda i: ga(i) * gb(i))
        if name == "cross":
            return cross(m, A[0])
        if name == "unitOrthogonal" and m.dims() == (3, 1):
            self.externs.add("Eigen unitOrthogonal (a unit vector orthogonal to a non-zero vector)")
            u = unit_orthogonal(m)
            st.assume(IMP(gt(squared_norm(m), 0), AND(eq(squared_norm(u), 1), eq(sum((u(k) * m(k) for k in range(3)), P(0)), 0))))
            return u
        if name == "sum":
            return Sum(R, lambda i: Sum(C, lambda j: m(i, j)))
        if name == "mean":
            return Sum(R, lambda i: Sum(C, lambda j: m(i, j))) * inv(R * C)
        if name == "trace":
            return Sum(R, lambda i: m(i, i))
        if name == "cwiseProduct":
            self.same_size(st, m, A[0], n, "cwiseProduct")
            return Mat(R, C, lambda i, j: m(i, j) * A[0](i, j))
        if name == "cwiseAbs":
            return m.map(T.tabs)
        if name == "asDiagonal":
            return Mat(R, R, lambda i, j: ite(eq(i, j), m(i, 0), ZERO))
        if name == "diagonal":
            return Mat(T.tmin(R, C), 1, lambda i, j: m(i, i))
        if name == "isZero":
            prec = A[0] if A else P(Fraction(1, 10 ** 12))
            i, j = T.fresh("$q", "I"), T.fresh("$q", "I")
            e = m(i, j)
            return forall((i, j), IMP(AND(ge(i, 0), lt(i, R), ge(j, 0), lt(j, C)), AND(le(e, prec), le(-e, prec))))
        if name == "inverse":
            d = m.dims()
            if d == (3, 3) and getattr(self, "orthonormal_inverse", False):
                col = [Mat(3, 1, lambda i, j, k=k: m(i, k)) for k in range(3)]
                pairs = [(a, b) for a in range(3) for b in range(a, 3)]
                for k in range(3):
                    o, p = (k + 1) % 3, (k + 2) % 3
                    x = cross(col[o], col[p])
                    if all(x(i, 0) is col[k](i, 0) for i in range(3)) and cross_lemma():
                        # the cross product of two orthonormal columns completes them (Lagrange's identity)
                        pairs = [(a, b) for a, b in pairs if k not in (a, b)]
                        break
                for a, b in pairs:
                    self.oblige(st, "inverse taken as the transpose: columns %d and %d orthonormal" % (a, b),
                                eq(sum((m(k, a) * m(k, b) for k in range(3)), P(0)), 1 if a == b else 0), where=self.where(n))
                return m.T
            if d == (2, 2):
                det = m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0)
                k = inv(det)
                return mat_of([[m(1, 1) * k, -m(0, 1) * k], [-m(1, 0) * k, m(0, 0) * k]])
            if d in ((3, 3), (4, 4)) and not getattr(self, "rigid_inverse", False) and not self.hooks.get("mat_inverse"):
                det, adj = adjugate(m, d[0])
                self.oblige(st, "inverse of a regular matrix", NOT(eq(det, 0)), where=self.where(n))
                k = inv(det)
                return mat_of([[x * k for x in r] for r in adj])
            if d == (3, 3) and getattr(self, "rigid_inverse", False):
                return m.T
            if None not in d and d[0] == d[1] and d[0] <= 24 and not self.hooks.get("mat_inverse"):
                return sparse_inverse(self, st, m, d[0], self.where(n))
            h = self.hooks.get("mat_inverse")
            if h:
                return h(self, st, m)
            raise Unsupported("matrix inverse")
        if name == "determinant":
            d = m.dims()
            if d == (2, 2):
                return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0)
            if d in ((3, 3), (4, 4)):
                return adjugate(m, d[0])[0]
            raise Unsupported("determinant")
        if name in ("maxCoeff", "minCoeff"):
            d = m.dims()
            if None in d:
                raise Unsupported(name)
            es = m.entries()
            r = es[0]
            for e in es[1:]:
                r = T.tmax(r, e) if name == "maxCoeff" else T.tmin(r, e)
            return r
        if name == "value":
            return m(0, 0)
        if name == "exp" and not A:
            k = mat_key(m)
            self.externs.add("Eigen matrix exponential")
            return Mat(R, C, lambda i, j: T.app("expm", k + (i, j)))
        if name == "sqrt" and not A:
            return m.map(T.sqrt) if m.tag == "array" else matrix_sqrt(self, m)
        if name in ("hasNaN",):
            h = self.hooks.get("hasNaN")
            return h(self, st, m) if h else FALSE
        if name == "allFinite":
            return TRUE
        if name in ("isApprox",):
            raise Unsupported(name)
        h = self.hooks.get("mat_method")
        if h:
            r = h(self, st, name, loc, m, A, n)
            if r is not NotImplemented:
                return r
        raise Unsupported("Eigen method " + name)

    def is_assigned_array(self, n):
        return False

    def seq_method(self, name, loc, s, args, n, st):
        if name == "size":
            return s.len
        if name == "empty":
            return eq(s.len, ZERO)
        if name in ("push_back", "emplace_back"):
            if name == "emplace_back" and len(args) != 1:
                raise Unsupported("emplace_back")
            v = self.ev(args[0], st)
            v = self.coerce(st, v, s.et, n) if s.et else v
            self.write(st, loc, s.push(v))
            return None
        if name == "pop_back":
            self.oblige(st, "pop_back on a non-empty vector", gt(s.len, ZERO), where=self.where(n))
            self.write(st, loc, SeqV(s.len - 1, s._fn, s.et))
            return None
        if name == "clear":
            self.write(st, loc, seq_of([], s.et))
            return None
        if name == "back":
            self.oblige(st, "back() of a non-empty vector", gt(s.len, ZERO), where=self.where(n))
            return self.sub(loc, ("i", s.len - 1))
        if name == "front":
            self.oblige(st, "front() of a non-empty vector", gt(s.len, ZERO), where=self.where(n))
            return self.sub(loc, ("i", ZERO))
        if name == "at":
            k = self.ev(args[0], st)
            self.oblige(st, "vector index in range", AND(ge(k, ZERO), lt(k, s.len)), where=self.where(n))
            return self.sub(loc, ("i", k))
        if name == "resize":
            k = P(self.ev(args[0], st))
            d = self.default_val(s.et, st)
            old = s
            self.write(st, loc, SeqV(k, lambda i: merge(lt(i, old.len), lambda: old(i), d), s.et))
            return None
        if name == "reserve":
            return None
        if name in ("begin", "end", "cbegin", "cend"):
            return StructV("seqiter", None, seq=s, pos=ZERO if "begin" in name else s.len, loc=PtrV(loc))
        if name == "erase":
            a = [self.ev(x, st) for x in args]
            if len(a) == 1 and isinstance(a[0], StructV) and a[0].tname == "seqiter":
                p = a[0].pos
                old = s
                self.oblige(st, "erase inside the vector", AND(ge(p, ZERO), lt(p, s.len)), where=self.where(n))
                self.write(st, loc, SeqV(s.len - 1, lambda i: merge(lt(i, p), lambda: old(i), lambda: old(i + 1)), s.et))
                return None
            if len(a) == 2 and isinstance(a[0], StructV) and a[0].tname == "seqremoved" and a[1].pos is s.len:
                self.write(st, loc, a[0].get("seq"))
                return None
        if name == "insert":
            raise Unsupported("vector::insert")
        raise Unsupported("vector method " + name)

    def map_method(self, name, loc, m, args, n, st):
        if name == "count" or name == "contains":
            k = self.ev(args[0], st)
            return m.has(k) if name == "contains" else P(m.has(k))
        if name == "at":
            k = self.ev(args[0], st)
            self.oblige(st, "map::at on a present key", m.has(k), where=self.where(n))
            return self.sub(loc, ("k", k))
        if name == "insert":
            v = self.ev(args[0], st)
            if m.get is None:
                self.write(st, loc, m.set(v, None))
            else:
                h = m.has(v.first)
                nv = v.second if h is FALSE else merge(h, lambda: m.get(v.first), v.second)
                self.write(st, loc, m.set(v.first, nv))
            return None
        if name == "erase":
            k = self.ev(args[0], st)
            if isinstance(k, StructV):
                raise Unsupported("erase by iterator")
            self.write(st, loc, m.erase(k))
            return None
        if name == "clear":
            self.write(st, loc, MapV(lambda k: FALSE, m.get, (ZERO, None, None), m.kt, m.vt, ZERO))
            return None
        if name == "size":
            if m.enum is not None:
                return m.enum[0]
            if m.n is not None:
                return m.n
            raise Unsupported("size of an updated map")
        if name == "empty":
            if m.enum is not None:
                return eq(m.enum[0], ZERO)
            raise Unsupported("empty() of an updated map")
        if name == "find":
            k = self.ev(args[0], st)
            h = m.has(k)
            self_loc = loc
            pl = self.temp(st, StructV("pair", None, first=k, second=m.get(k) if m.get is not None else ZERO))
            return StructV("iter", None, pos=ite(h, ZERO, ONE), loc=PtrV(pl))
        if name == "end":
            return StructV("iter", None, pos=ONE, loc=PtrV(loc))
        raise Unsupported("map method " + name)

    def struct_method(self, name, loc, v, args, n, st):
        t = v.tname
        if t == "Affine3d":
            if name in ("linear",):
                return self.sub(loc, ("f", "linear"))
            if name == "rotation":
                self.assumptions.add("Eigen rotation() of a rigid transform is its linear part")
                return v.linear
            if name == "translation":
                return self.sub(loc, ("f", "translation"))
            if name == "matrix":
                return aff_matrix(v)
            if name == "toActionMatrix":
                return action_matrix(v)
            if name == "inverse":
                self.assumptions.add("Eigen inverse() of a rigid transform is (R^T, -R^T t)")
                return aff_inv(v)
            if name == "setIdentity":
                self.write(st, loc, affine(ident(3), zeros(3, 1)))
                return None
            A = [self.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if name == "translate":
                self.write(st, loc, affine(v.linear, matmul(v.linear, A[0]) + v.translation))
                return loc
            if name == "pretranslate":
                self.write(st, loc, affine(v.linear, v.translation + A[0]))
                return loc
            if name in ("rotate", "prerotate"):
                R = A[0] if isinstance(A[0], Mat) else self.to_affine(A[0]).linear
                self.write(st, loc, affine(matmul(v.linear, R), v.translation) if name == "rotate" else
                           affine(matmul(R, v.linear), matmul(R, v.translation)))
                return loc
        if t == "AngleAxis":
            if name in ("toRotationMatrix", "matrix"):
                return rodrigues(v.angle, v.axis)
            if name == "angle":
                return v.angle
            if name == "axis":
                return v.axis
        if t == "Quaternion" and name in "xyzw" and len(name) == 1:
            if v._get is None and "x" in v._f:
                return v.get(name)
            self.externs.add("Eigen::Quaterniond(rotation): its coefficients")
            return T.app("quat_" + name, mat_key(v.R))
        if t == "Quaternion" and name in ("toRotationMatrix", "matrix"):
            return v.R
        if t == "Quaternion" and name in ("inverse", "conjugate"):
            return StructV("Quaternion", None, R=v.R.T)
        if t == "Quaternion" and name == "normalized":
            return v
        if t == "Quaternion" and name == "slerp":
            a = self.ev(args[0], st)
            b = self.ev(args[1], st)
            self.externs.add("Eigen::Quaterniond::slerp (ends at 0 and 1)")
            return StructV("Quaternion", None, R=slerp(v.R, b.R, a))
        h = self.hooks.get("struct_method")
        if h:
            A = [self.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            r = h(self, st, name, loc, v, A, n)
            if r is not NotImplemented:
                return r
        raise Unsupported("method %s of %s" % (name, t))

    def str_method(self, name, loc, v, args, n, st):
        A = [self.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if name == "size" or name == "length":
            if v.kind == "lit":
                return P(len(v.data))
            return T.app("strlen.len", (v,), "I")
        if name == "c_str":
            return v
        if name == "empty":
            return eq(v, T.lit(""))
        return T.app("str." + name, (v,) + tuple(a for a in A if isinstance(a, (Poly, Atom))), "Str")

    def ext_method(self, name, loc, v, args, n, st, want_loc):
        h = self.hooks.get("ext_method")
        A = [self.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if h:
            r = h(self, st, name, loc, v, A, n)
            if r is not NotImplemented:
                return r
        t = v.tname
        if "AngleAxis" in t or "Quaternion" in t:
            raise Unsupported("method %s of %s" % (name, t))
        # pure observer of an external object, as an uninterpreted function of the object and leaf arguments
        flat = []
        for a in A:
            f = leaf_args(a)
            if f is None:
                raise Unsupported("external method %s.%s" % (t, name))
            flat += f
        ty = self.ntype(n)
        self.externs.add("%s::%s" % (norm_type(t), name))
        if norm_type(ty) == "void":
            raise Unsupported("external void method %s.%s" % (t, name))
        if v._f:
            raise Unsupported("external method %s on a modified object" % name)
        return self.types.sym(ty.rstrip("& "), v.path + "." + name + "()", v.idx + tuple(flat))

    # ------------------------------------------------------------ free functions
    def free(self, name, args, n, st, rd, callee):
        h = self.hooks.get("free")
        if h:
            r = h(self, st, name, args, n, rd)
            if r is not NotImplemented:
                return r
        t = self.ntype(n)
        if name in ("Zero", "Ones", "Identity", "Constant", "UnitX", "UnitY", "UnitZ", "UnitW", "Random", "Unit"):
            return self.static_eigen(name, args, n, st, t)
        if name in ("max", "min", "fmax", "fmin"):
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            return T.tmax(a, b) if name in ("max", "fmax") else T.tmin(a, b)
        if name in ("move", "forward"):
            return self.lv(args[0], st)
        if name == "swap":
            la, lb = self.lv(args[0], st), self.lv(args[1], st)
            a, b = self.read(st, la), self.read(st, lb)
            self.write(st, la, b)
            self.write(st, lb, a)
            return None
        if name == "make_pair":
            return StructV("pair", None, first=self.ev(args[0], st), second=self.ev(args[1], st))
        if name == "remove":
            a, b, x = [self.ev(y, st) for y in args]
            if isinstance(a, StructV) and a.tname == "seqiter" and isinstance(b, StructV) and b.tname == "seqiter" and a.pos is ZERO and b.pos is a.seq.len:
                if isinstance(x, PtrV):
                    x = self.to_ptr(x.loc)
                self.externs.add("std::remove")
                return StructV("seqremoved", None, seq=removed(a.seq, x))
            raise Unsupported("std::remove on part of a vector")
        if name in ("Jlog3", "Jexp3") and len(args) == 2:
            # the derivative of the logarithm (exponential) map, written in the second argument
            m = self.ev(args[0], st)
            self.externs.add("pinocchio::" + name)
            self.write(st, self.lv(args[1], st), jlog3(m) if name == "Jlog3" else Mat(3, 3, lambda i, j: T.app("Jexp3", mat_key(m) + (P(i), P(j)))))
            return None
        vals = [self.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if name in ("fabs", "abs", "fabsf"):
            return T.tabs(vals[0])
        if name == "sqrt":
            return T.sqrt(vals[0])
        if name in ("sin", "cos"):
            return T.sin(vals[0]) if name == "sin" else T.cos(vals[0])
        if name in ("tan", "atan2", "exp", "log", "acos", "asin", "atan", "sinh", "cosh", "tanh", "fmod"):
            self.externs.add("libm " + name)
            return T.app(name, tuple(P(v) for v in vals))
        if name == "pow":
            c = P(vals[1]).iconst()
            if c is not None and 0 <= c <= 8:
                return P(vals[0]) ** c
            return T.app("pow", (P(vals[0]), P(vals[1])))
        if name == "floor":
            return T.floor(vals[0])
        if name == "ceil":
            return -T.floor(-P(vals[0]))
        if name in ("round", "lround"):
            return T.tround(vals[0])
        if name == "hypot":
            return T.sqrt(vals[0] * vals[0] + vals[1] * vals[1])
        if name == "tolower":
            x = P(vals[0])
            return ite(AND(ge(x, 65), le(x, 90)), x + 32, x)
        if name == "exp3" and isinstance(vals[0], Mat):
            self.externs.add("pinocchio::exp3")
            return exp3(vals[0])
        if name == "log3" and isinstance(vals[0], Mat):
            self.externs.add("pinocchio::log3")
            return log3(vals[0])
        if name == "skew" and isinstance(vals[0], Mat):
            return skew(vals[0])
        if name == "to_string":
            return self.as_str(vals[0])
        if name in ("isnan", "isinf"):
            return FALSE
        if name == "infinity":
            return T.var("inf")
        if name in ("printf", "fprintf", "flush", "endl"):
            return None
        raise Unsupported("external function " + name)

    def static_eigen(self, name, args, n, st, t):
        A = [self.ev(a, st) for a in args]
        if is_affine(t):
            return affine(ident(3), zeros(3, 1))
        # find the plain matrix type inside the expression type
        i = t.rfind("Matrix<")
        m = re.search(r"(?:Matrix|Array)<(?:double|int), (-?\d+), (-?\d+)", t)
        d = (int(m.group(1)), int(m.group(2))) if m else None
        if name.startswith("Unit"):
            k = {"UnitX": 0, "UnitY": 1, "UnitZ": 2, "UnitW": 3}.get(name)
            if name == "Unit":
                k = A[-1]
            size = d[0] if d and d[0] >= 0 else (A[0] if len(A) > 1 else None)
            if size is None or size == -1:
                raise Unsupported(name)
            if d and d[0] != d[1] and d[1] != 1 and d[0] >= 0:
                size = d[0]
            return Mat(size, 1, lambda i, j: ite(eq(i, k), ONE, ZERO))
        if d is None:
            raise Unsupported("Eigen static %s of %s" % (name, t[:80]))
        vals = A[:]
        x = None
        if name == "Constant":
            x = P(vals.pop())
        if len(vals) == 2:
            r, c = P(vals[0]), P(vals[1])
        elif len(vals) == 1:
            r, c = (P(vals[0]), ONE) if d[1] == 1 else (ONE, P(vals[0]))
        else:
            r, c = P(d[0]), P(d[1])
        if name == "Identity":
            return ident(r, c)
        if name == "Random":
            return self.uninit_mat(r, c)
        return const_mat(r, c, {"Zero": ZERO, "Ones": ONE}.get(name, x))


MI, MJ = T.var("$mi", "I"), T.var("$mj", "I")


def mat_key(m):
    """a matrix as arguments of an uninterpreted function: sizes and the entry at generic indices"""
    d = m.dims()
    if d[0] is not None and d[1] is not None and d[0] * d[1] <= 16:
        return (m.rows, m.cols) + tuple(m.entries())
    return (m.rows, m.cols, m(MI, MJ))


def leaf_args(a):
    if isinstance(a, (Poly, Atom, B)):
        return [a]
    if isinstance(a, Mat):
        d = a.dims()
        if d[0] is not None and d[1] is not None:
            return a.entries()
    if isinstance(a, StructV) and a.tname == "Affine3d":
        return a.linear.entries() + a.translation.entries()
    return None


def slerp(A, B_, t):
    """rotation between two rotations: the ends are those given, otherwise uninterpreted"""
    k = mat_key(A) + mat_key(B_) + (P(t),)
    return Mat(3, 3, lambda i, j: ite(eq(t, 0), A(i, j), ite(eq(t, 1), B_(i, j), T.app("slerp", k + (P(i), P(j))))))


def exp3(v):
    """rotation of a rotation vector"""
    k = tuple(P(v(i, 0)) for i in range(3))
    return Mat(3, 3, lambda i, j: T.app("exp3", k + (P(i), P(j))))


def log3(R):
    k = mat_key(R)
    return Mat(3, 1, lambda i, j: T.app("log3", k + (P(i),)))


def matrix_sqrt(ex, m):
    """symmetric square root of a matrix (uninterpreted)"""
    if ex is not None:
        ex.externs.add("Eigen matrix square root")
    k = mat_key(m)
    return Mat(m.rows, m.cols, lambda i, j: T.app("matrix_sqrt", k + (P(i), P(j))))


def action_matrix(a):
    """6x6 action of a rigid transform on spatial motions (linear part first)"""
    R, S = a.linear, matmul(skew(a.translation), a.linear)
    def fn(i, j):
        i, j = P(i), P(j)
        ci, cj = i.iconst(), j.iconst()
        up, left = lt(i, 3), lt(j, 3)
        return ite(AND(up, left), R(i, j), ite(AND(up, NOT(left)), S(i, j - 3), ite(AND(NOT(up), NOT(left)), R(i - 3, j - 3), ZERO)))
    return mat_of([[fn(i, j) for j in range(6)] for i in range(6)])


def jlog3(R):
    """derivative of the logarithm map at R (uninterpreted)"""
    k = mat_key(R)
    return Mat(3, 3, lambda i, j: T.app("Jlog3", k + (P(i), P(j))))


def sparse_inverse(ex, st, m, n, where):
    """inverse of a matrix made, up to permutations, of small blocks (each must be regular)"""
    es = [[P(m(i, j)) for j in range(n)] for i in range(n)]
    nz = [[es[i][j].const() != 0 for j in range(n)] for i in range(n)]
    comp, out = {}, [[ZERO] * n for _ in range(n)]
    for i in range(n):
        if i in comp:
            continue
        rows, cols, todo = {i}, set(), [i]
        while todo:
            r = todo.pop()
            for j in range(n):
                if nz[r][j] and j not in cols:
                    cols.add(j)
                    for q in range(n):
                        if nz[q][j] and q not in rows:
                            rows.add(q)
                            todo.append(q)
        for r in rows:
            comp[r] = True
        R, C = sorted(rows), sorted(cols)
        if len(R) != len(C) or len(R) > 8:
            raise Unsupported("matrix inverse")
        memo = {}

        def det(rs, cs):
            if not rs:
                return P(1)
            k = (rs, cs)
            if k not in memo:
                # along the row with fewest terms
                q = min(range(len(rs)), key=lambda x: sum(nz[rs[x]][c] for c in cs))
                t = ZERO
                for y, c in enumerate(cs):
                    if nz[rs[q]][c]:
                        v = es[rs[q]][c] * det(rs[:q] + rs[q + 1:], cs[:y] + cs[y + 1:])
                        t = t + v if (q + y) % 2 == 0 else t - v
                memo[k] = t
            return memo[k]
        R, C = tuple(R), tuple(C)
        D = det(R, C)
        ex.oblige(st, "inverse of a regular matrix", NOT(eq(D, 0)), where=where)
        k = inv(D)
        for a, r in enumerate(R):
            for b, c in enumerate(C):
                v = det(R[:a] + R[a + 1:], C[:b] + C[b + 1:])
                out[c][r] = (v if (a + b) % 2 == 0 else -v) * k
    return mat_of(out)


def adjugate(m, n):
    """determinant and adjugate of a small square matrix"""
    es = [[P(m(i, j)) for j in range(n)] for i in range(n)]

    def det(rows, cols):
        if not rows:
            return P(1)
        r = ZERO
        for q, c in enumerate(cols):
            t = es[rows[0]][c] * det(rows[1:], cols[:q] + cols[q + 1:])
            r = r + t if q % 2 == 0 else r - t
        return r
    A = list(range(n))
    d = det(A, A)
    adj = [[det(A[:j] + A[j + 1:], A[:i] + A[i + 1:]) * (1 if (i + j) % 2 == 0 else -1) for j in A] for i in A]
    return d, adj
