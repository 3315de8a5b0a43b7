"""Symbolic execution of the extracted functions (statements, expressions, calls)."""
from fractions import Fraction
from decimal import Decimal
import math, re
from terms import *
import terms as T
from values import *
import prove as PV
from ctypes_ import Types, ExtV, norm_type, mat_dims, is_affine, targs
from front import short_type

PI = T.PI


class State:
    __slots__ = ("cells", "facts", "br")

    def __init__(self, cells=None, facts=(), br=()):
        self.cells = dict(cells or {})
        self.facts = tuple(facts)
        self.br = tuple(br)

    def fork(self):
        return State(self.cells, self.facts, self.br)

    def assume(self, b):
        b = bl(b)
        if b is not TRUE and b not in self.facts:
            self.facts = self.facts + (b,)

    def all(self):
        return list(self.facts) + list(self.br)


class Frame:
    __slots__ = ("fn", "env", "this", "tu", "n", "exits", "recv_q")

    def __init__(self, fn, n):
        self.fn, self.env, self.this, self.n = fn, {}, None, n
        self.tu = fn.tu if fn else None
        self.recv_q = None


class CondLoc:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class TLoc:
    """transposed view of a location"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Comma:
    __slots__ = ("loc", "items")

    def __init__(self, loc, items):
        self.loc, self.items = loc, items


class Oblig:
    __slots__ = ("name", "facts", "goal", "kind", "where", "result", "fn")

    def __init__(self, name, facts, goal, kind, where, fn):
        self.name, self.facts, self.goal, self.kind, self.where, self.fn = name, tuple(facts), goal, kind, where, fn
        self.result = None


class Throw:
    __slots__ = ("st", "what", "where")

    def __init__(self, st, what, where):
        self.st, self.what, self.where = st, what, where


class Out:
    """outcome of a statement: kind in next/return/break/continue"""
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


LOCPASS = {"noalias", "array", "matrix", "derived", "eval"}


class Exec:
    def __init__(self, prog, contracts=None, env=None):
        self.prog = prog
        self.types = Types(prog)
        self.contracts = contracts
        self.obligs = []
        self.quiet = 0            # >0: do not record obligations
        self.throws = []          # Throw records of the current function run
        self.nframe = 0
        self.ntemp = 0
        self.stack = []
        self.fname = ""
        self.used_contracts = set()
        self.inlined = set()
        self.externs = set()
        self.assumptions = set()
        self.writes = None        # write log while scanning a loop
        self.depth = 0
        self.hooks = env or {}
        self.loop_no = 0
        self.loop_hints = {}
        self.loop_ann = {}
        self.deadline = None

    # ------------------------------------------------------------ utilities
    def oblige(self, st, name, goal, kind="safety", where=""):
        goal = bl(goal)
        if goal is TRUE:
            if not self.quiet:
                o = Oblig(name, (), TRUE, kind, where, self.fname)
                self.obligs.append(o)
            return
        if not self.quiet:
            self.obligs.append(Oblig(name, st.all(), goal, kind, where, self.fname))
        st.assume(goal)

    def where(self, node):
        r = node.get("range", {}).get("begin", {})
        r = r.get("expansionLoc", r)
        return str(r.get("line", "")) or str(r.get("offset", ""))

    def valid(self, st, c):
        c = bl(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in st.facts or c in st.br:
            return True
        return PV.quick_valid(tuple(st.all()), c, 0.5)

    def temp(self, st, v):
        self.ntemp += 1
        n = "tmp%d" % self.ntemp
        st.cells[n] = v
        return Loc(n)

    @property
    def frame(self):
        return self.stack[-1]

    # ------------------------------------------------------------ locations
    def read(self, st, loc):
        if isinstance(loc, CondLoc):
            return merge(loc.c, self.read(st, loc.a), self.read(st, loc.b))
        if isinstance(loc, TLoc):
            return self.read(st, loc.loc).T
        if loc.cell not in st.cells:
            st.cells[loc.cell] = self.initial_cell(loc.cell)
        v = st.cells[loc.cell]
        for a in loc.path:
            v = self.access(st, v, a)
        if isinstance(v, BottomV):
            raise Unsupported("use of an unmergeable value: " + v.why)
        return v

    def initial_cell(self, name):
        if name.startswith("heap:"):
            q = name[5:]
            return FamV(lambda o: self.types.sym_record(q, name, (o,)) if q in self.prog.records
                        else ExtV(q, name, (o,)), q)
        raise Unsupported("unknown cell " + name)

    def access(self, st, v, a):
        k = a[0]
        if isinstance(v, BottomV):
            raise Unsupported("use of an unmergeable value: " + v.why)
        if k == "f":
            if isinstance(v, ExtV):
                if a[1] in v._f:
                    return v._f[a[1]]
                if len(a) > 2 and a[2]:
                    v._ty.setdefault(a[1], a[2])
                    return self.types.sym(a[2], v.path + "." + a[1], v.idx)
            if not isinstance(v, StructV):
                raise Unsupported("field %s of %s" % (a[1], type(v).__name__))
            return v.get(a[1])
        if k == "i":
            if isinstance(v, SeqV):
                return v(a[1])
            raise Unsupported("index of %s" % type(v).__name__)
        if k == "k":
            if isinstance(v, FamV):
                return v(a[1])
            if isinstance(v, MapV):
                return v.get(a[1])
            raise Unsupported("key of %s" % type(v).__name__)
        if k == "b":
            return v.block(a[1], a[2], a[3], a[4])
        if k == "e":
            if not isinstance(v, Mat):
                raise Unsupported("entry of %s" % type(v).__name__)
            return v(a[1], a[2])
        raise Unsupported("access " + k)

    def write(self, st, loc, val):
        if isinstance(loc, CondLoc):
            a, b = self.read(st, loc.a), self.read(st, loc.b)
            self.write(st, loc.a, merge(loc.c, val, a))
            b = self.read(st, loc.b)
            self.write(st, loc.b, merge(loc.c, b, val))
            return
        if isinstance(loc, TLoc):
            return self.write(st, loc.loc, val.T)
        if self.writes is not None:
            self.writes.append(loc)
        if not loc.path:
            st.cells[loc.cell] = val
            return
        if loc.cell not in st.cells:
            st.cells[loc.cell] = self.initial_cell(loc.cell)
        st.cells[loc.cell] = self.update(st, st.cells[loc.cell], loc.path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        a, rest = path[0], path[1:]
        k = a[0]
        if k == "b":
            sub = val if not rest else self.update(st, v.block(*a[1:]), rest, val)
            return v.set_block(a[1], a[2], a[3], a[4], sub)
        if k == "e":
            x = P(val)
            return v.set_block(a[1], a[2], ONE, ONE, Mat(1, 1, lambda i, j: x))
        inner = val if not rest else self.update(st, self.access(st, v, a), rest, val)
        if k == "f":
            r = v.with_(**{a[1]: inner})
            if isinstance(r, ExtV) and len(a) > 2 and a[2]:
                r._ty[a[1]] = a[2]
            return r
        if k == "i":
            return v.set(a[1], inner)
        if k == "k":
            if isinstance(v, MapV):
                return MapV(v._has, v.get.set(a[1], inner), v.enum, v.kt, v.vt, v.n)
            return v.set(a[1], inner)
        raise Unsupported("update " + k)

    def heap_loc(self, obj, q):
        root = self.prog.root_class(q) if q in self.prog.records else q
        return Loc("heap:" + root, (("k", obj),))

    def deref(self, st, v, t):
        """value of pointer/reference type -> location; t: pointee type string"""
        if isinstance(v, PtrV):
            return v.loc
        if isinstance(v, (Loc, CondLoc)):
            return v
        if isinstance(v, Atom) and v.sort == "Obj":
            t = norm_type(t).rstrip("&* ").strip()
            q = self.types.record(t, self.frame.fn.ns if self.frame.fn else "") or t
            return self.heap_loc(v, q)
        raise Unsupported("dereference of %s" % type(v).__name__)

    def to_ptr(self, loc):
        if isinstance(loc, Loc) and loc.cell.startswith("heap:") and len(loc.path) == 1 and loc.path[0][0] == "k":
            return loc.path[0][1]
        if isinstance(loc, CondLoc):
            a, b = self.to_ptr(loc.a), self.to_ptr(loc.b)
            if isinstance(a, Atom) and isinstance(b, Atom):
                return ite(loc.c, a, b)
        return PtrV(loc)

    # ------------------------------------------------------------ type helpers
    def ntype(self, node):
        t = node.get("type", {})
        return t.get("desugaredQualType", t.get("qualType", ""))

    def qtype(self, node):
        return node.get("type", {}).get("qualType", "")

    # ------------------------------------------------------------ statements
    def run(self, node, st):
        """-> list of Out"""
        k = node.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if m is None:
            if k is None or k == "NullStmt":
                return [Out("next", st)]
            # expression statement
            v = self.ev(node, st, stmt=True)
            if isinstance(v, Comma):
                self.finish_comma(st, v, node)
            return [Out("next", st)] if st.facts != ("dead",) else []
        return m(node, st)

    def s_CompoundStmt(self, node, st):
        outs = []
        cur = st
        for x in node.get("inner", ()):
            if cur is None:
                break
            res = self.run(x, cur)
            nxt = [o for o in res if o.kind == "next"]
            outs += [o for o in res if o.kind != "next"]
            cur = self.merge_states([o.st for o in nxt]) if nxt else None
            if cur is not None and FALSE in cur.facts:
                cur = None
        if cur is not None:
            outs.append(Out("next", cur))
        return outs

    def merge_states(self, sts):
        if len(sts) == 1:
            return sts[0]
        r = sts[-1]
        for s in reversed(sts[:-1]):
            r = self.merge2(s, r)
        return r

    def merge2(self, a, b):
        n = 0
        while n < min(len(a.br), len(b.br)) and a.br[n] is b.br[n]:
            n += 1
        ca, cb = AND(*a.br[n:]), AND(*b.br[n:])
        c = ca
        if len(a.br) > n and len(b.br) > n and a.br[n] is NOT(b.br[n]) and len(b.br) == n + 1:
            c = NOT(cb)
            # when a has more conditions than the split literal, they hold as facts under it
        r = State({}, (), a.br[:n])
        common = [f for f in a.facts if f in b.facts]
        cs = set(common)
        facts = list(common)
        for f in a.facts:
            if f not in cs:
                facts.append(IMP(c, f))
        for f in b.facts:
            if f not in cs:
                facts.append(IMP(NOT(c), f))
        # the two branches need not be exhaustive (a third one left): keep that as a fact
        tot = OR(ca, cb)
        if tot is not TRUE and not (NOT(ca) is cb):
            facts.append(tot)
        r.facts = tuple(f for f in facts if f is not TRUE)
        for k in set(a.cells) | set(b.cells):
            va, vb = a.cells.get(k), b.cells.get(k)
            if va is None or vb is None:
                if k.startswith("heap:"):
                    va = va if va is not None else self.initial_cell(k)
                    vb = vb if vb is not None else self.initial_cell(k)
                else:
                    r.cells[k] = va if va is not None else vb
                    continue
            r.cells[k] = va if va is vb else merge(c, va, vb)
        return r

    def merge_rets(self, outs):
        """merge return outcomes -> (state, value)"""
        if len(outs) == 1:
            return outs[0].st, outs[0].val
        cur, val = outs[-1].st, outs[-1].val
        for o in reversed(outs[:-1]):
            a, b = o.st, cur
            n = 0
            while n < min(len(a.br), len(b.br)) and a.br[n] is b.br[n]:
                n += 1
            ca, cb = AND(*a.br[n:]), AND(*b.br[n:])
            c = ca
            if len(a.br) > n and len(b.br) == n + 1 and a.br[n] is NOT(b.br[n]):
                c = NOT(cb)
            val = self.merge_val(c, o.val, val)
            cur = self.merge2(a, b)
        return cur, val

    def merge_val(self, c, a, b):
        if a is None and b is None:
            return None
        if isinstance(a, (Loc, CondLoc)) and isinstance(b, (Loc, CondLoc)):
            if isinstance(a, Loc) and isinstance(b, Loc) and a.cell == b.cell and a.path == b.path:
                return a
            return CondLoc(c, a, b)
        return merge(c, a, b)

    def s_IfStmt(self, node, st):
        inner = [x for x in node.get("inner", ())]
        i = 0
        if node.get("hasInit") or node.get("hasVar"):
            raise Unsupported("if with initialiser")
        cond = inner[0]
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        return self.branch(self.evb(cond, st), st,
                           lambda s: self.run(then, s),
                           (lambda s: self.run(els, s)) if els is not None else (lambda s: [Out("next", s)]))

    def branch(self, c, st, f, g):
        if c is TRUE or (c is not FALSE and self.valid(st, c)):
            return f(st)
        if c is FALSE or self.valid(st, NOT(c)):
            return g(st)
        a, b = st.fork(), st.fork()
        a.br = a.br + (c,)
        b.br = b.br + (NOT(c),)
        oa, ob = f(a), g(b)
        na = [o for o in oa if o.kind == "next"]
        nb = [o for o in ob if o.kind == "next"]
        rest = [o for o in oa + ob if o.kind != "next"]
        if na and nb:
            rest.append(Out("next", self.merge2(na[0].st, nb[0].st)))
        else:
            rest += na + nb
        return rest

    def s_ReturnStmt(self, node, st):
        inner = node.get("inner", ())
        if not inner:
            return [Out("return", st, None)]
        if self.ret_is_ref():
            v = self.lv(inner[0], st)
        else:
            v = self.ev(inner[0], st)
            v = self.coerce(st, v, self.frame.fn.rtype, node)
        return [Out("return", st, v)]

    def ret_is_ref(self):
        f = self.frame.fn
        return f is not None and f.rtype.rstrip().endswith("&")

    def s_BreakStmt(self, node, st):
        return [Out("break", st)]

    def s_ContinueStmt(self, node, st):
        return [Out("continue", st)]

    def s_DeclStmt(self, node, st):
        for d in node.get("inner", ()):
            if d.get("kind") == "VarDecl":
                self.decl_var(d, st)
            elif d.get("kind") in ("UsingDecl", "TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported("declaration " + str(d.get("kind")))
        return [Out("next", st)]

    def decl_var(self, d, st):
        init = [x for x in d.get("inner", ()) if "kind" in x and not x["kind"].endswith("Comment")
                and not x["kind"].endswith("Attr")]
        t = d["type"]["qualType"]
        name = "v%d:%s:%s" % (self.frame.n, d["id"], d.get("name", ""))
        if t.rstrip().endswith("&"):
            loc = self.lv(init[0], st)
            self.frame.env[d["id"]] = loc
            return
        if d.get("storageClass") == "static":
            raise Unsupported("static local")
        ty = self.ntype(d)
        if init:
            v = self.ev(init[0], st)
            v = self.coerce(st, v, ty, d)
        else:
            v = self.default_val(ty, st, uninit=True)
        self.frame.env[d["id"]] = Loc(name)
        if self.writes is not None:
            self.writes.append(("decl", name))
        st.cells[name] = v

    def s_ForStmt(self, node, st):
        init, condvar, cond, inc, body = node["inner"]
        if init:
            outs = self.run(init, st)
            st = outs[0].st
        return self.loop(node, st, cond if cond else None, body, inc if inc else None)

    def s_WhileStmt(self, node, st):
        inner = node["inner"]
        return self.loop(node, st, inner[0], inner[1], None)

    def s_DoStmt(self, node, st):
        raise Unsupported("do-while loop")

    def s_CXXForRangeStmt(self, node, st):
        return self.range_loop(node, st)

    def s_SwitchStmt(self, node, st):
        inner = [x for x in node["inner"] if x.get("kind")]
        body = inner[-1]
        v = self.ev(inner[-2], st)
        # flat list: (labels, statement); a label None is `default`
        items = []

        def flat(x, labels):
            if x.get("kind") == "CaseStmt":
                flat(x["inner"][-1], labels + [self.ev(x["inner"][0], st)])
            elif x.get("kind") == "DefaultStmt":
                flat(x["inner"][-1], labels + [None])
            else:
                items.append((labels, x))
        for x in body.get("inner", ()):
            flat(x, [])
        alll = [l for ls, _ in items for l in ls if l is not None]

        def go(i, s):
            outs = []
            cur = [s]
            for _, x in items[i:]:
                nxt = []
                for c in cur:
                    for o in self.run(x, c):
                        if o.kind == "next":
                            nxt.append(o.st)
                        elif o.kind == "break":
                            outs.append(Out("next", o.st))
                        else:
                            outs.append(o)
                cur = nxt
                if not cur:
                    break
            return outs + [Out("next", c) for c in cur]
        starts = [(l, i) for i, (ls, _) in enumerate(items) for l in ls]
        cases = [(eq(v, l), i) for l, i in starts if l is not None]
        dflt = next((i for l, i in starts if l is None), len(items))

        def rec(k, s):
            if k == len(cases):
                return go(dflt, s)
            c, i = cases[k]
            return self.branch(c, s, lambda a: go(i, a), lambda b: rec(k + 1, b))
        outs = rec(0, st)
        ns = [o for o in outs if o.kind == "next"]
        if len(ns) > 1:
            m = ns[0].st
            for o in ns[1:]:
                m = self.merge2(m, o.st)
            outs = [o for o in outs if o.kind != "next"] + [Out("next", m)]
        return outs

    def s_CXXTryStmt(self, node, st):
        raise Unsupported("try block")

    def s_CXXThrowExpr(self, node, st):
        self.throw(st, node)
        return []

    def s_ExprWithCleanups(self, node, st):
        x = node["inner"][0]
        if x.get("kind") == "CXXThrowExpr":
            return self.s_CXXThrowExpr(x, st)
        v = self.ev(x, st, stmt=True)
        if isinstance(v, Comma):
            self.finish_comma(st, v, node)
        return [Out("next", st)]

    def throw(self, st, node):
        t = ""
        x = node
        while x.get("inner"):
            x = x["inner"][0]
            q = self.qtype(x)
            if "error" in q.lower() or "Error" in q:
                t = q
                break
        self.throws.append(Throw(st.fork(), t, self.where(node)))

    def finish_comma(self, st, c, node):
        m = self.read(st, c.loc)
        items = [x if isinstance(x, Mat) else Mat(1, 1, lambda i, j, x=x: P(x)) for x in c.items]
        row, col = ZERO, ZERO
        h = None
        for it in items:
            if not self.valid(st, AND(le(col + it.cols, m.cols))) or (col is not ZERO and self.valid(st, ge(col, m.cols))):
                row = row + h
                col = ZERO
                h = None
            if h is None:
                h = it.rows
            self.oblige(st, "comma initialiser block in range",
                        AND(le(row + it.rows, m.rows), le(col + it.cols, m.cols)), where=self.where(node))
            m = m.set_block(row, col, it.rows, it.cols, it)
            col = col + it.cols
            if self.valid(st, ge(col, m.cols)):
                row, col, h = row + h, ZERO, None
        self.oblige(st, "comma initialiser fills the matrix",
                    AND(OR(eq(row, m.rows), AND(eq(col, m.cols)))), where=self.where(node))
        self.write(st, c.loc, m)

    # ------------------------------------------------------------ expressions
    def evb(self, node, st):
        v = self.ev(node, st)
        if isinstance(v, Atom) and v.sort == "Obj":
            return NOT(eq(v, NULL))
        if isinstance(v, PtrV):
            return TRUE
        return bl(v)

    def ev(self, node, st, stmt=False):
        k = node.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
                return self.read(st, self.lv(node, st))
            raise Unsupported("expression %s" % k)
        return m(node, st)

    def lv(self, node, st):
        """location of an lvalue (or temporary holding an rvalue)"""
        k = node.get("kind")
        if k == "DeclRefExpr":
            return self.lv_declref(node, st)
        if k == "MemberExpr":
            return self.lv_member(node, st)
        if k in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr"):
            return self.lv(node["inner"][0], st)
        if k == "ImplicitCastExpr" or k in ("CXXStaticCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr"):
            ck = node.get("castKind")
            if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived"):
                if self.qtype(node).rstrip().endswith("*"):
                    return self.temp(st, self.ev(node, st))
                return self.lv(node["inner"][0], st)
        if k == "UnaryOperator":
            op = node.get("opcode")
            if op == "*":
                x = node["inner"][0]
                return self.deref(st, self.ev(x, st), self.ntype(x))
            if op in ("++", "--") and not node.get("isPostfix"):
                self.ev(node, st)
                return self.lv(node["inner"][0], st)
        if k in ("BinaryOperator", "CompoundAssignOperator") and node.get("opcode", "").endswith("=") and \
                node.get("opcode") not in ("==", "!=", "<=", ">="):
            self.ev(node, st)
            return self.lv(node["inner"][0], st)
        if k == "ConditionalOperator":
            c = self.evb(node["inner"][0], st)
            if node.get("valueCategory") == "lvalue":
                a = self.lv(node["inner"][1], st)
                b = self.lv(node["inner"][2], st)
                return a if c is TRUE else b if c is FALSE else CondLoc(c, a, b)
        if k == "ArraySubscriptExpr":
            raise Unsupported("C array")
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
            v = self.call(node, st, want_loc=True)
            if isinstance(v, (Loc, CondLoc, TLoc)):
                return v
            return self.temp(st, v)
        if k == "CXXThisExpr":
            return self.temp(st, self.ev(node, st))
        return self.temp(st, self.ev(node, st))

    def lv_declref(self, node, st):
        rd = node["referencedDecl"]
        i = rd["id"]
        for fr in (self.frame,):
            if i in fr.env:
                return fr.env[i]
        if rd.get("kind") == "EnumConstantDecl":
            return self.temp(st, self.enum_const(rd))
        h = self.hooks.get("global")
        if h:
            r = h(self, st, rd)
            if r is not None:
                return r
        # namespace-scope or static constants
        d = self.prog.byid.get((self.frame.tu, i))
        if d is not None and d.get("kind") == "VarDecl" and d.get("inner"):
            return self.temp(st, self.coerce(st, self.ev(d["inner"][0], st), self.ntype(d), node))
        if rd.get("kind") == "VarDecl":
            return self.temp(st, ExtV(rd.get("type", {}).get("qualType", ""), "global:" + rd.get("name", "")))
        raise Unsupported("reference to %s %s" % (rd.get("kind"), rd.get("name")))

    def enum_const(self, rd):
        v = self.prog.enumval.get((self.frame.tu, rd["id"]))
        if v is not None:
            return P(v)
        n = rd.get("name")
        ext = {"WORLD": 0, "LOCAL": 1, "LOCAL_WORLD_ALIGNED": 2}
        if n in ext:
            return P(ext[n])
        return T.app("enum:" + str(n), (), "I")

    def lv_member(self, node, st):
        base = node["inner"][0]
        name = node.get("name", "")
        if node.get("isArrow"):
            bv = self.ev(base, st)
            loc = self.deref(st, bv, self.ntype(base))
        else:
            loc = self.lv(base, st)
        loc = self.field_loc(st, loc, name, self.ntype(node))
        return loc

    def field_loc(self, st, loc, name, ftype):
        if isinstance(loc, CondLoc):
            return CondLoc(loc.c, self.field_loc(st, loc.a, name, ftype), self.field_loc(st, loc.b, name, ftype))
        sv = self.read(st, loc)
        if isinstance(sv, Atom) and sv.sort == "Obj":
            raise Unsupported("field of a pointer value")
        l2 = Loc(loc.cell, loc.path + (("f", name, ftype) if isinstance(sv, ExtV) else ("f", name),))
        # reference fields denote the object they refer to
        if isinstance(sv, StructV) and not isinstance(sv, ExtV):
            x = self.types.field_any(sv.tname, name) if sv.tname in self.prog.records else None
            if x and x[1]["qualType"].rstrip().endswith("&"):
                v = self.read(st, l2)
                return self.deref(st, v, x[1].get("desugaredQualType", x[1]["qualType"]))
        return l2

    # --- literals and simple forms
    def e_IntegerLiteral(self, n, st):
        return P(int(n["value"]))

    def e_CharacterLiteral(self, n, st):
        return P(int(n["value"]))

    def e_FloatingLiteral(self, n, st):
        x = float(n["value"])
        if x == math.pi:
            return PI
        return P(Fraction(Decimal(repr(x))))

    def e_CXXBoolLiteralExpr(self, n, st):
        return bl(bool(n["value"]))

    def e_StringLiteral(self, n, st):
        v = n["value"]
        return T.lit(v[1:-1] if v.startswith('"') else v)

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return NULL

    def e_GNUNullExpr(self, n, st):
        return NULL

    def e_ParenExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = e_ConstantExpr = \
        e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_CXXThisExpr(self, n, st):
        return self.to_ptr(self.frame.this)

    def e_CXXDefaultInitExpr(self, n, st):
        raise Unsupported("default member initialiser expression")

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        x = n["inner"][0]
        if ck in ("LValueToRValue", "NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion",
                  "FunctionToPointerDecay", "ArrayToPointerDecay", "IntegralCast", "FloatingCast", "BaseToDerived",
                  "UserDefinedConversion", "Dynamic", "BitCast"):
            v = self.ev(x, st)
            if ck == "IntegralCast" and isinstance(v, B):
                return P(v)
            if ck == "IntegralCast" and isinstance(v, Poly) and self.types.is_unsigned(self.ntype(n)) \
                    and not self.types.is_unsigned(self.ntype(x)) and not v.is_nonneg():
                c = v.iconst()
                if c is not None and c < 0:
                    return v + P(2 ** (32 if "int" in self.ntype(n) else 64))
                if not self.valid(st, ge(v, ZERO)):
                    # wrap-around of a negative value: kept exact
                    return ite(ge(v, ZERO), v, v + P(2 ** 64))
            if ck == "UserDefinedConversion" and isinstance(v, (Mat,)):
                return v(0, 0) if self.types.scalar_kind(self.ntype(n)) else v
            return v
        if ck == "IntegralToFloating":
            return P(self.ev(x, st))
        if ck == "FloatingToIntegral":
            v = self.ev(x, st)
            return T.trunc(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.evb(x, st)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.ev(x, st)
            return None
        raise Unsupported("cast " + str(ck))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        if not isinstance(v, Atom):
            raise Unsupported("dynamic_cast of a non-heap pointer")
        t = norm_type(self.ntype(n)).rstrip("* ").strip()
        return ite(bapp("isa:" + t.split("::")[-1], (v,)), v, NULL)

    def e_ConditionalOperator(self, n, st):
        c = self.evb(n["inner"][0], st)
        if c is TRUE or self.valid(st, c):
            return self.ev(n["inner"][1], st)
        if c is FALSE or self.valid(st, NOT(c)):
            return self.ev(n["inner"][2], st)
        a, b = st.fork(), st.fork()
        a.br += (c,)
        b.br += (NOT(c),)
        va = self.ev(n["inner"][1], a)
        vb = self.ev(n["inner"][2], b)
        m = self.merge2(a, b)
        st.cells, st.facts = m.cells, m.facts
        return merge(c, va, vb)

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "-":
            return -P(self.ev(x, st))
        if op == "+":
            return self.ev(x, st)
        if op == "!":
            return NOT(self.evb(x, st))
        if op == "*":
            return self.read(st, self.lv(n, st))
        if op == "&":
            return self.to_ptr(self.lv(x, st))
        if op in ("++", "--"):
            loc = self.lv(x, st)
            v = self.read(st, loc)
            if not isinstance(v, Poly):
                raise Unsupported("increment of %s" % type(v).__name__)
            w = v + (1 if op == "++" else -1)
            self.write(st, loc, w)
            return v if n.get("isPostfix") else w
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.ev(r, st)
            loc = self.lv(l, st)
            v = self.coerce(st, v, self.ntype(l), n)
            self.write(st, loc, v)
            return v
        if op in ("&&", "||"):
            a = self.evb(l, st)
            if a is FALSE and op == "&&":
                return FALSE
            if a is TRUE and op == "||":
                return TRUE
            # the right operand is evaluated under the left one
            s2 = st.fork()
            s2.br += ((a if op == "&&" else NOT(a)),)
            b = self.evb(r, s2)
            self.join_cond(st, s2, a if op == "&&" else NOT(a))
            return AND(a, b) if op == "&&" else OR(a, b)
        if op == ",":
            self.ev(l, st)
            return self.ev(r, st)
        a, b = self.ev(l, st), self.ev(r, st)
        return self.arith(op, a, b, n, st)

    def join_cond(self, st, s2, c):
        """s2 was forked from st under c and evaluated an expression"""
        changed = any(s2.cells.get(k) is not v for k, v in st.cells.items())
        if changed:
            other = st.fork()
            other.br += (NOT(c),)
            m = self.merge2(s2, other)
            st.cells, st.facts = m.cells, m.facts
        else:
            for k, v in s2.cells.items():
                st.cells.setdefault(k, v)
            for f in s2.facts:
                if f not in st.facts:
                    st.assume(IMP(c, f))

    def arith(self, op, a, b, n, st):
        if op in ("==", "!="):
            r = self.eq_vals(a, b)
            return r if op == "==" else NOT(r)
        if isinstance(a, (Atom, PtrV)) or isinstance(b, (Atom, PtrV)):
            raise Unsupported("pointer arithmetic " + op)
        a, b = P(a), P(b)
        if op == "+":
            return a + b
        if op == "-":
            r = a - b
            if self.types.is_unsigned(self.ntype(n)) and not r.is_nonneg():
                if not self.valid(st, ge(r, ZERO)):
                    return ite(ge(r, ZERO), r, r + P(2 ** 64))
            return r
        if op == "*":
            return a * b
        if op == "/":
            if self.types.scalar_kind(self.ntype(n)) == "I":
                c = b.iconst()
                self.oblige(st, "integer division by non-zero", NOT(eq(b, ZERO)), where=self.where(n))
                if c is not None and c > 0:
                    if a.is_nonneg() or self.valid(st, ge(a, ZERO)):
                        return T.ediv(a, b)
                    return ite(ge(a, ZERO), T.ediv(a, b), -T.ediv(-a, b))
                return T.app("cdiv", (a, b), "I")
            return a * inv(b)
        if op == "%":
            c = b.iconst()
            self.oblige(st, "modulo by non-zero", NOT(eq(b, ZERO)), where=self.where(n))
            if c is not None and c > 0:
                if a.is_nonneg() or self.valid(st, ge(a, ZERO)):
                    return a - b * T.ediv(a, b)
                return ite(ge(a, ZERO), a - b * T.ediv(a, b), -(-a - b * T.ediv(-a, b)))
            # a % b with 0 <= a < b, or a == b
            if self.valid(st, AND(ge(a, ZERO), lt(a, b))):
                return a
            if self.valid(st, AND(ge(a, ZERO), le(a, b))):
                return ite(eq(a, b), ZERO, a)
            return T.app("cmod", (a, b), "I")
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return gt(a, b)
        if op == ">=":
            return ge(a, b)
        raise Unsupported("operator " + op)

    def eq_vals(self, a, b):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            return bl(a.loc.cell == b.loc.cell and a.loc.path == b.loc.path)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return FALSE
        if isinstance(a, (Poly, Atom, B)) and isinstance(b, (Poly, Atom, B)):
            if isinstance(a, B) and isinstance(b, Poly):
                a = P(a)
            if isinstance(b, B) and isinstance(a, Poly):
                b = P(b)
            return eq(a, b)
        raise Unsupported("== on %s" % type(a).__name__)

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        b = self.ev(r, st)
        loc = self.lv(l, st)
        a = self.read(st, loc)
        n2 = dict(n)
        n2["type"] = n.get("computeResultType", n["type"])
        v = self.arith(op, a, b, n2, st)
        v = self.coerce(st, v, self.ntype(l), n)
        self.write(st, loc, v)
        return v

    def e_CXXNewExpr(self, n, st):
        t = norm_type(self.ntype(n)).rstrip("* ").strip()
        q = self.types.record(t, self.frame.fn.ns or "")
        if q is None:
            raise Unsupported("new " + t)
        ctor = next((x for x in n.get("inner", ()) if x.get("kind", "").endswith("ConstructExpr")), None)
        h = self.hooks.get("newobj")
        o = h(self, st, q, n) if h else None
        if o is None:
            o = self.new_object(q, n)
        loc = self.heap_loc(o, q)
        v = self.ev(ctor, st) if ctor else self.default_val(t, st)
        self.write(st, loc, v)
        st.assume(NOT(eq(o, NULL)))
        return o

    def new_object(self, q, n):
        it = getattr(self, "iter_vars", ())
        if it:
            return T.app("hv:new:%s:%s" % (q.split("::")[-1], n["id"]), tuple(it), "Obj")
        return T.new_obj("new:" + q.split("::")[-1])

    def e_CXXDeleteExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        # ghost state: which objects have been freed
        if isinstance(v, PtrV):
            v = self.to_ptr(v.loc)
        if isinstance(v, Atom) and v.sort == "Obj" and "ghost:freed" in st.cells:
            was = st.cells["ghost:freed"](v)
            self.oblige(st, "object deleted once", OR(eq(v, NULL), NOT(was)), "memory", self.where(n))
            self.write(st, Loc("ghost:freed", (("k", v),)), TRUE)
        return None

    def e_CXXThrowExpr(self, n, st):
        self.throw(st, n)
        st.assume(FALSE)
        return None

    def e_LambdaExpr(self, n, st):
        # the body of a lambda is executed at its calls, in the defining frame (captures by reference or value)
        op = None
        for x in n.get("inner", ()):
            if x.get("kind") == "CXXRecordDecl":
                for y in x.get("inner", ()):
                    if y.get("kind") == "CXXMethodDecl" and y.get("name") == "operator()":
                        op = y
        body = [x for x in n.get("inner", ()) if x.get("kind") == "CompoundStmt"]
        if op is None or not body:
            raise Unsupported("lambda")
        fr = self.frame
        params = [x for x in op.get("inner", ()) if x.get("kind") == "ParmVarDecl"]

        def call(st, argnodes, callerframe):
            vals = []
            for p, a in zip(params, argnodes):
                if p["type"]["qualType"].rstrip().endswith("&"):
                    vals.append(self.lv(a, st))
                else:
                    vals.append(self.coerce(st, self.ev(a, st), self.ntype(p), a))
            rt = op["type"]["qualType"].split("(")[0].strip()
            return self.run_body(fr, params, vals, body[0], rt, st)
        return FnV(call)

    def run_body(self, fr, params, vals, body, rtype, st):
        class FakeFn:
            pass
        f = FakeFn()
        f.tu, f.ns, f.rtype = fr.fn.tu, fr.fn.ns, rtype
        nf = Frame(f, self.nframe + 1)
        self.nframe += 1
        nf.env = dict(fr.env)
        nf.this = fr.this
        nf.tu = fr.tu
        for p, v in zip(params, vals):
            if isinstance(v, (Loc, CondLoc)):
                nf.env[p["id"]] = v
            else:
                name = "p%d:%s" % (nf.n, p.get("name", ""))
                st.cells[name] = v
                nf.env[p["id"]] = Loc(name)
        self.stack.append(nf)
        try:
            outs = self.run(body, st.fork())
        finally:
            self.stack.pop()
        return self.finish_call(outs, st)

    def finish_call(self, outs, st):
        rets = [Out("return", o.st, o.val) for o in outs if o.kind in ("return", "next")]
        rets = [o for o in rets if FALSE not in o.st.facts]
        if not rets:
            st.assume(FALSE)
            return None
        s, v = self.merge_rets(rets)
        base = len(st.br)
        extra = s.br[base:]
        st.cells, st.facts = s.cells, s.facts
        for f in extra:      # a branch that always throws otherwise
            st.assume(f)
        return v

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n, st):
        if "iterator" in self.ntype(n) and len(n.get("inner", ())) == 1:
            v = self.ev(n["inner"][0], st)
            if isinstance(v, StructV) and v.tname in ("seqiter", "seqremoved", "iter"):
                return v
        return self.construct(n, st, self.ntype(n), n.get("inner", ()), n.get("ctorType", {}).get("qualType", ""))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.default_val(self.ntype(n), st)

    def e_ImplicitValueInitExpr(self, n, st):
        return self.default_val(self.ntype(n), st)

    def e_InitListExpr(self, n, st):
        t = self.ntype(n)
        k = self.types.scalar_kind(t)
        inner = n.get("inner", ())
        if k or norm_type(t).endswith("*"):
            return self.ev(inner[0], st) if inner else self.default_val(t, st)
        q = self.types.record(t, self.frame.fn.ns or "")
        if q:
            fs = self.prog.all_fields(q)
            out = {}
            for (f, o), x in zip(fs, inner):
                ft = self.prog.field(q, f)[1]
                if x.get("kind") == "CXXDefaultInitExpr":
                    out[f] = self.field_init(q, f, st)
                else:
                    out[f] = self.coerce(st, self.ev(x, st), ft.get("desugaredQualType", ft["qualType"]), x)
            return StructV(q, None, **out)
        m = re.match(r"(?:const )?(int|double|bool|unsigned int) ?\[(\d+)\]$", norm_type(t).strip())
        if m and len(inner) == int(m.group(2)):
            return seq_of([self.ev(x, st) for x in inner])
        raise Unsupported("initialiser list of " + t)

    def e_CXXStdInitializerListExpr(self, n, st):
        x = n["inner"][0]
        while x.get("kind") in ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ImplicitCastExpr"):
            x = x["inner"][0]
        return seq_of([self.ev(y, st) for y in x.get("inner", ())])

    def field_init(self, q, f, st):
        x = self.prog.field(q, f)
        tu, t, init, owner = x
        ty = t.get("desugaredQualType", t["qualType"])
        if init is None:
            return self.default_val(ty, st, uninit=True)
        fr = Frame(None, self.nframe + 1)
        self.nframe += 1

        class FakeFn:
            pass
        ff = FakeFn()
        ff.tu, ff.ns, ff.rtype = tu, owner, "void"
        fr.fn, fr.tu = ff, tu
        fr.this = self.frame.this if self.stack else None
        self.stack.append(fr)
        try:
            v = self.ev(init, st)
            return self.coerce(st, v, ty, init)
        finally:
            self.stack.pop()

    def default_record(self, q, st):
        """members initialised by their default initialisers"""
        out = {}
        for f, o in self.prog.all_fields(q):
            out[f] = self.field_init(q, f, st)
        return StructV(q, None, **out)

    def default_val(self, t, st, uninit=False):
        t = norm_type(t).rstrip("& ").strip()
        k = self.types.scalar_kind(t)
        if t.endswith("*"):
            return T.app("uninit:%d" % next(T._fresh), (), "Obj") if uninit else NULL
        if k:
            if not uninit:
                return FALSE if k == "B" else ZERO
            n = "uninit:%d" % next(T._fresh)
            return bapp(n, ()) if k == "B" else app(n, (), k)
        d = mat_dims(t)
        if d:
            return self.uninit_mat(max(d[0], 0), max(d[1], 0), d[2])
        if is_affine(t):
            return StructV("Affine3d", None, linear=self.uninit_mat(3, 3), translation=self.uninit_mat(3, 1))
        if self.types.is_string(t):
            return T.lit("")
        c = self.types.container(t)
        if c:
            n, a = c
            if n in ("vector", "list"):
                return seq_of([], a[0])
            if n in ("map", "set", "aligned_map", "unordered_map"):
                return self.empty_map(n, a)
            if n == "pair":
                return StructV("pair", None, first=self.default_val(a[0], st), second=self.default_val(a[1], st))
        q = self.types.record(t, (self.frame.fn.ns or "") if self.stack else "")
        if q:
            ct = self.prog.ctors.get(q, {})
            if () in ct and ct[()] in self.prog.func_by_mangled:
                return self.run_ctor(q, self.prog.func_by_mangled[ct[()]], [], st)
            return self.default_record(q, st)
        h = self.hooks.get("default")
        if h:
            v = h(self, st, t)
            if v is not None:
                return v
        return ExtV(t, "uninit:%d" % next(T._fresh))

    def empty_map(self, n, a):
        isset = n == "set"
        vt = None if isset else a[1]
        get = None if isset else FamV(lambda k: self.types.sym(vt, "absent:" + vt, (k,)), vt)
        return MapV(lambda k: FALSE, get, (ZERO, None, None), a[0], vt, ZERO)

    def uninit_mat(self, r, c, isint=False):
        n = "uninit:%d" % next(T._fresh)
        return Mat(r, c, lambda i, j: app(n, (i, j), "I" if isint else "R"))

    def construct(self, n, st, t, args, ctype):
        t = norm_type(t).rstrip("& ").strip()
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        d = mat_dims(t)
        if d:
            return self.construct_mat(n, st, d, args)
        if is_affine(t):
            if not args:
                return self.default_val(t, st)
            v = self.ev(args[0], st)
            return self.coerce(st, v, t, n)
        if self.types.is_string(t):
            if not args:
                return T.lit("")
            v = self.ev(args[0], st)
            return v
        c = self.types.container(t)
        if c:
            return self.construct_container(n, st, t, c, args)
        q = self.types.record(t, self.frame.fn.ns or "")
        if q:
            ctype = re.sub(r"\)\s*(const)?\s*noexcept(\([^()]*\))?\s*$", ")", ctype)
            pt = ctype[ctype.index("(") + 1:ctype.rindex(")")] if "(" in ctype else ""
            ptypes = tuple(short_type(x) for x in split_params(pt))
            last = q.split("::")[-1]
            ct = self.prog.ctors.get(q, {})
            if ptypes in ct and ct[ptypes] in self.prog.func_by_mangled:
                f = self.prog.func_by_mangled[ct[ptypes]]
                if len(ptypes) == 1 and ptypes[0].split("::")[-1] == last and self.is_plain_copy(f, q):
                    return self.ev(args[0], st)
                return self.call_fn(f, None, args, st, n, ctor=q)
            if len(ptypes) == 1 and ptypes[0].rstrip("&").split("::")[-1] == last and len(args) == 1:
                return self.ev(args[0], st)        # implicit copy / move
            if not args:
                return self.default_val(t, st)
            cands = [m for p, m in ct.items() if len(p) == len(ptypes) and m in self.prog.func_by_mangled]
            if len(cands) == 1:
                return self.call_fn(self.prog.func_by_mangled[cands[0]], None, args, st, n, ctor=q)
            raise Unsupported("constructor %s%s" % (q, ptypes))
        v = self.construct_geometry(t, args, st)
        if v is not None:
            return v
        h = self.hooks.get("construct")
        if h:
            v = h(self, st, t, args, n)
            if v is not None:
                return v
        if "::function<" in t or t.startswith("function<"):
            return self.ev(args[0], st) if args else OpaqueV("function")
        if len(args) == 1:
            v = self.ev(args[0], st)
            if isinstance(v, (FnV, ExtV)) and not isinstance(v, Mat):
                return v
            if isinstance(v, StructV) and v.tname in (t, t.split("::")[-1]):
                return v
        self.externs.add("construct " + t)
        return ExtV(t, "ext:%d" % next(T._fresh))

    def is_plain_copy(self, f, q):
        return False

    def run_ctor(self, q, f, vals, st):
        """vals: evaluated arguments (values or Locs for reference parameters)"""
        self.nframe += 1
        fr = Frame(f, self.nframe)
        this = Loc("this%d" % self.nframe)
        fr.this = this
        for p, v in zip(f.params, vals):
            self.bind_param(fr, p, v, st)
        fields = {}
        self.stack.append(fr)
        try:
            inits = {}
            basei = []
            for i in f.inits:
                if "anyInit" in i:
                    inits[i["anyInit"].get("name")] = i
                elif "baseInit" in i or "delegatingInit" in i:
                    basei.append(i)
            deleg = [i for i in basei if "delegatingInit" in i]
            if deleg:
                st.cells[this.cell] = self.ev(deleg[0]["inner"][0], st)
            else:
                sv = StructV(q, None)
                base_done = set()
                for i in basei:
                    x = i["inner"][0]
                    bq = self.types.record(i["baseInit"].get("desugaredQualType", i["baseInit"]["qualType"]), f.ns or "")
                    if bq is None:
                        continue
                    bv = self.ev(x, st)
                    for (fn, o) in self.prog.all_fields(bq):
                        sv._f[fn] = bv.get(fn)
                    base_done.add(bq)
                st.cells[this.cell] = sv
                for (fn, o) in self.prog.all_fields(q):
                    if fn in sv._f:
                        continue
                    if fn in inits:
                        x = inits[fn]["inner"][0]
                        ft = self.prog.field(q, fn)[1]
                        if x.get("kind") == "CXXDefaultInitExpr":
                            v = self.field_init(q, fn, st)
                        elif ft["qualType"].rstrip().endswith("&"):
                            v = self.to_ptr(self.lv(x, st))
                        else:
                            v = self.coerce(st, self.ev(x, st), ft.get("desugaredQualType", ft["qualType"]), x)
                    else:
                        v = self.field_init(q, fn, st)
                    sv = st.cells[this.cell]
                    st.cells[this.cell] = sv.with_(**{fn: v})
            outs = self.run(f.body, st.fork())
        finally:
            self.stack.pop()
        self.finish_call(outs, st)
        if FALSE in st.facts:
            return StructV(q, None)
        return st.cells[this.cell]

    def bind_param(self, fr, p, v, st):
        if isinstance(v, (Loc, CondLoc, TLoc)):
            fr.env[p["id"]] = v
        else:
            name = "p%d:%s" % (fr.n, p.get("name", ""))
            st.cells[name] = v
            fr.env[p["id"]] = Loc(name)

    # ------------------------------------------------------------ conversion on assignment
    def coerce(self, st, v, t, node):
        t = norm_type(t)
        if t.endswith("*") or v is None:
            return v
        t = t.rstrip("& ").strip()
        d = mat_dims(t)
        if d and isinstance(v, Mat):
            goals = []
            if (d[1] == 1 and d[0] != 1 and v.rows.iconst() == 1 and v.cols.iconst() != 1) or \
                    (d[0] == 1 and d[1] != 1 and v.cols.iconst() == 1 and v.rows.iconst() != 1):
                v = v.T        # Eigen transposes a vector assigned to one of the other orientation
            if d[0] >= 0 and v.rows is not P(d[0]):
                goals.append(eq(v.rows, d[0]))
            if d[1] >= 0 and v.cols is not P(d[1]):
                goals.append(eq(v.cols, d[1]))
            if goals:
                self.oblige(st, "fixed-size Eigen object receives matching dimensions", AND(*goals), where=self.where(node))
            return Mat(d[0] if d[0] >= 0 else v.rows, d[1] if d[1] >= 0 else v.cols, lambda i, j: v(i, j))
        k = self.types.scalar_kind(t)
        if k == "B" and isinstance(v, Poly):
            return bl(v)
        if k in ("I", "R") and isinstance(v, B):
            return P(v)
        if k in ("I", "R") and isinstance(v, Mat):
            self.oblige(st, "1x1 to scalar", AND(eq(v.rows, 1), eq(v.cols, 1)), where=self.where(node))
            return v(0, 0)
        if is_affine(t) and isinstance(v, Mat):
            return StructV("Affine3d", None, linear=v.block(0, 0, 3, 3), translation=v.block(0, 3, 3, 1))
        if is_affine(t) and isinstance(v, StructV) and v.tname in ("Translation", "AngleAxis", "Quaternion"):
            return self.to_affine(v)
        return v


def split_params(s):
    out, cur, d = [], "", 0
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out
