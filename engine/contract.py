"""Contracts on the real functions: registry, spec contexts, function-by-function verification, use at call sites."""
import time, traceback
from terms import *
import terms as T
from values import *
from exec import *
import prove as PV
from loops import Loops, LoopFail
from ctypes_ import norm_type, mat_dims, is_affine, ExtV
from front import short_type


class W:
    """read access to a location of a given state for specifications; pointers are followed"""

    def __init__(self, ex, st, loc, t=""):
        object.__setattr__(self, "_ex", ex)
        object.__setattr__(self, "_st", st)
        object.__setattr__(self, "loc", loc)
        object.__setattr__(self, "_t", t)

    @property
    def v(self):
        return self._ex.read(self._st, self.loc)

    @property
    def obj(self):
        """pointer value"""
        return self._ex.to_ptr(self.loc)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        ex, st = self._ex, self._st
        sv = ex.read(st, self.loc)
        ft, scope = "", ""
        if isinstance(sv, StructV) and sv.tname in ex.prog.records:
            x = ex.types.field_any(sv.tname, n)
            if x is None:
                raise Unsupported("contract refers to field %s absent from %s" % (n, sv.tname))
            ft, scope = x[1].get("desugaredQualType", x[1]["qualType"]), x[3]
            if x[1]["qualType"].rstrip().endswith("&") and not isinstance(sv.get(n), Atom):
                ft = ft.rstrip("& ")
        return wrap(ex, st, self.loc.at("f", n), ft, scope)

    def __call__(self, i):
        v = self.v
        if isinstance(v, SeqV):
            return wrap(self._ex, self._st, self.loc.at("i", P(i)), v.et or "")
        if isinstance(v, MapV):
            return wrap(self._ex, self._st, self.loc.at("k", i), v.vt or "")
        if isinstance(v, Mat):
            return v(i)
        raise Unsupported("contract indexes %s" % type(v).__name__)

    __getitem__ = __call__

    @property
    def len(self):
        v = self.v
        return v.len if isinstance(v, SeqV) else v.n

    def has(self, k):
        return self.v.has(k)


def wrap(ex, st, loc, t, scope=""):
    v = ex.read(st, loc)
    if isinstance(v, Atom) and v.sort == "Obj":
        q = norm_type(t).rstrip("&* ").strip()
        r = ex.types.record(q, scope) or q
        return W(ex, st, ex.heap_loc(v, r), r)
    if isinstance(v, PtrV):
        return W(ex, st, v.loc, t)
    if isinstance(v, (StructV, SeqV, MapV)):
        return W(ex, st, loc, t)
    return v


def raw(v):
    return v.v if isinstance(v, W) else v


class Ctx:
    """what a specification function sees"""

    def __init__(self, ex, st, f, this, vals, mode, result=None, post=None):
        self.ex, self.st, self.f, self.mode = ex, st, f, mode
        self.result, self.post = result, post
        self._this, self._vals = this, vals
        self.req, self.thr, self.writes, self.ens, self.notes = [], [], [], [], []
        self.partial = []
        self.ret = None
        self.has_ret = False
        self.facts = []
        self.news = []
        self.reps = []
        self.loops = {}
        self.invs = []
        self.cases = []
        self.memory = False

    def name_products(self):
        """keep products of transforms folded (uninterpreted identity of each entry)"""
        self.ex.name_products = True

    def orthonormal_inverse(self):
        """3x3 inverses are those of orthonormal matrices (one obligation per pair of columns)"""
        self.ex.orthonormal_inverse = True

    def split(self, *bs):
        """verify by cases: once with each condition, once with its negation; returns the case being verified"""
        bs = [bl(b) for b in bs]
        k = len(self.cases)
        self.cases += bs
        if self.mode == "call":
            out = []
            for b in bs:
                v = True if self.ex.valid(self.st, b) else False if self.ex.valid(self.st, NOT(b)) else None
                out.append(v)
            return out
        ch = self.ex.choice
        return [ch[k + i] if k + i < len(ch) else True for i in range(len(bs))]

    def pushed(self, w, field, q, k=0):
        """the k-th new object this function appends to a sequence"""
        if self.mode == "call":
            return self.new_extra(q)
        loc = w.loc.at("f", field)
        if self.post is None:
            o = T.new_obj("spec:%s%d" % (q.split("::")[-1], k))
        else:
            o = self.ex.read(self.post._st, loc)(self.ex.read(self.st, loc).len + k)
            if not (isinstance(o, Atom) and o.sort == "Obj"):
                raise Unsupported("no new object in %s" % field)
            self.news.append(o)
        return W(self.ex, self.st, self.ex.heap_loc(o, q), q)

    def alive(self, *ws):
        """the object has not been freed"""
        self.memory = True
        f = self.st.cells.get("ghost:freed")
        if f is None:
            return
        for w in ws:
            self.requires(NOT(f(w.obj)))

    def frees(self, w, when=TRUE):
        """the object's memory is released (when the condition holds)"""
        self.memory = True
        if "ghost:freed" not in self.st.cells:
            return
        cur = getattr(self, "_freed", None)
        base = cur if cur is not None else self.st.cells["ghost:freed"]
        o = w.obj
        self._freed = FamV(lambda x: OR(base(x), AND(eq(x, o), bl(when))), "bool")
        self.writes = [x for x in self.writes if x[0].cell != "ghost:freed"] + [(Loc("ghost:freed"), self._freed)]

    def tracks_memory(self):
        self.memory = True
        return "ghost:freed" in self.st.cells

    def freed(self, o):
        f = self.st.cells.get("ghost:freed")
        self.memory = True
        return f(o) if f is not None else FALSE

    def frees_all(self, cond):
        """exactly the objects with this property are released"""
        self.memory = True
        if "ghost:freed" not in self.st.cells:
            return
        base = self.st.cells["ghost:freed"]
        self.writes.append((Loc("ghost:freed"), FamV(lambda x: OR(base(x), bl(cond(x))), "bool")))

    def new_extra(self, q):
        o = self.ex.new_object(q, {"id": "c%d" % next(T._fresh)})
        return W(self.ex, self.st, self.ex.heap_loc(o, q), q)

    @property
    def this(self):
        return W(self.ex, self.st, self._this, self.f.cls or "")

    def arg(self, i):
        v = self._vals[i]
        if isinstance(v, (Loc, CondLoc)):
            return wrap(self.ex, self.st, v, self.f.params[i]["type"]["qualType"])
        if isinstance(v, Atom) and v.sort == "Obj":
            q = norm_type(self.f.params[i]["type"].get("desugaredQualType", self.f.params[i]["type"]["qualType"])).rstrip("&* ").strip()
            r = self.ex.types.record(q, self.f.ns or "") or q
            return W(self.ex, self.st, self.ex.heap_loc(v, r), r)
        if isinstance(v, (StructV, SeqV, MapV)):
            return W(self.ex, self.st, self.ex.temp(self.st, v))
        return v

    @property
    def args(self):
        return [self.arg(i) for i in range(len(self._vals))]

    def relative(self, i, j):
        """write the number passed as parameter i as parameter j plus a difference (no loss of generality: the difference is arbitrary)"""
        if self.mode == "pre":
            self._vals[i] = P(self._vals[j]) + T.var("arg%d-arg%d" % (i, j), "R")

    def requires(self, *bs):
        self.req += [bl(b) for b in bs]

    def assume(self, *bs):
        """type invariant taken for granted about the inputs (listed as an assumption)"""
        self.facts += [bl(b) for b in bs]

    def represents(self, w, field, v, when=TRUE):
        """representation invariant on entry: the field has this value (when the condition holds)"""
        self.reps.append((w.loc.at("f", field), raw(v), bl(when), field))

    def throws(self, b):
        self.thr.append(bl(b))

    def returns(self, v):
        self.ret = raw(v)
        self.has_ret = True

    def set(self, w, field, v):
        loc = w.loc.at("f", field) if field else w.loc
        self.writes.append((loc, raw(v)))

    def set_arg(self, i, v):
        """value of a reference parameter on exit"""
        self.writes.append((self._vals[i], raw(v)))

    def loop(self, var, fn):
        """stated closed form (loop invariant): value of a local variable (or this.field) after k iterations = fn(value before the loop, k)"""
        self.loops[var] = fn

    def invariant(self, names, fn, variant=None):
        """invariant of a loop over these local integer variables: fn(*values) -> B (established, preserved, and all that is known afterwards)"""
        self.invs.append((tuple(names.split()), fn, variant))

    def set_through(self, i, v):
        """value written through a pointer parameter (when it is not null)"""
        p = self._vals[i]
        if isinstance(p, PtrV):
            self.writes.append((p.loc, raw(v)))

    def ensures(self, name, fn):
        """fn(result, post) -> B"""
        self.ens.append((name, fn))

    def new(self, q, path=None, partial=False):
        """the new object this function returns (or the one the result points to through a field);
        partial: its fields that the contract does not state are left unspecified"""
        w = self.new_(q, path)
        if partial:
            self.partial.append(w.obj)
        return w

    def new_(self, q, path=None):
        if path is not None:
            if self.mode == "call":
                o = self.ex.new_object(q, {"id": "c%d" % next(T._fresh)})
            elif self.result is None:
                o = T.new_obj("spec:" + q.split("::")[-1] + path)
            else:
                o = raw(self.result)
                for f in path.split("."):
                    o = o.get(f)
                if isinstance(o, PtrV):
                    o = self.ex.to_ptr(o.loc)
                self.news.append(o)
            return W(self.ex, self.st, self.ex.heap_loc(o, q), q)
        if self.mode == "call":
            o = self.result if self.result is not None else self.ex.new_object(q, {"id": "c%d" % next(T._fresh)})
            self.result = o
            return W(self.ex, self.st, self.ex.heap_loc(o, q), q)
        if self.result is None:
            o = T.new_obj("spec:" + q.split("::")[-1])
        else:
            o = self.result
            if isinstance(o, PtrV):
                o = self.ex.to_ptr(o.loc)
            self.news.append(o)
        return W(self.ex, self.st, self.ex.heap_loc(o, q), q)


class Contract:
    def __init__(self, qual, ptypes, spec, prop, inline=False, trusted=False, name=None):
        self.qual, self.ptypes, self.spec, self.prop = qual, ptypes, spec, prop
        self.inline, self.trusted = inline, trusted
        self.name = name or qual

    def ident(self):
        return "%s(%s)" % (self.qual, ",".join(self.ptypes) if self.ptypes is not None else "*")


class Registry:
    def __init__(self):
        self.by = {}

    def add(self, qual, ptypes, spec, prop, **kw):
        c = Contract(qual, ptypes, spec, prop, **kw)
        self.by.setdefault(qual, []).append(c)
        return c

    def lookup(self, f):
        for c in self.by.get(f.qual, ()):
            if c.ptypes is None or list(c.ptypes) == list(f.ptypes):
                return c
        return None

    def all(self, prop=None):
        return [c for cs in self.by.values() for c in cs if prop is None or prop in c.prop]


REG = Registry()
SCALARS = ("int", "double", "bool", "long", "unsigned long", "size_t")
HEAP = set()           # classes handled through pointers (identity matters)
INVARIANTS = {}        # record -> fn(value) -> [B]: data type invariants


def contract(qual, ptypes=None, prop=(), **kw):
    if isinstance(prop, str):
        prop = (prop,)
    if isinstance(ptypes, str):
        ptypes = [x for x in ptypes.split(",") if x]

    def deco(fn):
        REG.add(qual, ptypes, fn, prop, **kw)
        return fn
    return deco


class Verifier(Loops):
    heap_classes = HEAP

    scalar_ptrs = ()

    # ------------------------------------------------------------ symbolic inputs
    def sym_inputs(self, f, st):
        this = None
        if f.cls and not f.static and f.kind != "CXXConstructorDecl":
            if f.cls in HEAP:
                this = self.heap_loc(T.app("this", (), "Obj"), f.cls)
                st.assume(NOT(eq(T.app("this", (), "Obj"), NULL)))
            else:
                st.cells["this"] = self.types.sym_record(f.cls, "this")
                this = Loc("this")
        vals = []
        for i, p in enumerate(f.params):
            qt = p["type"]["qualType"].rstrip()
            t = p["type"].get("desugaredQualType", qt)
            nm = "a%d" % i
            base = norm_type(qt).rstrip("&* ").strip()
            q = self.types.record(base, f.ns or "") or self.types.record(norm_type(t).rstrip("&* ").strip(), f.ns or "")
            if norm_type(qt).endswith("*"):
                if base in SCALARS and i in self.scalar_ptrs:
                    st.cells["arg:%d" % i] = self.types.sym(base, nm, (), "")
                    vals.append(PtrV(Loc("arg:%d" % i)))
                    continue
                o = NULL if base in SCALARS else T.app(nm, (), "Obj")
                vals.append(o)
                continue
            if qt.endswith("&") and q and q in HEAP and not qt.startswith("const "):
                o = T.app(nm, (), "Obj")
                st.assume(NOT(eq(o, NULL)))
                vals.append(self.heap_loc(o, q))
                continue
            v = self.types.sym_record(q, nm) if q else self.types.sym(t.rstrip("& "), nm, (), f.ns or "")
            if qt.endswith("&"):
                st.cells["arg:%d" % i] = v
                vals.append(Loc("arg:%d" % i))
            else:
                vals.append(v)
        return this, vals

    def type_facts(self, st, roots):
        """sizes are non-negative: attached to dimension names on creation (terms.NONNEG)"""

    # ------------------------------------------------------------ verification of one function
    def verify(self, f, c):
        # pointers to numbers: null, and pointing to some number
        ptrs = [i for i, p in enumerate(f.params) if norm_type(p["type"]["qualType"]).endswith("*")
                and norm_type(p["type"]["qualType"]).rstrip("&* ").strip() in SCALARS]
        got = []
        for m in range(2 ** len(ptrs)):
            self.scalar_ptrs = [p for k, p in enumerate(ptrs) if m >> k & 1]
            self.verify_(f, c)
            got += self.obligs
        self.obligs = got

    def verify_(self, f, c):
        self.obligs = []
        self.ncases = None
        self.verify_case(f, c, ())
        if not self.ncases:
            return
        # case split asked for by the contract: every combination of the conditions and their negations
        self.obligs = []
        for m in range(2 ** self.ncases):
            self.verify_case(f, c, [bool(m >> k & 1) for k in range(self.ncases)])

    def verify_case(self, f, c, choice):
        self.fname = f.qual
        self.choice = choice
        self.throws = []
        st = State()
        st.cells["ghost:freed"] = FamV(lambda o: T.bapp("freed", (o,)), "bool")
        self.stack = []
        fr0 = Frame(f, 0)
        self.stack.append(fr0)
        this, vals = self.sym_inputs(f, st)
        ctor = f.kind == "CXXConstructorDecl"
        pre0 = st.fork()
        ctx = Ctx(self, pre0, f, this, vals, "pre")
        self.quiet += 1
        c.spec(ctx)
        self.quiet -= 1
        self.loop_ann = dict(ctx.loops)
        self.loop_invs = list(ctx.invs)
        if not ctx.memory:
            # deletions are tracked where the contract states them
            del st.cells["ghost:freed"]
        for loc, v, when, _ in ctx.reps:
            old = self.read(st, loc)
            Loops.write(self, st, loc, merge(when, v, old))
        if self.ncases is None:
            self.ncases = len(ctx.cases)
            if self.ncases:
                return
        for b in ctx.facts + ctx.req:
            st.assume(b)
        for v, b in zip(choice, ctx.cases):
            st.assume(b if v else NOT(b))
        if choice and (FALSE in st.facts or PV.prove(list(st.facts), FALSE, 5).status == "proved"):
            return      # this combination is impossible
        if FALSE in st.facts:
            raise Unsupported("contract precondition is unsatisfiable")
        pre = st.fork()
        pre.cells = dict(st.cells)
        run_this = this
        self.depth = 0
        if ctor:
            val = None
            vals2 = list(vals)
            s = st
            val = self.run_ctor(f.cls, f, vals2, s)
            outs = [] if FALSE in s.facts else [Out("return", s, val)]
        else:
            self.nframe += 1
            fr = Frame(f, self.nframe)
            fr.this = this
            for p, v in zip(f.params, vals):
                self.bind_param(fr, p, v, st)
            self.stack.append(fr)
            try:
                outs = self.run(f.body, st.fork())
            finally:
                self.stack.pop()
            outs = [o for o in outs if FALSE not in o.st.facts]
        # exceptions: exactly when the contract says so
        def specced(result=None, post=None):
            # the contract talks about the pre-state
            p = State(pre.cells, pre.facts, ())
            cx = Ctx(self, p, f, this, vals, "check", result, post)
            self.quiet += 1
            try:
                c.spec(cx)
            finally:
                self.quiet -= 1
            return cx
        cx0 = specced()
        thr = OR(*cx0.thr)
        for t in self.throws:
            self.oblige_soft(t.st, "throws only as specified (line %s)" % t.where, thr, "throw", t.where)
        for o in outs:
            s = o.st
            if thr is not FALSE:
                self.oblige_soft(s, "returns only when no exception is specified", NOT(thr), "throw", "")
            val = o.val
            if val is None and (f.rtype != "void" and not ctor):
                raise Unsupported("path without a return value")
            if isinstance(val, (Loc, CondLoc)):
                val = self.to_ptr(val) if (isinstance(val, Loc) and val.cell.startswith("heap:") and len(val.path) == 1) else val
            cx = specced(val, W(self, s, this, f.cls or "") if this is not None else None)
            if cx.has_ret:
                rv = cx.ret
                av = val
                if isinstance(av, (Loc, CondLoc)) and not isinstance(rv, (Loc, CondLoc)):
                    av = self.read(s, av)
                self.oblige_equal(s, av, rv, "result", "post")
            for n, fn in cx.ens:
                self.oblige_soft(s, n, fn(val, Post(self, s, this, vals, f)), "post", "")
            self.check_frame(f, pre, s, cx, vals, this)
        if not outs and thr is not TRUE:
            # always throws: the specification must say so
            self.oblige_soft(pre, "some normal return", thr, "throw", "")
        self.stack.pop()
        return self.obligs

    def expected(self, pre, cx):
        e = State(pre.cells, pre.facts, pre.br)
        for loc, v in cx.writes:
            self.write(e, loc, v)
        return e

    def check_frame(self, f, pre, s, cx, vals, this):
        wsave, self.writes = self.writes, None
        e = self.expected(pre, cx)
        self.writes = wsave
        new = [a for a in self.new_objs]
        for cell in sorted(set(s.cells) | set(e.cells)):
            if not (cell == "this" or cell.startswith(("arg:", "heap:", "ghost:"))):
                continue
            a, b = s.cells.get(cell), e.cells.get(cell)
            if a is None or b is None:
                if not cell.startswith("heap:"):
                    continue
                ini = self.initial_cell(cell)
                a = a if a is not None else ini
                b = b if b is not None else ini
                if a is b:
                    continue
            if a is b:
                continue
            label = "state of " + cell.replace("heap:", "").split("::")[-1]
            if isinstance(a, FamV):
                o = T.fresh("sk_o", "Obj")
                s2 = s.fork()
                for w in new:
                    if w not in cx.news or w in cx.partial:
                        s2.assume(NOT(eq(o, w)))
                if cell.startswith("ghost:"):
                    self.oblige_equal(s2, a(o), b(o), label.replace("state of ", "") + "(o)", "frame")
                    continue
                self.cur_frame = (o, f)
                self.oblige_struct(s2, a(o), b(o), label, cell[5:], o)
                # returned / specified new objects are compared explicitly
                for w in cx.news:
                    if isinstance(w, Atom):
                        stated = {loc.path[1][1] for loc, _ in cx.writes if len(loc.path) > 1 and loc.path[0] == ("k", w) and loc.path[1][0] == "f"} if w in cx.partial else None
                        self.oblige_struct(s, a(w), b(w), label + " (new object)", cell[5:], w, stated)
            else:
                self.oblige_equal(s, a, b, label, "frame")

    def oblige_struct(self, st, a, b, label, q, o, stated=None):
        if a is b:
            return
        fields = set()
        for r in self.prog.records:
            if r == q or self.prog.derives(r, q):
                fields |= {x for x, _ in self.prog.all_fields(r)}
        touched = self.touched.get("heap:" + q)
        for fl in sorted(fields):
            if (touched is not None and fl not in touched) if stated is None else fl not in stated:
                continue
            try:
                x, y = a.get(fl), b.get(fl)
            except Unsupported:
                raise
            self.oblige_equal(st, x, y, "%s.%s" % (label, fl), "frame")

    # ------------------------------------------------------------ bookkeeping
    def __init__(self, prog, contracts=None, env=None):
        Loops.__init__(self, prog, contracts, env)
        self.new_objs = []
        self.new_fams = []
        self.touched = {}
        self.choice = ()

    def new_object(self, q, n):
        o = Loops.new_object(self, q, n)
        self.new_objs.append(o)
        return o

    def write(self, st, loc, val):
        if isinstance(loc, Loc) and loc.cell.startswith("heap:"):
            t = self.touched.setdefault(loc.cell, set())
            if t is not None:
                fl = next((a[1] for a in loc.path if a[0] == "f"), None)
                if fl is None:
                    # whole object: a new one is compared explicitly; otherwise every field counts
                    k = loc.path[0][1] if loc.path else None
                    if not (isinstance(k, Atom) and k in self.new_objs):
                        self.touched[loc.cell] = None
                    else:
                        pass
                else:
                    t.add(fl)
        return Loops.write(self, st, loc, val)

    # ------------------------------------------------------------ use at call sites
    def apply_contract(self, c, f, this, vals, st, node, ctor):
        self.used_contracts.add(c.ident())
        cx = Ctx(self, st.fork(), f, this, vals, "call")
        c.spec(cx)
        for b in cx.req:
            self.oblige(st, "precondition of %s" % f.name, b, "pre", self.where(node))
        for loc, v, when, fl in cx.reps:
            s2 = st.fork()
            s2.assume(when)
            self.oblige_equal(s2, self.read(s2, loc), v, "invariant of %s for %s" % (fl, f.name), "pre")
        for b in cx.facts:
            st.assume(b)
        thr = OR(*cx.thr)
        if thr is not FALSE and not self.valid(st, NOT(thr)):
            t = st.fork()
            t.br = t.br + (thr,)
            self.throws.append(Throw(t, "from " + f.qual, self.where(node)))
            st.assume(NOT(thr))
        # the specification was evaluated on the pre-state: temporaries it created are kept
        for k, v in cx.st.cells.items():
            st.cells.setdefault(k, v)
        for loc, v in cx.writes:
            if loc.cell == "ghost:freed" and "ghost:freed" not in st.cells:
                continue
            self.write(st, loc, v)
        r = cx.ret
        if not cx.has_ret and cx.result is not None:
            r = cx.result
        if isinstance(r, Atom) and r.sort == "Obj":
            st.assume(NOT(eq(r, NULL))) if r in self.new_objs else None
            if f.rtype.rstrip().endswith("&"):
                q = self.types.record(norm_type(f.rtype).rstrip("& "), f.ns or "")
                return self.heap_loc(r, q)
        if r is None and cx.ens and f.rtype != "void":
            nm = "res%d" % next(T._fresh)
            r = self.types.sym(f.rtype, nm, tuple(self.iter_vars), f.ns or "")
        for n, fn in cx.ens:
            st.assume(fn(r, Post(self, st, this, vals, f)))
        if r is None and f.rtype != "void" and not ctor:
            raise Unsupported("contract of %s gives no result" % f.qual)
        return r


class Post:
    """post-state access for ensures clauses"""

    def __init__(self, ex, st, this, vals, f):
        self.ex, self.st, self._this, self._vals, self.f = ex, st, this, vals, f

    @property
    def this(self):
        return W(self.ex, self.st, self._this, self.f.cls or "")

    def arg(self, i):
        """a reference parameter on exit"""
        v = self._vals[i]
        return wrap(self.ex, self.st, v, self.f.params[i]["type"]["qualType"]) if isinstance(v, (Loc, CondLoc)) else v


def prove_all(ex, seconds=20.0, total=400.0):
    """discharge the collected obligations"""
    out = []
    t0 = time.time()
    for o in ex.obligs:
        left = total - (time.time() - t0)
        if o.goal is TRUE:
            o.result = PV.Result("proved", "simplifier")
            continue
        o.result = PV.prove(o.facts, o.goal, max(0.5, min(seconds, left)))
    return ex.obligs
