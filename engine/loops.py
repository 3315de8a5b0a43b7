"""Loops: concrete unrolling, or inferred closed-form invariants that are then verified (base and step obligations)."""
from terms import *
import terms as T
from values import *
from exec import *
import prove as PV
from calls import Calls, unwrap

UNROLL = 64
RECS = {}       # rec function name -> (m, sk, params, init, step)
OWNS = {}       # owner function name -> (m, var i, params, off, size)


def raw_value(v):
    return v.v if type(v).__name__ == "W" else v


def subst_fn(t, table, memo):
    """replace applications f(args) for f in table by table[f](args)"""
    if isinstance(t, tuple):
        return tuple(subst_fn(x, table, memo) for x in t)
    if not isinstance(t, (Poly, Atom, B)):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    rec = lambda x: subst_fn(x, table, memo)
    if isinstance(t, Poly):
        r = T.map_atoms(t, lambda a: (lambda y: None if y is a else y)(rec(a)))
    elif isinstance(t, Atom):
        if t.kind == "app" and t.data[0] in table:
            r = table[t.data[0]](tuple(rec(x) for x in t.data[1:]))
        else:
            r = T.rebuild_atom(t, rec)
    else:
        if t.kind == "bapp" and t.data[0] in table:
            r = table[t.data[0]](tuple(rec(x) for x in t.data[1:]))
        else:
            r = T.rebuild_b(t, rec)
    memo[t] = r
    return r


_names = {}


def fnames(t):
    """names of functions applied in t"""
    r = _names.get(t)
    if r is not None:
        return r
    if isinstance(t, tuple):
        r = frozenset().union(*[fnames(x) for x in t]) if t else frozenset()
        return r
    if isinstance(t, Poly):
        r = frozenset().union(*[fnames(a) for a in t.atoms()]) if t.t else frozenset()
    elif isinstance(t, Atom):
        if t.kind in ("var", "lit", "new"):
            r = frozenset()
        elif t.kind == "app":
            r = frozenset([t.data[0]]) | fnames(t.data[1:])
        else:
            r = fnames(t.data)
    elif isinstance(t, B):
        if t.kind == "bapp":
            r = frozenset([t.data[0]]) | fnames(t.data[1:])
        elif t.kind == "bvar":
            r = frozenset()
        else:
            r = fnames(tuple(x for x in t.data if isinstance(x, (Poly, Atom, B, tuple))))
    else:
        return frozenset()
    _names[t] = r
    return r


def uses(t, name):
    return name in fnames(t)


def rec_axioms(a):
    out = []
    if a.kind == "app" and a.data[0] in RECS and not PV.is_bound(a):
        m, sk, params, init, step = RECS[a.data[0]]
        args = a.data[1:]
        idx = args[0]
        mp = {}
        for v, x in zip(sk + params, args[1:]):
            mp[v] = x
        i0 = subst(init, mp)
        me = P(a) if a.sort in ("I", "R") else a
        out.append(IMP(eq(idx, ZERO), eq(me, i0)))
        mp2 = dict(mp)
        mp2[m] = idx - 1
        out.append(IMP(ge(idx, ONE), eq(me, subst(step, mp2))))
    return out


PV.EXTRA_AXIOMS.append(rec_axioms)


def own_axioms(atoms):
    out = []
    owns = [a for a in atoms if a.kind == "app" and a.data[0] in OWNS and not PV.is_bound(a)]
    if not owns:
        return out
    cands = [P(a) for a in atoms if a.kind == "var" and a.sort == "I" and not a.data.startswith("$")
             and (a.data.startswith(("it!", "sk", "m!")))]
    for a in owns:
        m, iv, params, off, size = OWNS[a.data[0]]
        args = a.data[1:]
        mp = {iv: args[0]}
        for v, x in zip(params, args[1:]):
            mp[v] = x
        for k in cands:
            m2 = dict(mp)
            m2[m] = k
            o, s = subst(off, m2), subst(size, m2)
            i = args[0]
            # the smallest iteration that writes the entry, when there is one
            m3 = dict(mp)
            m3[m] = P(a)
            o2, s2 = subst(off, m3), subst(size, m3)
            out.append(IMP(AND(ge(k, ZERO), le(o, i), lt(i, o + s)), AND(ge(P(a), ZERO), le(P(a), k), le(o2, i), lt(i, o2 + s2))))
    return out


PV.SET_AXIOMS.append(own_axioms)


class Leaf:
    __slots__ = ("pat", "name", "init", "closed", "kind", "note")


class Inserts(Exception):
    pass


def same_place(a, b):
    return isinstance(a, Loc) and isinstance(b, Loc) and a.cell == b.cell and [x[1] if x[0] == "f" else x[0] for x in a.path] == [x[1] if x[0] == "f" else x[0] for x in b.path]


def n_nested(ex):
    return len(ex.stack) > 2 or ex.iter_vars


class LoopFail(Unsupported):
    pass


class Loops(Calls):
    iter_vars = ()

    # ------------------------------------------------------------ drivers
    def loop(self, node, st, cond, body, inc):
        def cond_fn(s):
            return self.evb(cond, s) if cond is not None else TRUE

        def step(s, m=None):
            outs = self.run(body, s)
            nxt = [o for o in outs if o.kind in ("next", "continue")]
            rest = [o for o in outs if o.kind in ("break", "return")]
            if nxt:
                cur = self.merge_states([o.st for o in nxt])
                if inc is not None:
                    self.ev(inc, cur)
                rest.append(Out("next", cur))
            return rest
        return self.do_loop(node, st, cond_fn, step, None)

    def range_loop(self, node, st):
        inner = node["inner"]
        rng, var, body = inner[1], inner[6], inner[7]
        d = rng["inner"][0]
        init = [x for x in d.get("inner", ()) if "kind" in x][0]
        loc = self.lv(init, st)
        seq = self.read(st, loc)
        vd = var["inner"][0]
        byref = vd["type"]["qualType"].rstrip().endswith("&")

        if isinstance(seq, Atom) and seq.sort == "Str":
            h = self.hooks.get("string_chars")
            if h:
                seq = h(self, st, seq)
            else:
                sq = seq
                if sq.kind == "lit":
                    seq = SeqV(P(len(sq.data)), lambda i: T.app("str.at", (sq, P(i)), "I"), "char")
                else:
                    seq = SeqV(T.app("str.len", (sq,), "I"), lambda i: T.app("str.at", (sq, P(i)), "I"), "char")
            loc = self.temp(st, seq)
        if isinstance(seq, SeqV):
            n = seq.len

            def bind(s, m):
                if byref:
                    self.frame.env[vd["id"]] = self.sub(loc, ("i", m))
                else:
                    v = self.read(s, loc)(m)
                    v = self.coerce(s, v, self.ntype(vd), vd)
                    nm = "v%d:%s:%s" % (self.frame.n, vd["id"], vd.get("name", ""))
                    s.cells[nm] = v
                    self.frame.env[vd["id"]] = Loc(nm)
        elif isinstance(seq, MapV):
            if seq.enum is None:
                raise Unsupported("iteration over an updated map or set")
            n, key_at, idx = seq.enum

            def bind(s, m):
                k = key_at(m)
                # facts of the enumeration
                s.assume(seq.has(k))
                if isinstance(k, (Poly, Atom)):
                    s.assume(eq(idx(k), m))
                nm = "v%d:%s:%s" % (self.frame.n, vd["id"], vd.get("name", ""))
                if seq.get is None:
                    s.cells[nm] = k
                else:
                    cur = self.read(s, loc)
                    s.cells[nm] = StructV("pair", None, first=k, second=cur.get(k))
                self.frame.env[vd["id"]] = Loc(nm)
                if byref and seq.get is not None:
                    # writes through the reference are written back after the body
                    return (loc, k, nm)
        elif isinstance(seq, ExtV):
            n = T.app(seq.path + ".len", seq.idx, "I")
            et = self.ntype(vd)

            def bind(s, m):
                nm = "v%d:%s:%s" % (self.frame.n, vd["id"], vd.get("name", ""))
                s.cells[nm] = self.types.sym(et.rstrip("& "), seq.path + "[]", seq.idx + (m,))
                self.frame.env[vd["id"]] = Loc(nm)
        else:
            raise Unsupported("range over %s" % type(seq).__name__)

        def step(s, m):
            wb = bind(s, m)
            before = s.cells.get(wb[2]) if wb else None
            outs = self.run(body, s)
            if wb:
                for o in outs:
                    cur = o.st.cells.get(wb[2])
                    if cur is not before and o.kind in ("next", "continue"):
                        self.write(o.st, self.sub(wb[0], ("k", wb[1])), cur.second)
            nxt = [o for o in outs if o.kind in ("next", "continue")]
            rest = [o for o in outs if o.kind in ("break", "return")]
            if nxt:
                rest.append(Out("next", self.merge_states([o.st for o in nxt])))
            return rest
        return self.do_loop(node, st, None, step, n)

    loop_invs = ()

    def inv_loop(self, st, cond_fn, step):
        """loop with an invariant stated by the contract (Hoare rule); None when the variables it names are not those of this loop"""
        if n_nested(self) or cond_fn is None:
            return None
        for names, fn, variant in self.loop_invs:
            cells = []
            for x in names:
                m = [k for k in st.cells if k.startswith("v") and k.split(":")[-1] == x]
                if len(m) == 1:
                    cells.append(m[0])
            if len(cells) == len(names):
                break
        else:
            return None
        uid = next(T._fresh)
        get = lambda s: [s.cells[c] for c in cells]

        def havoc(tag):
            s = st.fork()
            for c in cells:
                s.cells[c] = T.app("%s:%s%d" % (tag, c, uid), (), "I")
            s.assume(fn(*get(s)))
            return s
        self.oblige(st, "loop invariant on entry", fn(*get(st)), "loop", "")
        h = havoc("inv")
        v0 = variant(*get(h)) if variant else None
        q = cond_fn(h)
        h.br = h.br + (q,)
        before = dict(h.cells)
        outs = step(h.fork(), None)
        res = []
        for o in outs:
            if FALSE in o.st.facts:
                continue
            if o.kind != "next":
                res.append(o)
                continue
            for k, v in o.st.cells.items():
                if k in before and before[k] is not v and k not in cells and not k.startswith("tmp"):
                    raise LoopFail("the loop writes %s, which the stated invariant does not cover" % k)
            self.oblige(o.st, "loop invariant preserved", fn(*get(o.st)), "loop", "")
            if variant:
                self.oblige(o.st, "loop variant decreases", AND(ge(v0, ZERO), lt(variant(*get(o.st)), v0)), "loop", "")
        done = havoc("end")
        q = cond_fn(done)
        done.br = done.br + (NOT(q),)
        brk = [o.st for o in res if o.kind == "break"]
        res = [o for o in res if o.kind != "break"]
        res.append(Out("next", self.merge_states(brk + [done]) if brk else done))
        return res

    def do_loop(self, node, st, cond_fn, step, n):
        if self.loop_invs:
            r = self.inv_loop(st, cond_fn, step)
            if r is not None:
                return r
        snap = (len(self.obligs), len(self.throws), self.loop_no)
        r = self.try_unroll(st.fork(), cond_fn, step, n)
        if r is not None:
            return r
        del self.obligs[snap[0]:]
        del self.throws[snap[1]:]
        self.loop_no = snap[2]
        return self.sym_loop(node, st, cond_fn, step, n)

    def try_unroll(self, st, cond_fn, step, n):
        if n is not None:
            c = n.iconst()
            if c is None:
                for k in range(0, 9):
                    if self.valid(st, eq(n, k)):
                        c = k
                        break
            if c is None or c > UNROLL:
                return None
        outs = []
        cur = st
        for k in range(UNROLL + 1):
            if cond_fn is not None:
                q = cond_fn(cur)
                if q is FALSE or (q is not TRUE and self.valid(cur, NOT(q))):
                    break
                if not (q is TRUE or (k < 6 and self.valid(cur, q))):
                    return None
            elif k >= c:
                break
            if k == UNROLL:
                return None
            res = step(cur, P(k))
            outs += [o for o in res if o.kind != "next"]
            nx = [o for o in res if o.kind == "next"]
            if not nx:
                cur = None
                break
            cur = nx[0].st
        breaks = [o.st for o in outs if o.kind == "break"]
        rets = [o for o in outs if o.kind == "return"]
        fin = breaks + ([cur] if cur is not None else [])
        if fin:
            rets.append(Out("next", self.merge_states(fin)))
        return rets

    # ------------------------------------------------------------ symbolic loops
    def pattern(self, st, loc):
        """loop-stable prefix of a written location"""
        if loc.cell not in st.cells and not loc.cell.startswith("heap:"):
            return None
        pat = []
        v = st.cells.get(loc.cell)
        if v is None:
            v = self.initial_cell(loc.cell)
        for a in loc.path:
            if a[0] == "f":
                pat.append(("f",) + tuple(a[1:]))
            elif a[0] == "k":
                pat.append(("k*",))
            elif a[0] == "i":
                pat.append(("i*",))
            else:
                break
        return (loc.cell,) + tuple(pat)

    def get_pat(self, v, pat, keys):
        """value at pattern with the star keys given"""
        keys = list(keys)
        for a in pat:
            if a[0] == "f":
                if isinstance(v, ExtV):
                    v = self.access(None, v, a)
                else:
                    v = v.get(a[1])
            elif a[0] == "k*":
                k = keys.pop(0)
                v = v(k) if isinstance(v, FamV) else v.get(k)
            else:
                v = v(keys.pop(0))
        return v

    def set_pat(self, v, pat, keys, f):
        """rebuild v with the value at pattern replaced by f(keys, old)"""
        if not pat:
            return f(tuple(keys), v)
        a, rest = pat[0], pat[1:]
        if a[0] == "f":
            old = self.access(None, v, a) if isinstance(v, ExtV) else v.get(a[1])
            return v.with_(**{a[1]: self.set_pat(old, rest, keys, f)})
        if a[0] == "k*":
            if isinstance(v, FamV):
                return FamV(lambda o: self.set_pat(v(o), rest, tuple(keys) + (o,), f), v.vt)
            g = v.get
            return MapV(v._has, FamV(lambda o: self.set_pat(g(o), rest, tuple(keys) + (o,), f), v.vt), v.enum, v.kt, v.vt, v.n)
        return SeqV(v.len, lambda i: self.set_pat(v(i), rest, tuple(keys) + (i,), f), v.et)

    def key_skolem(self, v, pat):
        """fresh key variables for the stars of a pattern"""
        keys = []
        for a in pat:
            if a[0] == "f":
                v = self.access(None, v, a) if isinstance(v, ExtV) else v.get(a[1])
            elif a[0] == "k*":
                if isinstance(v, FamV):
                    s = "Obj"
                else:
                    kk = norm_type(v.kt or "")
                    s = "Obj" if kk.endswith("*") else "Str" if self.types.is_string(kk) else "I"
                k = T.fresh("sk", s)
                keys.append(k)
                v = v(k) if isinstance(v, FamV) else v.get(k)
            else:
                k = T.fresh("sk", "I")
                keys.append(k)
                v = v(k)
        return keys

    def sym_like(self, v, name, idx, cfg):
        """symbolic value of the shape of v named name(idx)"""
        if isinstance(v, Poly):
            s = cfg["sort"].get(name, "I" if v.is_int() else "R")
            return T.app(name, idx, s)
        if isinstance(v, B):
            return bapp(name, idx)
        if isinstance(v, Atom):
            return T.app(name, idx, v.sort)
        if isinstance(v, Mat):
            dyn = name in cfg["dims"]
            r = T.app(name + ".rows", idx, "I") if dyn else v.rows
            c = T.app(name + ".cols", idx, "I") if dyn else v.cols
            return Mat(r, c, lambda i, j: T.app(name, idx + (i, j)), v.tag)
        if isinstance(v, SeqV):
            n = T.app(name + ".len", idx, "I")
            if v.et is None:
                raise LoopFail("sequence of unknown element type written in a loop")
            return SeqV(n, lambda k: self.types.sym(v.et, name + "[]", idx + (k,), self.frame.fn.ns or ""), v.et)
        if isinstance(v, MapV):
            get = None
            if v.get is not None:
                get = FamV(lambda k: self.types.sym(v.vt, name + "@", idx + (k,), self.frame.fn.ns or ""), v.vt)
            return MapV(lambda k: bapp(name + ".has", idx + (k,)), get, None, v.kt, v.vt, None)
        if isinstance(v, StructV):
            if isinstance(v, ExtV):
                raise LoopFail("external object written in a loop")
            return StructV(v.tname, lambda f: self.sym_like(v.get(f), name + "." + f, idx, cfg))
        if isinstance(v, BagV):
            return BagV((Entry(("hv", name), TRUE, ()),))
        if isinstance(v, (PtrV, OpaqueV, FnV, BottomV)):
            return OpaqueV("loop")
        raise LoopFail("havoc of %s" % type(v).__name__)

    def struct_fields(self, v):
        if v.tname == "Affine3d":
            return ["linear", "translation"]
        if v.tname == "pair":
            return ["first", "second"]
        if v.tname in self.prog.records:
            return [f for f, _ in self.prog.all_fields(v.tname)]
        return sorted(v.known())

    inserted = []
    deferred = None     # while scanning an iteration: insertions by operator[] that may not happen

    def sym_loop(self, node, st, cond_fn, step, n):
        """maps indexed in the body: first suppose that their keys are present (checked by the verification run), then that they are inserted"""
        no, nob, nth = self.loop_no, len(self.obligs), len(self.throws)
        try:
            return self.sym_loop_(node, st.fork(), cond_fn, step, n, [])
        except Inserts:
            self.loop_no = no
            del self.obligs[nob:]
            del self.throws[nth:]
            return self.sym_loop_(node, st, cond_fn, step, n, None)

    def sym_loop_(self, node, st, cond_fn, step, n, deferred):
        self.loop_no += 1
        lid = "%s.%d" % (self.fname.split("::")[-1], self.loop_no)
        uid = next(T._fresh)
        m = T.fresh("m", "I", nonneg=True)
        ma = m.atom()
        cfg = {"sort": {}, "dims": set()}
        pats = {}
        init_cells = dict(st.cells)

        def hname(p):
            return "hv:%d:%s" % (uid, "/".join(str(x) if isinstance(x, str) else (x[1] if x[0] == "f" else x[0]) for x in p))

        def init_of(cell):
            v = init_cells.get(cell)
            if v is None:
                v = self.initial_cell(cell)
                init_cells[cell] = v
            return v

        def state_with(fill):
            s = st.fork()
            for cell in {p[0] for p in pats}:
                s.cells[cell] = init_of(cell)
            for p in sorted(pats, key=lambda p: (len(p), str(p))):
                s.cells[p[0]] = self.set_pat(s.cells[p[0]], p[1:], (), lambda keys, old, p=p: fill(p, keys, old))
            return s

        # ---- discover written locations, run one symbolic iteration
        saved_writes = self.writes
        saved_iter = self.iter_vars
        self.quiet += 1
        dsave, self.deferred = self.deferred, deferred
        try:
            for rnd in range(12):
                h = state_with(lambda p, keys, old: self.sym_like(old, hname(p), (m,) + keys, cfg))
                h.assume(ge(m, ZERO))
                if n is not None:
                    h.assume(lt(m, n))
                self.writes = []
                nth = len(self.throws)
                self.iter_vars = saved_iter + (m,)
                c0 = None
                if cond_fn is not None:
                    c0 = cond_fn(h)
                    h.br = h.br + (c0,)
                hb = len(h.br)
                outs = step(h.fork(), m)
                thr = self.throws[nth:]
                del self.throws[nth:]
                log = self.writes
                self.writes = None
                new = set()
                for w in log:
                    if isinstance(w, tuple):
                        continue
                    p = self.pattern(st, w)
                    if p is not None:
                        new.add(p)
                allp = set(pats) | new
                # drop patterns extending another one
                allp = {p for p in allp if not any(q != p and p[:len(q)] == q for q in allp)}
                changed = allp != set(pats)
                pats = {p: True for p in allp}
                if changed:
                    continue
                post = [o.st for o in outs if o.kind == "next"]
                if not post:
                    break
                post = post[0]
                if self.refine_shapes(pats, hname, cfg, init_of, h, post, m):
                    continue
                break
            else:
                raise LoopFail("loop shape does not stabilise")
        finally:
            self.quiet -= 1
            self.iter_vars = saved_iter
            self.writes = saved_writes
            self.deferred = dsave
        if saved_writes is not None:
            for p in pats:
                # report to the enclosing loop
                saved_writes.append(self.pat_loc(p))
        if not [o for o in outs if o.kind == "next"]:
            raise LoopFail("loop body never continues")

        # ---- closed forms
        closed = self.solve_forms(pats, hname, cfg, init_of, h, post, m, uid, lid)

        def form_state(at):
            """state after `at` iterations"""
            memo = {}
            return state_with(lambda p, keys, old: closed[p](at, keys, old))

        # ---- trip count
        qs = form_state(m)
        if n is not None:
            N = T.max0(n)
            facts_N = []
        else:
            self.quiet += 1
            try:
                cq = cond_fn(qs)
            finally:
                self.quiet -= 1
            N, facts_N = self.trip_count(st, cq, ma, lid)
        # ---- verification run: one iteration from the closed form
        it = T.fresh("it", "I", nonneg=True)
        ia = it.atom()
        v = form_state(it)
        nf = len(st.facts)
        v.assume(ge(it, ZERO))
        v.assume(lt(it, N))
        for f in facts_N:
            v.assume(f)
        nb = len(v.br)
        nth = len(self.throws)
        self.iter_vars = saved_iter + (it,)
        self.quiet += 1 if saved_writes is not None else 0
        wsave, self.writes = self.writes, None
        dsave, self.deferred = self.deferred, None
        isave, self.inserted = self.inserted, []
        try:
            if cond_fn is not None:
                cc = cond_fn(v)
                if facts_N is not None and cc is not TRUE:
                    v.assume(cc)
            # earlier iterations neither threw nor left the loop
            base_facts = len(v.facts)
            outs2 = step(v, it)
            if deferred and any(same_place(w, d) for w in self.inserted for d in deferred):
                raise Inserts()
        finally:
            self.iter_vars = saved_iter
            self.inserted = isave + self.inserted
            self.deferred = dsave
            self.quiet -= 1 if saved_writes is not None else 0
            self.writes = wsave
        nxt = [o for o in outs2 if o.kind == "next"]
        thr2 = self.throws[nth:]
        exits = [o for o in outs2 if o.kind != "next"]
        bound = T.bound_var()

        def at_k(conds, k):
            return subst(AND(*conds), {ia: P(k)})
        exit_conds = [list(o.st.br[nb:]) for o in exits]
        thr_conds = [list(t.st.br[nb:]) for t in thr2]
        # conditions of exits/throws must be expressible as functions of the iteration
        leave = OR(*[AND(*c) for c in exit_conds + thr_conds]) if (exit_conds or thr_conds) else FALSE
        first = TRUE
        if leave is not FALSE:
            kq = T.fresh("$q", "I").atom()
            lk = subst(leave, {ia: P(kq)})
            first = forall((kq,), IMP(AND(ge(P(kq), ZERO), lt(P(kq), it)), NOT(lk)))
        for t in thr2:
            t.st.assume(first)
        if nxt:
            ps = nxt[0].st
            want = form_state(it + 1)
            q = 1 if saved_writes is not None else 0
            self.quiet += q
            try:
                for p in pats:
                    self.oblige_forms(ps, want, p, lid, init_of)
            finally:
                self.quiet -= q
        # base case
        b0 = form_state(ZERO)
        self.quiet += 1 if saved_writes is not None else 0
        try:
            for p in pats:
                self.oblige_forms(st, b0, p, lid + " base", init_of, base=True)
        finally:
            self.quiet -= 1 if saved_writes is not None else 0
        # ---- after the loop
        res = []
        done = form_state(N)
        for f in facts_N:
            pass
        if cond_fn is not None:
            # the condition is evaluated once more on the way out (it may throw)
            partial = self.partial_exit
            self.quiet += 1
            try:
                cend = cond_fn(done)
            finally:
                self.quiet -= 1
            if partial:
                done.assume(NOT(cend))
        done.assume(ge(N, ZERO))
        nothrow = TRUE
        if thr_conds:
            kq = T.fresh("$q", "I").atom()
            lk = subst(OR(*[AND(*c) for c in thr_conds]), {ia: P(kq)})
            nothrow = forall((kq,), IMP(AND(ge(P(kq), ZERO), lt(P(kq), N)), NOT(lk)))
        if exits:
            kq = T.fresh("$q", "I").atom()
            lk = subst(OR(*[AND(*c) for c in exit_conds]), {ia: P(kq)})
            none = forall((kq,), IMP(AND(ge(P(kq), ZERO), lt(P(kq), N)), NOT(lk)))
            done.br = done.br + (none,)
            done.assume(nothrow)
            brk = []
            for o in exits:
                extra = o.st.br[nb:]
                o.st.br = st.br + (NOT(none),) + extra
                o.st.assume(first)
                if o.kind == "break":
                    brk.append(o.st)
                else:
                    res.append(o)
            res.append(Out("next", self.merge_states(brk + [done]) if brk else done))
        else:
            done.assume(nothrow)
            res.append(Out("next", done))
        return res

    partial_exit = False

    def pat_loc(self, p):
        path = []
        for a in p[1:]:
            if a[0] == "f":
                path.append(a)
            elif a[0] == "k*":
                path.append(("k", None))
            else:
                path.append(("i", None))
        return Loc(p[0], tuple(path))

    def refine_shapes(self, pats, hname, cfg, init_of, h, post, m):
        """adjust sorts / dynamic sizes; True when something changed"""
        again = False
        for p in pats:
            keys = self.key_skolem(init_of(p[0]), p[1:])
            hv = self.get_pat(h.cells[p[0]], p[1:], keys)
            pv = self.get_pat(post.cells[p[0]], p[1:], keys)
            again |= self.refine(hname(p), hv, pv, cfg, h)
        return again

    def refine(self, name, hv, pv, cfg, h):
        if isinstance(hv, Poly) and isinstance(pv, Poly):
            a = hv.atom()
            if a is not None and a.sort == "I" and not pv.is_int():
                cfg["sort"][name] = "R"
                return True
            return False
        if isinstance(hv, Mat) and isinstance(pv, Mat):
            if name not in cfg["dims"] and not (pv.rows is hv.rows and pv.cols is hv.cols):
                if not self.valid(h, AND(eq(pv.rows, hv.rows), eq(pv.cols, hv.cols))):
                    cfg["dims"].add(name)
                    return True
            return False
        if isinstance(hv, StructV) and isinstance(pv, StructV):
            r = False
            for f in self.struct_fields(hv):
                r |= self.refine(name + "." + f, hv.get(f), pv.get(f), cfg, h)
            return r
        return False

    # ------------------------------------------------------------ solving
    def solve_forms(self, pats, hname, cfg, init_of, h, post, m, uid, lid):
        """-> {pattern: f(at, keys, old) -> value}"""
        ma = m.atom()
        eqs = {}       # leaf function name -> dict(sk, E, init, kind)
        bags = {}
        shapes = {}

        def add(name, keys, hv, iv, pv):
            """collect equations; returns a builder (at, keys) -> value"""
            if isinstance(hv, Poly) and hv.atom() is None:
                raise LoopFail("leaf %s is %s" % (name, hv))
            if isinstance(hv, Poly) or isinstance(hv, B) or (isinstance(hv, Atom)):
                if name not in eqs:
                    eqs[name] = {"sk": tuple(keys), "E": pv, "init": iv,
                                 "sort": "B" if isinstance(hv, B) else (hv.atom() or 0).sort if isinstance(hv, Poly) else hv.sort}
                return lambda at, ks: solved[name](at, ks)
            if isinstance(hv, Mat):
                i, j = T.fresh("sk", "I", nonneg=True), T.fresh("sk", "I", nonneg=True)
                if name not in eqs:
                    eqs[name] = {"sk": tuple(keys) + (i, j), "E": pv(i, j), "init": iv(i, j), "sort": "R"}
                rr = cc = None
                dims = {}
                for d in ("rows", "cols"):
                    x = getattr(hv, d)
                    a = x.atom()
                    if a is not None and a.kind == "app" and a.data[0] == name + "." + d:
                        eqs[name + "." + d] = {"sk": tuple(keys), "E": getattr(pv, d), "init": getattr(iv, d), "sort": "I"}
                        dims[d] = lambda at, ks, d=d: solved[name + "." + d](at, ks)
                    else:
                        dims[d] = lambda at, ks, x=x: x
                if name in cfg["dims"] or len(eqs.keys() & {name + ".rows", name + ".cols"}):
                    return lambda at, ks: Mat(dims["rows"](at, ks), dims["cols"](at, ks),
                                              lambda a, b: solved[name](at, tuple(ks) + (a, b)))
                return lambda at, ks: (lambda old: Mat(old.rows, old.cols, lambda a, b: solved[name](at, tuple(ks) + (a, b))))
            if isinstance(hv, SeqV):
                eqs[name + ".len"] = {"sk": tuple(keys), "E": pv.len, "init": iv.len, "sort": "I"}
                k = T.fresh("sk", "I", nonneg=True)
                try:
                    iv0 = iv(k)
                except Unsupported:
                    iv0 = self.types.sym(hv.et, "none:" + name, tuple(keys) + (k,), self.frame.fn.ns or "")
                sub = add(name + "[]", tuple(keys) + (k,), hv(k), iv0, pv(k))
                return lambda at, ks: SeqV(solved[name + ".len"](at, ks), lambda x: build(sub, at, tuple(ks) + (x,), hv(x)), hv.et)
            if isinstance(hv, MapV):
                kk = norm_type(hv.kt or "")
                srt = "Obj" if kk.endswith("*") else "Str" if self.types.is_string(kk) else "I"
                k = T.fresh("sk", srt)
                eqs[name + ".has"] = {"sk": tuple(keys) + (k,), "E": pv.has(k), "init": iv.has(k), "sort": "B"}
                sub = None
                if hv.get is not None:
                    sub = add(name + "@", tuple(keys) + (k,), hv.get(k), iv.get(k), pv.get(k))
                return lambda at, ks: MapV(lambda x: solved[name + ".has"](at, tuple(ks) + (x,)),
                                           FamV(lambda x: build(sub, at, tuple(ks) + (x,), hv.get(x)), hv.vt) if sub else None,
                                           None, hv.kt, hv.vt, None)
            if isinstance(hv, BagV):
                new = []
                seen = False
                for e in pv.entries:
                    if e.val == ("hv", name):
                        seen = True
                    else:
                        new.append(e)
                if not seen:
                    raise LoopFail("bag replaced in a loop")
                bags[name] = new

                def mk(at, ks):
                    es = list(iv.entries)
                    for e in new:
                        k = T.fresh("bk", "I", nonneg=True).atom()
                        sub_ = lambda t: subst_fn_m(t, ma, P(k))
                        es.append(Entry(sub_(e.val), AND(sub_(e.guard), lt(P(k), at)), tuple(e.binders) + (k,)))
                    return BagV(es)
                return mk
            if isinstance(hv, StructV):
                subs = {f: add(name + "." + f, keys, hv.get(f), iv.get(f), pv.get(f)) for f in self.struct_fields(hv)}
                return lambda at, ks: StructV(hv.tname, lambda f: build(subs[f], at, ks, iv.get(f)))
            if isinstance(hv, OpaqueV):
                return lambda at, ks: hv
            raise LoopFail("closed form of %s" % type(hv).__name__)

        def build(sub, at, ks, old):
            v = sub(at, ks)
            if callable(v) and not isinstance(v, (Mat, SeqV, FamV)):
                v = v(old)
            return v

        def subst_fn_m(t, ma, k):
            if isinstance(t, (Poly, Atom, B)):
                t2 = subst_fn(t, {nm: (lambda args, nm=nm: solved[nm](args[0], args[1:])) for nm in solved}, {})
                return subst(t2, {ma: k})
            raise LoopFail("bag entry value")
        solved = {}
        builders = {}
        stated = {}
        for p in sorted(pats, key=str):
            fn = self.stated_form(p)
            if fn is not None:
                stated[p] = fn
                continue
            keys = self.key_skolem(init_of(p[0]), p[1:])
            hv = self.get_pat(h.cells[p[0]], p[1:], keys)
            iv = self.get_pat(init_of(p[0]), p[1:], keys)
            pv = self.get_pat(post.cells[p[0]], p[1:], keys)
            builders[p] = add(hname(p), tuple(keys), hv, iv, pv)

        if stated:
            pre = tuple(hname(p) for p in stated)
            for e in eqs.values():
                if any(x.startswith(pre) for x in fnames(e["E"])):
                    raise LoopFail("a stated form is used by another variable")
        pending = dict(eqs)
        hint = self.loop_hints.get(lid, {})
        while pending:
            progress = False
            for name in sorted(pending, key=lambda x: len(str(x))):
                e = pending[name]
                table = {nm: (lambda args, nm=nm: solved[nm](args[0], args[1:])) for nm in solved}
                E = subst_fn(e["E"], table, {}) if table else e["E"]
                others = [x for x in fnames(E) if x in pending and x != name]
                if others:
                    continue
                # what holds during an iteration, over the variables already solved
                e["known"] = lambda table=table: [subst_fn(x, table, {}) for x in h.all()]
                f = self.solve_one(name, E, e, m, uid, h)
                if f is None:
                    continue
                solved[name] = f
                del pending[name]
                progress = True
            if not progress:
                # break a cycle with recursively defined functions
                self.solve_rec_group(pending, solved, m, uid)
        out = {}
        for p in pats:
            if p in stated:
                if p[0].startswith("heap:"):
                    # a field of this object; the same field of the others is left alone
                    me = self.stack[-1].this.path[0][1]
                    iv0 = self.get_pat(init_of(p[0]), p[1:], (me,))
                    out[p] = lambda at, keys, old, fn=stated[p], iv0=iv0, me=me: merge(eq(keys[0], me), raw_value(fn(iv0, P(at))), old)
                    continue
                iv0 = self.get_pat(init_of(p[0]), p[1:], ())
                out[p] = lambda at, keys, old, fn=stated[p], iv0=iv0: raw_value(fn(iv0, P(at)))
                continue

            def mkf(p):
                def f(at, keys, old):
                    return build(builders[p], P(at), tuple(keys), old)
                return f
            out[p] = mkf(p)
        return out

    def stated_form(self, p):
        """closed form stated by the contract (proved inductively like the others)"""
        if not self.loop_ann or len(self.stack) > 2 or self.iter_vars:
            return None
        last = p[0].split(":")[-1] if not p[1:] else None
        for name, fn in self.loop_ann.items():
            if name.startswith("this."):
                if len(p) == 2 and p[1] == ("f", name[5:]) and p[0] == "this":
                    return fn
                this = self.stack[-1].this
                if len(p) == 3 and p[1] == ("k*",) and p[2] == ("f", name[5:]) and isinstance(this, Loc) and this.cell == p[0] and this.path and this.path[0][0] == "k":
                    return fn
            elif last == name and p[0].startswith("v"):
                return fn
        return None

    def close(self, body_fn, ma, sk):
        """term with m and skolems -> function of (at, keys)"""
        def f(at, keys):
            mp = {ma: P(at)}
            for s, k in zip(sk, keys):
                s = s.atom() if isinstance(s, Poly) else s
                mp[s] = P(k) if isinstance(k, (Poly, int)) else k
            return subst(body_fn, mp)
        return f

    def solve_one(self, name, E, e, m, uid, h):
        ma = m.atom()
        sk, init = e["sk"], e["init"]
        if e["sort"] == "B":
            H = bapp(name, (m,) + tuple(sk))
            return self.solve_bool(name, E, H, init, m, sk, uid)
        Ha = T.app(name, (m,) + tuple(sk), e["sort"])
        H = Ha
        if E is H:
            return self.close(init, ma, sk)
        numeric = e["sort"] in ("I", "R")
        if not uses(E, name):
            return self.close(ite(eq(m, ZERO), init, subst(E, {ma: m - 1})) if ma in E.fv else
                              ite(eq(m, ZERO), init, E), ma, sk)
        if numeric:
            D = E - H
            if not uses(D, name):
                k = T.bound_var()
                C = P(init) + T.mk_sum(m, k, subst(D, {ma: P(k)}))
                return self.close(C, ma, sk)
        E = self.own_cell(name, E, H, init, m, sk)
        # decision tree
        leaves = []
        try:
            self.leaves(E, H, name, (), leaves, 0)
        except LoopFail:
            leaves = None
        if leaves is not None and len(leaves) > 2 and e.get("known"):
            # leaves that no iteration reaches
            odd = [x for x in leaves if x[1] is not H and uses(x[1], name)]
            if 0 < len(odd) < len(leaves) - 1:
                known = tuple(e["known"]())
                dead = [x for x in odd if PV.quick_valid(known + tuple(x[0]), FALSE, 0.5)]
                leaves = [x for x in leaves if not any(x is y for y in dead)]
        if leaves is not None and numeric and len(leaves) > 1 and \
                all(not uses(v - H, name) and not any(uses(x, name) for x in g) for g, v in leaves):
            D = leaves[-1][1] - H
            for g, v in reversed(leaves[:-1]):
                D = ite(AND(*g), v - H, D)
            k = T.bound_var()
            return self.close(P(init) + T.mk_sum(m, k, subst(D, {ma: P(k)})), ma, sk)
        if leaves is not None:
            f = self.solve_over(name, leaves, H, init, m, sk, uid, numeric, h)
            if f is not None:
                return f
        if numeric and isinstance(E, Poly):
            # E = c * H
            c = self.linear_coef(E, H)
            if c is not None:
                q, r = c
                if r is ZERO and ma not in q.fv and not uses(q, name):
                    return self.close(P(init) * powterm(q, m), ma, sk)
        return self.make_rec(name, E, e, m, uid)

    def own_cell(self, name, E, H, init, m, sk):
        """iteration m writes entry m only: what it reads there is the initial value"""
        acc = []
        PV.find_conds(E, acc, set())
        for q, s in enumerate(sk):
            s = P(s) if not (isinstance(s, Atom) and s.sort not in ("I", "R")) else None
            if s is None:
                continue
            c = eq(s, m)
            if not any(x is c or NOT(x) is c for x in acc):
                continue
            if T.assume_in(E, c, False) is not H:
                continue
            V = T.assume_in(E, c, True)
            ss = [x.atom() if isinstance(x, Poly) else x for x in sk]

            def own(args):
                if args[0] is m and (args[1 + q] is m or args[1 + q] is s):
                    return subst(init, {a: b for a, b in zip(ss, args[1:])})
                return T.app(name, args, (H.atom() if isinstance(H, Poly) else H).sort)
            return ite(c, subst_fn(V, {name: own}, {}), H)
        return E

    def linear_coef(self, E, H):
        a = H.atom()
        q, r = ZERO, ZERO
        for mm, c in E.t:
            d = dict(mm)
            x = d.pop(a, 0)
            rest = T._mk({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
            if x == 0:
                r = r + rest
            elif x == 1:
                q = q + rest
            else:
                return None
        return q, r

    def leaves(self, E, H, name, guard, out, depth):
        if depth > 10:
            raise LoopFail("deep decision tree")
        if E is H or not uses(E, name):
            out.append((guard, E))
            return
        if isinstance(E, Poly) and isinstance(H, Poly) and not uses(E - H, name):
            out.append((guard, E))
            return
        if guard:
            # occurrences at indices that the guard makes equal to the current ones
            ha = H.atom() if isinstance(H, Poly) else H

            def same(args):
                b = AND(*[eq(x, y) for x, y in zip(args, ha.data[1:])])
                if b is TRUE or (b is not FALSE and PV.quick_valid(guard, b, 0.5)):
                    return H
                return T.app(name, args, ha.sort)
            E2 = subst_fn(E, {name: same}, {})
            if E2 is not E:
                return self.leaves(E2, H, name, guard, out, depth + 1)
        acc = []
        PV.find_conds(E, acc, set())
        acc = [c for c in acc]
        if not acc:
            out.append((guard, E))
            return
        c = acc[0]
        if uses(c, name):
            raise LoopFail("guard depends on the written value")
        for val in (True, False):
            g = guard + ((c if val else NOT(c)),)
            if AND(*g) is FALSE:
                continue
            self.leaves(T.assume_in(E, c, val), H, name, g, out, depth + 1)

    def solve_over(self, name, leaves, H, init, m, sk, uid, numeric, h):
        ma = m.atom()
        over = []
        for g, v in leaves:
            if v is H:
                continue
            if uses(v, name) or any(uses(x, name) for x in g):
                return None
            over.append((AND(*g), v))
        if not over:
            return None
        res = init
        for g, v in reversed(over):
            ms = self.solve_index(name, g, m, sk, uid, h)
            if ms is None:
                return None
            res = ite(AND(ge(ms, ZERO), lt(ms, m), subst(g, {ma: ms})), subst(v, {ma: ms}), res)
        return self.close(res, ma, sk)

    def solve_index(self, name, g, m, sk, uid, h):
        """the iteration that writes: solve the guard for m"""
        ma = m.atom()
        if ma not in g.fv:
            return m - 1
        lits = list(g.data) if g.kind == "and" else [g]
        sks = {(s.atom() if isinstance(s, Poly) else s) for s in sk}
        for l in lits:
            if l.kind == "eq" and ma in l.fv and (l.fv & sks):
                s = T._lin(l.data[0], ma)
                if s is not None and s[0] != 0:
                    a, r = s
                    if abs(a) == 1:
                        return -r if a == 1 else r
                    if r.is_int() and a.denominator == 1:
                        return T.ediv(-r if a > 0 else r, P(abs(a)))
        # an equality given as two inequalities
        les = [l.data[0] for l in lits if l.kind == "le" and ma in l.fv and (l.fv & sks)]
        for p in les:
            if any((p + q) is ZERO for q in les if q is not p):
                sl = T._lin(p, ma)
                if sl is not None and abs(sl[0]) == 1:
                    return -sl[1] if sl[0] == 1 else sl[1]
        # the entry is named by a key of a map: its position in the map
        for p in les:
            if any((p + q) is ZERO for q in les if q is not p):
                for a in sorted((x for x in p.atoms() if x.kind == "app" and x.data[0].endswith(".key") and x.data[-1] is m), key=lambda x: x.id):
                    sl = T._lin(p, a)
                    if sl is not None and abs(sl[0]) == 1 and ma not in sl[1].fv:
                        k = self.invert_key(-sl[1] if sl[0] == 1 else sl[1], a, m)
                        if k is not None:
                            return k
        for l in lits:
            if l.kind == "eqo" and ma in l.fv:
                x, y = l.data
                for u, w in ((x, y), (y, x)):
                    if u in sks and w.kind == "app" and ma in w.fv:
                        k = self.invert_key(u, w, m)
                        if k is not None:
                            return k
        # block rows: lower <= i < lower + size
        for l in lits:
            if l.kind != "le" or ma not in l.fv:
                continue
            for s in sks:
                if s.sort != "I":
                    continue
                q = T._lin(l.data[0], s)
                if q is None or q[0] != -1:
                    continue
                off = q[1]                      # off(m) <= s
                s2 = T._lin(off, ma)
                for l2 in lits:
                    if l2.kind != "le":
                        continue
                    u = T._lin(l2.data[0], s)
                    if u is None or u[0] != 1:
                        continue
                    size = ONE - u[1] - off      # s + u1 <= 0, s < off+size
                    if s2 is not None and s2[0] > 0 and s2[0].denominator == 1 and s2[1].is_int() and ma not in size.fv \
                            and size.iconst() is not None and size.iconst() <= s2[0]:
                        return T.ediv(P(s) - s2[1], P(s2[0]))
                    if s2 is not None and s2[0] < 0 and s2[0].denominator == 1 and s2[1].is_int() and ma not in size.fv \
                            and size.iconst() is not None and size.iconst() <= -s2[0]:
                        # s = r - a*m + d, 0 <= d < size: m = ceil((r - s) / a)
                        return T.ediv(s2[1] - P(s) + P(-s2[0] - 1), P(-s2[0]))
                    if ma in off.fv or ma in size.fv:
                        nm = "own:%d:%s" % (uid, name)
                        params = tuple(sorted(((off.fv | size.fv) - {ma, s}), key=lambda a: a.id))
                        params = tuple(p for p in params if not p.data.startswith("$"))
                        OWNS[nm] = (ma, s, params, off, size)
                        return T.app(nm, (P(s),) + tuple(P(p) if p.sort in ("I", "R") else p for p in params), "I")
        return None

    def invert_key(self, u, w, m):
        nm = w.data[0]
        if nm.endswith(".key"):
            # key of an enumerated container
            if w.data[-1] is m:
                return T.app(nm[:-4] + ".idx", tuple(w.data[1:-1]) + (u,), "I")
        if nm.startswith("hv:new:"):
            if w.data[-1] is m:
                return T.app("inv:" + nm, (u,), "I")
        if nm.endswith("[]") and w.data[-1] is m:
            # object stored at position m of a vector of distinct objects
            return T.app(nm + ".pos", tuple(w.data[1:-1]) + (u,), "I")
        return None

    def solve_bool(self, name, E, H, init, m, sk, uid):
        ma = m.atom()
        if E is H:
            return self.close(init, ma, sk)
        if not uses(E, name):
            return self.close(ite(eq(m, ZERO), init, subst(E, {ma: m - 1})), ma, sk)
        # a single element is written at each iteration
        for c in self.index_lits(E, ma, sk):
            eC, eN = T.assume_in(E, c, True), T.assume_in(E, c, False)
            q = T._lin(c.data[0], ma)
            if eN is H and not uses(eC, name) and q is not None and abs(q[0]) == 1:
                ms = P(-q[1] / q[0]) if not isinstance(q[1], Poly) else q[1] * P(-1 / q[0])
                if ma in ms.fv:
                    continue
                w = subst(eC, {ma: ms})
                inr = AND(ge(ms, ZERO), lt(ms, m))
                return self.close(OR(AND(inr, w), AND(NOT(inr), init)), ma, sk)
        eT = T.assume_in(E, H, True)
        eF = T.assume_in(E, H, False)
        if uses(eT, name) or uses(eF, name):
            return self.make_rec(name, E, {"sk": sk, "init": init, "sort": "B"}, m, uid)
        kq = T.fresh("$q", "I").atom()
        # index-like writes (map insertion): E = H or guard solvable for m
        if eT is TRUE:
            try:
                ms = self.solve_index(name, eF, m, sk, uid, None) if eF.kind != "or" else None
            except Exception:
                ms = None
            if ms is not None and ma in eF.fv:
                return self.close(OR(init, AND(ge(ms, ZERO), lt(ms, m), subst(eF, {ma: ms}))), ma, sk)
            g = subst(eF, {ma: P(kq)})
            return self.close(OR(init, NOT(forall((kq,), IMP(AND(ge(P(kq), ZERO), lt(P(kq), m)), NOT(g))))), ma, sk)
        if eF is FALSE:
            g = subst(eT, {ma: P(kq)})
            return self.close(AND(init, forall((kq,), IMP(AND(ge(P(kq), ZERO), lt(P(kq), m)), g))), ma, sk)
        return self.make_rec(name, E, {"sk": sk, "init": init, "sort": "B"}, m, uid)

    def index_lits(self, E, ma, sk):
        """equalities of E between the iteration and one of the keys"""
        ks = {(s.atom() if isinstance(s, Poly) else s) for s in sk}
        out, stack, seen = [], [E], set()
        while stack:
            b = stack.pop()
            if b in seen or not isinstance(b, B):
                continue
            seen.add(b)
            if b.kind == "eq" and ma in b.fv and (b.fv & ks):
                out.append(b)
            elif b.kind in ("and", "or", "not"):
                stack.extend(b.data)
        return out[:4]

    def make_rec(self, name, E, e, m, uid):
        if e["sort"] == "B":
            # no closed form: the value after `at` iterations, left uninterpreted (nothing is known about it)
            sk0 = {(s.atom() if isinstance(s, Poly) else s) for s in e["sk"]}
            init = e["init"]
            ext = tuple(sorted((E.fv | init.fv) - {m.atom()} - sk0, key=lambda a: a.id))
            ext = tuple(P(p) if p.sort in ("I", "R") else p for p in ext if not p.data.startswith("$"))
            return lambda at, keys: bapp("any:" + name, (P(at),) + tuple(keys) + ext)
        ma = m.atom()
        sk = tuple((s.atom() if isinstance(s, Poly) else s) for s in e["sk"])
        init = e["init"]
        fv = (E.fv | (init.fv if isinstance(init, (Poly, Atom, B)) else frozenset())) - {ma} - set(sk)
        params = tuple(sorted([p for p in fv if not p.data.startswith("$")], key=lambda a: a.id))
        rn = "rec:" + name
        pargs = tuple(P(p) if p.sort in ("I", "R") else p for p in params)

        def call(at, keys):
            return T.app(rn, (P(at),) + tuple(keys) + pargs, e["sort"])
        step = subst_fn(E, {name: lambda args: call(args[0], args[1:])}, {})
        RECS[rn] = (ma, sk, params, init, step)
        return call

    def solve_rec_group(self, pending, solved, m, uid):
        rest, pending = pending, self.bottom_component(pending)
        try:
            self.solve_rec_component(pending, solved, m, uid)
        finally:
            for nm in list(rest):
                if nm in solved:
                    del rest[nm]

    def bottom_component(self, pending):
        """equations that only depend on each other, as few as possible"""
        dep = {nm: {x for x in fnames(e["E"]) if x in pending} for nm, e in pending.items()}
        best = None
        for nm in sorted(pending):
            seen, stack = {nm}, [nm]
            while stack:
                for y in dep[stack.pop()]:
                    if y not in seen:
                        seen.add(y)
                        stack.append(y)
            if best is None or len(seen) < len(best):
                best = seen
        return {nm: e for nm, e in pending.items() if nm in best}

    def solve_rec_component(self, pending, solved, m, uid):
        ma = m.atom()
        allE = []
        for nm, e in list(pending.items()):
            if e["sort"] == "B":
                solved[nm] = self.make_rec(nm, e["E"], e, m, uid)
                del pending[nm]
                return
        calls = {}
        fv = frozenset()
        for nm, e in pending.items():
            fv |= e["E"].fv | e["init"].fv
            fv -= {(s.atom() if isinstance(s, Poly) else s) for s in e["sk"]}
        params = tuple(sorted([p for p in fv - {ma} if not p.data.startswith("$")], key=lambda a: a.id))
        allsk = set()
        for e in pending.values():
            allsk |= {(s.atom() if isinstance(s, Poly) else s) for s in e["sk"]}
        params = tuple(p for p in params if p not in allsk)
        pargs = tuple(P(p) if p.sort in ("I", "R") else p for p in params)
        for nm, e in pending.items():
            calls[nm] = (lambda at, keys, nm=nm, e=e: T.app("rec:" + nm, (P(at),) + tuple(keys) + pargs, e["sort"]))
        table = {nm: (lambda args, nm=nm: calls[nm](args[0], args[1:])) for nm in calls}
        for nm in solved:
            table[nm] = (lambda args, nm=nm: solved[nm](args[0], args[1:]))
        for nm, e in list(pending.items()):
            sk = tuple((s.atom() if isinstance(s, Poly) else s) for s in e["sk"])
            RECS["rec:" + nm] = (ma, sk, params, e["init"], subst_fn(e["E"], table, {}))
            solved[nm] = calls[nm]
            del pending[nm]

    # ------------------------------------------------------------ trip count
    def trip_count(self, st, c, ma, lid):
        self.partial_exit = False
        if c.kind == "le":
            s = T._lin(c.data[0], ma)
            if s is not None and s[0] > 0 and s[1].is_int() and s[0].denominator == 1:
                a, r = s
                cnt = -r + ONE if a == 1 else T.ediv(-r, P(a)) + ONE
                if self.valid(st, ge(cnt, ZERO)):
                    return cnt, []
                return T.max0(cnt), []
        if ma not in c.fv:
            if c is FALSE:
                return ZERO, []
        # unknown number of iterations (partial correctness): N with cond false at N and true before
        N = T.fresh("N", "I", nonneg=True)
        self.partial_exit = True
        self.assumptions.add("termination of loop %s is not verified" % lid)
        return N, []

    # ------------------------------------------------------------ obligations for closed forms
    def oblige_forms(self, ps, want, p, lid, init_of, base=False):
        keys = self.key_skolem(init_of(p[0]), p[1:])
        a = self.get_pat(ps.cells.get(p[0], init_of(p[0])), p[1:], keys)
        b = self.get_pat(want.cells[p[0]], p[1:], keys)
        nm = p[0].split(":")[-1] + "".join("." + x[1] if x[0] == "f" else "[]" for x in p[1:])
        self.oblige_equal(ps, a, b, "loop %s: %s" % (lid, nm), "loop")

    def oblige_equal(self, st, a, b, name, kind, where=""):
        """equality of two values, at fresh indices"""
        if a is b:
            self.oblige(st, name, TRUE, kind, where)
            return
        if kind == "loop" and isinstance(b, B) and b.kind == "bapp" and b.data[0].startswith("any:"):
            return
        if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)) or (isinstance(a, Atom) and isinstance(b, Atom)):
            self.oblige_soft(st, name, eq(a, b), kind, where)
            return
        if isinstance(a, Mat) and isinstance(b, Mat):
            self.oblige_soft(st, name + " (size)", AND(eq(a.rows, b.rows), eq(a.cols, b.cols)), kind, where)
            r, c = b.dims()
            if r is not None and c is not None and r * c <= 64:
                for i in range(r):
                    for j in range(c):
                        self.oblige_soft(st, "%s(%d,%d)" % (name, i, j), eq(a(i, j), b(i, j)), kind, where)
                return
            s = st.fork()
            i = P(0) if r == 1 else T.fresh("sk_i", "I", nonneg=True)
            j = P(0) if c == 1 else T.fresh("sk_j", "I", nonneg=True)
            s.assume(AND(ge(i, ZERO), lt(i, b.rows), ge(j, ZERO), lt(j, b.cols)))
            self.oblige_soft(s, name + "(i,j)", eq(a(i, j), b(i, j)), kind, where)
            return
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            self.oblige_soft(st, name + ".size()", eq(a.len, b.len), kind, where)
            s = st.fork()
            if b.len is ZERO or a.len is ZERO:
                return
            cl = b.len.iconst()
            if cl is not None and cl <= 8:
                for k in range(cl):
                    self.oblige_equal(s, a(k), b(k), "%s[%d]" % (name, k), kind, where)
                return
            k = T.fresh("sk_k", "I", nonneg=True)
            s.assume(AND(ge(k, ZERO), lt(k, b.len)))
            self.oblige_equal(s, a(k), b(k), name + "[k]", kind, where)
            return
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            if a.path != b.path or len(a.idx) != len(b.idx):
                raise Unsupported("comparison of external objects")
            for f in sorted(set(a._f) | set(b._f)):
                ty = a._ty.get(f) or b._ty.get(f)
                like = a._f.get(f, b._f.get(f))
                self.oblige_equal(st, a.field(f, ty, like), b.field(f, ty, like), name + "." + f, kind, where)
            for x, y in zip(a.idx, b.idx):
                if x is not y:
                    self.oblige_soft(st, name, eq(x, y), kind, where)
            return
        if isinstance(a, StructV) and isinstance(b, StructV):
            fs = self.struct_fields(b)
            if not fs and b.tname not in self.prog.records:
                raise Unsupported("comparison of external objects (%s)" % b.tname)
            for f in fs:
                self.oblige_equal(st, a.get(f), b.get(f), name + "." + f, kind, where)
            return
        if isinstance(a, FamV) and isinstance(b, FamV):
            o = T.fresh("sk_o", "Obj")
            self.oblige_equal(st, a(o), b(o), name + "[o]", kind, where)
            return
        if isinstance(a, MapV) and isinstance(b, MapV):
            kk = norm_type(b.kt or a.kt or "")
            s = "Obj" if kk.endswith("*") else "Str" if self.types.is_string(kk) else "I"
            k = T.fresh("sk_key", s)
            if kk.startswith(("std::pair", "pair")):
                raise Unsupported("pair keys")
            self.oblige_soft(st, name + ".contains(k)", eq(a.has(k), b.has(k)), kind, where)
            if b.get is not None:
                s2 = st.fork()
                s2.assume(b.has(k))
                self.oblige_equal(s2, a.get(k), b.get(k), name + "[k]", kind, where)
            return
        if isinstance(a, BagV) and isinstance(b, BagV):
            self.oblige_bags(st, a, b, name, kind, where)
            return
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return
        if isinstance(a, (Loc, PtrV)) and isinstance(b, (Loc, PtrV)):
            la, lb = (x.loc if isinstance(x, PtrV) else x for x in (a, b))
            self.oblige(st, name, bl(la.cell == lb.cell and la.path == lb.path), kind, where)
            return
        raise Unsupported("comparison of %s with %s" % (type(a).__name__, type(b).__name__))

    def oblige_soft(self, st, name, goal, kind, where):
        """obligation without assuming it afterwards"""
        goal = bl(goal)
        if not self.quiet:
            self.obligs.append(Oblig(name, st.all() if goal is not TRUE else (), goal, kind, where, self.fname))

    def oblige_bags(self, st, a, b, name, kind, where):
        # same ghost constructors produce structurally identical entries; anything else is compared by the client
        if len(a.entries) == len(b.entries) and all(x is y for x, y in zip(a.entries, b.entries)):
            self.oblige(st, name, TRUE, kind, where)


def powterm(q, m):
    return T.app("powi", (P(q), P(m)))


def pow_axioms(a):
    if a.kind == "app" and a.data[0] == "powi" and not PV.is_bound(a):
        q, n = a.data[1], a.data[2]
        out = [IMP(eq(n, ZERO), eq(P(a), ONE)),
               IMP(ge(n, ONE), eq(P(a), q * T.app("powi", (q, n - 1))))]
        return out
    return []


def _powi(q, n):
    q, n = P(q), P(n)
    c = n.iconst()
    if c is not None and 0 <= c <= 12:
        return q ** c
    # peel constants
    cst = [cc for mm, cc in n.t if mm == ()]
    if cst and cst[0] > 0 and cst[0].denominator == 1 and cst[0] <= 4 and (n - P(cst[0])).is_nonneg():
        return (q ** int(cst[0])) * T.app("powi", (q, n - P(cst[0])))
    return T.app("powi", (q, n))


T.BUILTIN["powi"] = _powi
PV.EXTRA_AXIOMS.append(pow_axioms)


# ------------------------------------------------------------ recursive functions of specifications
SPECRECS = {}


def spec_rec(name, init, step, params=(), nkeys=0, sort="R"):
    """primitive recursive function of a specification: f(0,keys)=init(keys,params), f(m+1,keys)=step(f(m,.),m,keys,params)"""
    params = [P(p) if isinstance(p, (int, Poly)) or (isinstance(p, Atom) and p.sort in ("I", "R")) else p for p in params]
    psorts = ["I" if isinstance(p, Poly) and p.is_int() else "R" if isinstance(p, Poly) else p.sort for p in params]
    m = T.var("rm", "I")
    ks = [T.var("rk%d" % i, "I") for i in range(nkeys)]
    pv = [T.var("rp%d%s" % (i, s), s) for i, s in enumerate(psorts)]
    at = lambda x: x.atom() if isinstance(x, Poly) else x
    sig = (name, nkeys, tuple(psorts))
    holder = {}

    def raw_call(rn, i, keys, pa):
        return T.app(rn, (P(i),) + tuple(P(k) for k in keys) + tuple(pa), sort)
    probe = "specrec?" + name
    i0 = P(init(ks, pv)) if sort in ("I", "R") else init(ks, pv)
    s0 = step(lambda keys: raw_call(probe, m, keys, pv), m, ks, pv)
    s0 = P(s0) if sort in ("I", "R") else s0
    key = (sig, i0, s0)
    rn = SPECRECS.get(key)
    if rn is None:
        rn = "rec:spec:%s!%d" % (name, len(SPECRECS))
        SPECRECS[key] = rn
        s1 = subst_fn(s0, {probe: lambda args: T.app(rn, args, sort)}, {})
        RECS[rn] = (at(m), tuple(at(k) for k in ks), tuple(at(p) for p in pv), i0, s1)
    return lambda i, *keys: raw_call(rn, i, keys, params)


_same = {}


def rec_rewrite(facts, goal, bud):
    """code recursions replaced by the equal recursion of the specification (proved by induction: same start, same step)"""
    atoms = [a for a in PV.collect([goal]) if a.kind == "app" and a.data[0] in RECS]
    # also under binders
    names = {n for n in fnames(goal) if n in RECS}
    spec = [n for n in names if n.startswith("rec:spec:")]
    code = [n for n in names if not n.startswith("rec:spec:")]
    if not spec or not code:
        return goal
    for f in code:
        fm, fsk, fpar, finit, fstep = RECS[f]
        occ = occurrences(goal, f)
        if not occ:
            continue
        fargs = occ[0].data[2 + len(fsk):]
        if any(o.data[2 + len(fsk):] != fargs for o in occ) or any(v.data.startswith("$") for x in fargs for v in x.fv):
            continue
        for g in spec:
            gm, gsk, gpar, ginit, gstep = RECS[g]
            if len(gsk) != len(fsk):
                continue
            for gargs in sorted({o.data[2 + len(gsk):] for o in occurrences(goal, g)}, key=str):
                if any(v.data.startswith("$") for x in gargs for v in x.fv):
                    continue
                idx = {o.data[1] for o in occ}
                upto = idx.pop() if len(idx) == 1 else None
                if upto is not None and any(v.data.startswith("$") for v in upto.fv):
                    upto = None
                key = (f, g, fargs, gargs, upto, tuple(facts))
                if key not in _same:
                    _same[key] = same_rec(f, g, fargs, gargs, facts, occ[0].sort, bud, upto, occ)
                if _same[key]:
                    n = len(gsk)
                    return rec_rewrite(facts, subst_fn(goal, {f: lambda args: T.app(g, tuple(args[:1 + n]) + tuple(gargs), occ[0].sort)}, {}), bud)
    return goal


def same_rec(f, g, fargs, gargs, facts, sort, bud, upto=None, occ=()):
    fm, fsk, fpar, finit, fstep = RECS[f]
    gm, gsk, gpar, ginit, gstep = RECS[g]
    m = T.fresh("m", "I", nonneg=True)
    ks = [T.fresh("sk", "I", nonneg=True) for _ in gsk]
    for p in range(len(ks)):
        # an index that is the same constant in every use
        cs = {o.data[2 + p] for o in occ}
        c = cs.pop() if len(cs) == 1 else None
        if c is not None and c.iconst() is not None:
            if all(o.data[2 + p] is c for o in occurrences(subst(fstep, {fsk[p]: c}), f)):
                ks[p] = c
    fs = dict(zip(fsk, ks))
    fs.update(zip(fpar, fargs))
    gs = dict(zip(gsk, ks))
    gs.update(zip(gpar, gargs))
    n = len(gsk)
    a0, b0 = subst(finit, fs), subst(ginit, gs)
    r = PV._prove(list(facts), eq(a0, b0), PV.Budget(min(3, max(0.1, bud.left()))), 1)
    if r.status != "proved":
        return False
    fs[fm] = m
    gs[gm] = m
    a1 = subst_fn(subst(fstep, fs), {f: lambda args: T.app(g, tuple(args[:1 + n]) + tuple(gargs), sort)}, {})
    b1 = subst(gstep, gs)
    r = PV._prove(list(facts) + [ge(m, ZERO)] + ([lt(m, upto)] if upto is not None else []), eq(a1, b1), PV.Budget(min(4, max(0.1, bud.left()))), 1)
    return r.status == "proved"


def occurrences(t, name):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, (Poly, Atom, B)) or x in seen or name not in fnames(x):
            continue
        seen.add(x)
        if isinstance(x, Poly):
            stack.extend(x.atoms())
        elif isinstance(x, Atom):
            if x.kind == "app" and x.data[0] == name:
                out.append(x)
            stack.extend(y for y in (x.data if isinstance(x.data, tuple) else (x.data,)))
        else:
            stack.extend(y for y in x.data if isinstance(y, (Poly, Atom, B, tuple)))
    return out


PV.REWRITES.append(rec_rewrite)


def rec_unfold(facts, goal, bud):
    """f(n) replaced by its step when f(n-1) is also mentioned (possibly under a binder)"""
    names = {n for n in fnames(goal) if n in RECS}
    for f in sorted(names):
        occ = occurrences(goal, f)
        m, sk, params, init, step = RECS[f]
        idx = {o.data[1] for o in occ}
        for o in sorted(occ, key=lambda a: a.id):
            if PV.is_bound(o) and any(v.data.startswith("$") for v in o.data[1].fv):
                continue
            i = o.data[1]
            if (i - 1) in idx and i.iconst() is None and PV.quick_valid(facts, ge(i, ONE)):
                def unf(args, f=f, i=i):
                    if args[0] is not i:
                        return T.app(f, args, o.sort)
                    mp = {m: i - 1}
                    mp.update(zip(sk + params, args[1:]))
                    return subst(step, mp)
                return subst_fn(goal, {f: unf}, {})
    return goal


PV.REWRITES.append(rec_unfold)
