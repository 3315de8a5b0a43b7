"""Front end: extracts the real functions of /repo from clang's JSON AST on every run."""
import json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from terms import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
INC = "/opt/placo-venv/lib/python3.12/site-packages/cmeel.prefix/include"
FLAGS = ["-std=c++17", "-fsyntax-only", "-w", "-DNDEBUG",
         "-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30",
         "-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL", "-DCOAL_HAS_OCTOMAP", "-DCOAL_HAVE_OCTOMAP",
         "-DOCTOMAP_MAJOR_VERSION=1", "-DOCTOMAP_MINOR_VERSION=10", "-DOCTOMAP_PATCH_VERSION=0",
         "-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION", "-DPINOCCHIO_WITH_HPP_FCL", "-DPINOCCHIO_WITH_URDFDOM",
         "-I" + REPO + "/src", "-I" + INC, "-I" + INC + "/eigen3", "-I" + INC + "/urdfdom",
         "-I" + INC + "/urdfdom_headers"]

FUNC = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class Func:
    __slots__ = ("name", "qual", "mangled", "params", "body", "inits", "node", "tu", "cls", "static", "virtual",
                 "rtype", "ptypes", "ns", "kind", "file", "line")

    def __repr__(self):
        return "%s(%s)" % (self.qual, ", ".join(self.ptypes))


class Record:
    __slots__ = ("qual", "fields", "bases", "order")


def strip_type(t):
    t = t.strip()
    t = re.sub(r"\b(const|volatile|class|struct|enum|typename)\b", "", t)
    t = t.replace("&", "").strip()
    return re.sub(r"\s+", " ", t)


def short_type(t):
    """parameter type with qualifiers, references and namespaces removed; templates kept"""
    t = strip_type(t)
    t = re.sub(r"\b\w+::", "", t)
    return t.replace(" ", "")


class Program:
    def __init__(self, files):
        """files: paths relative to /repo/src/placo"""
        self.files = files
        self.byid = {}        # (tu, id) -> node for decls
        self.func_by_mangled = {}
        self.func_id = {}     # (tu,id) -> mangled
        self.decl_of = {}     # mangled -> Func (declaration, maybe without body)
        self.records = {}
        self.enumval = {}     # (tu,id) -> int
        self.enumname = {}
        self.defaults = {}    # mangled -> list of default arg nodes
        self.missing = []
        self.recid = {}
        self.errors = []
        self.enums = {}
        self.ctors = {}

    def load(self):
        t0 = time.time()
        with ThreadPoolExecutor(8) as ex:
            def put(files):
                for rel, roots in zip(files, ex.map(self._clang, files)):
                    if isinstance(rel, tuple) and roots is None:   # the group does not parse as one unit: one by one
                        put(sorted(rel))
                        continue
                    if roots is None:
                        self.missing.append(rel)
                        continue
                    self._index("+".join(rel) if isinstance(rel, tuple) else rel, roots)
            put(self.files)
        self.load_s = time.time() - t0
        return self

    def _clang(self, rel):
        unity = None
        if isinstance(rel, tuple):
            # several real source files parsed as one translation unit (each included by its absolute path)
            have = [os.path.join(REPO, "src/placo", x) for x in rel]
            self.missing += [x for x, y in zip(rel, have) if not os.path.exists(y)]
            fd, unity = tempfile.mkstemp(suffix=".cpp")
            with os.fdopen(fd, "w") as f:
                f.write("".join('#include "%s"\n' % x for x in have if os.path.exists(x)))
            src = unity
        else:
            src = os.path.join(REPO, "src/placo", rel)
            if not os.path.exists(src):
                return None
        cmd = ["clang++"] + FLAGS + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=placo", src]
        fd, tmp = tempfile.mkstemp(suffix=".json")
        try:
            with os.fdopen(fd, "w") as f:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0 and unity:
                self.missing = [x for x in self.missing if x not in rel]
                return None
            if r.returncode != 0:
                self.errors.append("%s: %s" % (rel, r.stderr[-2000:]))
            out = []
            dec = json.JSONDecoder()
            with open(tmp) as f:
                s = f.read()
        finally:
            os.unlink(tmp)
            if unity:
                os.unlink(unity)
        i, n = 0, len(s)
        while i < n:
            while i < n and s[i] in " \n\r\t":
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            out.append(o)
        return out

    # ---------------------------------------------------------------- index
    def _index(self, tu, roots):
        self.cur_file = None
        roots = [r for r in roots if r.get("kind") == "NamespaceDecl" and r.get("name") == "placo"]
        for r in roots:
            self._walk_ids(tu, r)
        for r in roots:
            # top-level roots are namespaces (or decls inside them)
            self._walk(tu, r, self._root_scope(r), None)

    def _root_scope(self, r):
        # with -ast-dump-filter the outermost dumped decl is `namespace placo` or a nested decl of it
        return ""

    def _walk_ids(self, tu, n):
        if "id" in n:
            k = n.get("kind", "")
            if k.endswith("Decl"):
                self.byid[(tu, n["id"])] = n
        for x in n.get("inner", ()):
            if x:
                self._walk_ids(tu, x)

    def _walk(self, tu, n, scope, cls):
        k = n.get("kind")
        if k == "NamespaceDecl":
            s = (scope + "::" if scope else "") + n.get("name", "(anon)")
            for x in n.get("inner", ()):
                self._walk(tu, x, s, None)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            name = n.get("name")
            if not name:
                return
            q = (scope + "::" if scope else "") + name
            if n.get("completeDefinition") or any(x.get("kind") == "FieldDecl" for x in n.get("inner", ())):
                rec = Record()
                rec.qual = q
                rec.fields = {}
                rec.order = []
                rec.bases = [b["type"].get("desugaredQualType", b["type"]["qualType"]) for b in n.get("bases", ())]
                for x in n.get("inner", ()):
                    if x.get("kind") == "FieldDecl" and "name" in x:
                        init = [y for y in x.get("inner", ()) if y.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
                        rec.fields[x["name"]] = (tu, x["type"], init[0] if init else None)
                        rec.order.append(x["name"])
                self.records.setdefault(q, rec)
                if self.records[q].order == [] and rec.order:
                    self.records[q] = rec
            for x in n.get("inner", ()):
                self._walk(tu, x, q, q)
        elif k == "EnumDecl":
            v = -1
            if n.get("name"):
                eq = scope + "::" + n["name"]
                self.enums[eq] = True
                self.enums.setdefault("#" + n["name"], set()).add(eq)
            for x in n.get("inner", ()):
                if x.get("kind") == "EnumConstantDecl":
                    c = self._const_of(x)
                    v = c if c is not None else v + 1
                    self.enumval[(tu, x["id"])] = v
                    self.enumname[(scope + "::" + x["name"])] = v
        elif k in FUNC:
            self._func(tu, n, scope, cls)
        elif k in ("FunctionTemplateDecl", "ClassTemplateDecl"):
            for x in n.get("inner", ()):
                self._walk(tu, x, scope, cls)
        elif k in ("LinkageSpecDecl", "FriendDecl"):
            for x in n.get("inner", ()):
                self._walk(tu, x, scope, cls)

    def _const_of(self, x):
        for y in x.get("inner", ()):
            if y.get("kind") == "ConstantExpr" and "value" in y:
                return {"true": 1, "false": 0}.get(y["value"]) if y["value"] in ("true", "false") else int(y["value"])
            r = self._const_of(y)
            if r is not None:
                return r
        return None

    def _func(self, tu, n, scope, cls):
        m = n.get("mangledName")
        if m is None:
            return
        f = Func()
        f.name = n.get("name", "")
        f.node = n
        f.kind = n["kind"]
        f.tu = tu
        f.mangled = m
        f.cls = cls
        f.static = n.get("storageClass") == "static"
        f.virtual = bool(n.get("virtual"))
        f.params = [x for x in n.get("inner", ()) if x.get("kind") == "ParmVarDecl"]
        f.ptypes = [short_type(x["type"]["qualType"]) for x in f.params]
        f.body = next((x for x in n.get("inner", ()) if x.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)
        f.inits = [x for x in n.get("inner", ()) if x.get("kind") == "CXXCtorInitializer"]
        qt = n.get("type", {}).get("qualType", "")
        f.rtype = qt.split("(")[0].strip()
        f.ns = scope
        f.line = n.get("loc", {}).get("line") or n.get("loc", {}).get("expansionLoc", {}).get("line")
        prev = n.get("previousDecl")
        f.qual = (scope + "::" if scope else "") + f.name
        if prev and (tu, prev) in self.func_id:
            pf = self.decl_of.get(self.func_id[(tu, prev)])
            if pf:
                f.qual = pf.qual
                f.cls = pf.cls
                f.static = pf.static
                f.virtual = pf.virtual
                f.ns = pf.ns
        self.func_id[(tu, n["id"])] = m
        d = [next((y for y in p.get("inner", ()) if "kind" in y and not y["kind"].endswith("Comment")), None)
             for p in f.params]
        if m not in self.defaults or any(x is not None for x in d):
            self.defaults[m] = [(tu, x) if x is not None else None for x in d]
        self.decl_of.setdefault(m, f)
        if f.kind == "CXXConstructorDecl" and f.cls and not n.get("isImplicit"):
            self.ctors.setdefault(f.cls, {}).setdefault(tuple(f.ptypes), m)
        if f.body is not None:
            old = self.func_by_mangled.get(m)
            if old is None:
                self.func_by_mangled[m] = f

    # ---------------------------------------------------------------- queries
    def find(self, qual, ptypes=None):
        """functions with a body whose qualified name ends with `qual`"""
        out = []
        for m, f in self.func_by_mangled.items():
            if (f.qual == qual or f.qual.endswith("::" + qual)) and (ptypes is None or list(ptypes) == f.ptypes):
                out.append(f)
        return out

    def resolve_record(self, name, scope=""):
        name = strip_type(name).replace("*", "").strip()
        if name in self.records:
            return name
        parts = scope.split("::")
        for i in range(len(parts), -1, -1):
            q = "::".join(parts[:i] + [name]) if i else name
            if q in self.records:
                return q
        c = [q for q in self.records if q.endswith("::" + name)]
        if len(c) == 1:
            return c[0]
        return None

    def bases(self, q):
        r = self.records.get(q)
        out = []
        if r:
            for b in r.bases:
                bq = self.resolve_record(b, q)
                if bq:
                    out.append(bq)
        return out

    def derives(self, q, base):
        return any(b == base or self.derives(b, base) for b in self.bases(q))

    def root_class(self, q):
        while True:
            b = self.bases(q)
            if not b:
                return q
            q = b[0]

    def field(self, q, name):
        """(tu, type, init, owner)"""
        r = self.records.get(q)
        if r and name in r.fields:
            return r.fields[name] + (q,)
        for b in self.bases(q):
            x = self.field(b, name)
            if x:
                return x
        return None

    def all_fields(self, q):
        out = []
        for b in self.bases(q):
            out += self.all_fields(b)
        r = self.records.get(q)
        if r:
            out += [(f, q) for f in r.order]
        return out

    def overriders(self, qual_method):
        return [f for f in self.func_by_mangled.values() if f.name == qual_method]
