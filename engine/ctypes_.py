"""C++ type strings and symbolic values of a type."""
import re
from terms import *
import terms as T
from values import *
from front import strip_type

INTS = {"int", "long", "short", "char", "long long", "Eigen::Index", "Index", "signed char", "ptrdiff_t",
        "std::ptrdiff_t", "Eigen::DenseIndex"}
UINTS = {"unsigned long", "size_t", "std::size_t", "unsigned int", "unsigned", "size_type", "unsigned char",
         "pinocchio::FrameIndex", "FrameIndex", "pinocchio::JointIndex", "JointIndex", "pinocchio::Index",
         "unsigned long long", "pinocchio::PairIndex", "PairIndex", "uint64_t"}
MATS = {"MatrixXd": (-1, -1), "VectorXd": (-1, 1), "RowVectorXd": (1, -1), "Vector2d": (2, 1), "Vector3d": (3, 1),
        "Vector4d": (4, 1), "Matrix2d": (2, 2), "Matrix3d": (3, 3), "Matrix4d": (4, 4), "Matrix3Xd": (3, -1),
        "Matrix2Xd": (2, -1), "VectorXi": (-1, 1), "Matrix6d": (6, 6), "Vector6d": (6, 1), "Matrix6Xd": (6, -1),
        "Vector3": (3, 1), "Matrix3": (3, 3)}


def norm_type(t):
    t = t.strip()
    t = re.sub(r"\b(const|volatile|class|struct|enum|typename|mutable)\b\s*", "", t)
    t = re.sub(r"\s+", " ", t).strip()
    return t


def targs(t):
    """split top-level template arguments of Name<...>"""
    i = t.find("<")
    if i < 0:
        return t, []
    depth = 0
    out, cur = [], ""
    for ch in t[i + 1:]:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            if depth == 0 and ch == ">":
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return t[:i].strip(), out


def mat_dims(t):
    """(rows, cols, int?) of an Eigen matrix type, -1 = dynamic; None when not one"""
    t = norm_type(t).rstrip("&* ").strip()
    b = t.split("<")[0].split("::")[-1].strip() if "<" in t else t.split("::")[-1]
    if "<" not in t:
        if b in MATS and ("::" not in t or "Eigen" in t or "pinocchio" in t or "SE3" in t):
            return MATS[b] + (b.endswith("i"),)
        return None
    name, a = targs(t)
    name = name.split("::")[-1]
    if name in ("Matrix", "Array") and len(a) >= 3:
        try:
            return int(a[1]), int(a[2]), a[0] == "int"
        except ValueError:
            return None
    return None


def is_affine(t):
    t = norm_type(t).rstrip("& ").strip()
    return t.split("::")[-1] in ("Affine3d", "Isometry3d") or re.match(r"(Eigen::)?Transform<double, 3, [12]", t) is not None


class Types:
    def __init__(self, prog):
        self.prog = prog
        ExtV.types = self

    def scalar_kind(self, t):
        t = norm_type(t).rstrip("& ").strip()
        if t in ("double", "float", "long double", "Scalar", "RealScalar"):
            return "R"
        if t == "bool":
            return "B"
        if t in INTS or t in UINTS:
            return "I"
        if self.is_enum(t):
            return "I"
        return None

    def is_unsigned(self, t):
        return norm_type(t).rstrip("& ").strip() in UINTS

    def is_enum(self, t):
        t = norm_type(t).rstrip("& ").strip()
        if t in ("pinocchio::ReferenceFrame", "ReferenceFrame", "pinocchio::GeometryType"):
            return True
        e = self.prog.enums
        last = t.split("::")[-1]
        return t in e or any(x == t or x.endswith("::" + t) for x in e.get("#" + last, ()))

    def is_string(self, t):
        t = norm_type(t).rstrip("& ").strip()
        return t in ("std::string", "string") or t.startswith(("std::basic_string<", "basic_string<", "std::__cxx11::basic_string<"))

    def container(self, t):
        t = norm_type(t).rstrip("& ").strip()
        if "<" not in t:
            return None
        name, a = targs(t)
        name = name.split("::")[-1]
        if name in ("vector", "map", "set", "pair", "list", "aligned_map", "unordered_map", "array", "initializer_list", "tuple"):
            return name, a
        return None

    # ------------------------------------------------------------ symbolic
    def sym(self, t, path, idx=(), scope=""):
        """a fully symbolic value of type t named path, parameterised by idx"""
        t0 = norm_type(t)
        t = t0.rstrip("& ").strip()
        idx = tuple(idx)
        if t.endswith("*") or t0.endswith("&"):
            base = t.rstrip("* ").strip()
            if t.endswith("*") or self.record(base, scope):
                return app(path, idx, "Obj")
        k = self.scalar_kind(t)
        if k == "B":
            return bapp(path, idx)
        if k:
            if self.is_unsigned(t):
                T.NONNEG.add(path)
            return app(path, idx, k)
        if self.is_string(t):
            return app(path, idx, "Str")
        d = mat_dims(t)
        if d:
            r = P(d[0]) if d[0] >= 0 else app(path + ".rows", idx, "I")
            c = P(d[1]) if d[1] >= 0 else app(path + ".cols", idx, "I")
            s = "I" if d[2] else "R"
            return Mat(r, c, lambda i, j: app(path, idx + (i, j), s))
        if is_affine(t):
            return StructV("Affine3d", None,
                           linear=Mat(3, 3, lambda i, j: app(path + ".linear", idx + (i, j))),
                           translation=Mat(3, 1, lambda i, j: app(path + ".translation", idx + (i, j))))
        c = self.container(t)
        if c:
            n, a = c
            if n in ("vector", "list", "initializer_list"):
                return SeqV(app(path + ".len", idx, "I"),
                            lambda m: self.sym(a[0], path + "[]", idx + (m,), scope), a[0])
            if n == "array":
                return SeqV(P(int(a[1])), lambda m: self.sym(a[0], path + "[]", idx + (m,), scope), a[0])
            if n == "pair":
                return StructV("pair", lambda f: self.sym(a[0 if f == "first" else 1], path + "." + f, idx, scope))
            if n in ("map", "aligned_map", "unordered_map"):
                return MapV(lambda key: bapp(path + ".has", idx + (key,)),
                            FamV(lambda key: self.sym(a[1], path + "@", idx + (key,), scope), a[1]),
                            self.enum_of(path, idx, a[0], scope), a[0], a[1])
            if n == "set":
                return MapV(lambda key: bapp(path + ".has", idx + (key,)), None,
                            self.enum_of(path, idx, a[0], scope), a[0], None)
        q = self.record(t, scope)
        if q:
            return self.sym_record(q, path, idx)
        return ExtV(t, path, idx)

    def enum_of(self, path, idx, kt, scope):
        n = app(path + ".len", idx, "I")
        return (n, lambda m: self.sym(kt, path + ".key", idx + (m,), scope),
                lambda key: app(path + ".idx", idx + (key,), "I"))

    def record(self, t, scope=""):
        t = norm_type(t).rstrip("& ").strip()
        return self.prog.resolve_record(t, scope)

    def sym_record(self, q, path, idx=()):
        def get(f):
            x = self.field_any(q, f)
            if x is None:
                raise Unsupported("no field %s in %s" % (f, q))
            tt = x[1]
            ty = tt.get("desugaredQualType", tt["qualType"])
            # keep the alias spelling when it names a container/record we know
            return self.sym(ty, path + "." + f, idx, x[3])
        return StructV(q, get)

    def field_any(self, q, f):
        x = self.prog.field(q, f)
        if x:
            return x
        for r in self.prog.records:
            if r != q and self.prog.derives(r, q):
                x = self.prog.field(r, f)
                if x:
                    return x
        return None


class ExtV(StructV):
    """object of a class outside placo: fields appear on demand (typed at the access)"""
    __slots__ = ("path", "idx", "_ty")
    types = None

    def __init__(self, tname, path, idx=(), **f):
        StructV.__init__(self, tname, None, **f)
        self.path, self.idx = path, tuple(idx)
        self._ty = {}

    def get(self, f):
        if f == "key" and f not in self._f:
            # identity of the object's (opaque) contents
            import terms
            return terms.app(self.path + ".key", self.idx)
        return StructV.get(self, f)

    def with_(self, **kw):
        s = ExtV(self.tname, self.path, self.idx)
        s._f = dict(self._f)
        s._f.update(kw)
        s._ty = dict(self._ty)
        return s

    def field(self, f, ty=None, like=None):
        """value of a field, written or not"""
        if f in self._f:
            return self._f[f]
        ty = ty or self._ty.get(f)
        if ty is None and isinstance(like, Mat) and like.dims()[1] == 1:
            ty = "Eigen::VectorXd"
        if ty is None or ExtV.types is None:
            raise Unsupported("field %s of an external object" % f)
        return ExtV.types.sym(ty, self.path + "." + f, self.idx)

    def merged(self, c, b):
        """ite(c, self, b)"""
        if self.path != b.path or len(self.idx) != len(b.idx):
            return None
        s = ExtV(self.tname, self.path, tuple(ite(c, x, y) for x, y in zip(self.idx, b.idx)))
        s._ty = {**self._ty, **b._ty}
        for f in sorted(set(self._f) | set(b._f)):
            t, k = s._ty.get(f), self._f.get(f, b._f.get(f))
            s._f[f] = merge(c, self.field(f, t, k), b.field(f, t, k))
        return s

    def __getattr__(self, n):
        if n in ("path", "idx", "tname", "_f", "_get", "_ty", "types"):
            raise AttributeError(n)
        return StructV.__getattr__(self, n)
