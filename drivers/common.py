"""Bounded runs of the real library (built from /repo's working tree) against independent oracles."""
import sys, os, json, time, traceback
import numpy as np

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
REPO = os.environ.get("VERIF_REPO", "/repo")


DEFS = ["-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30", "-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL", "-DCOAL_HAS_OCTOMAP",
        "-DCOAL_HAVE_OCTOMAP", "-DOCTOMAP_MAJOR_VERSION=1", "-DOCTOMAP_MINOR_VERSION=10", "-DOCTOMAP_PATCH_VERSION=0",
        "-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION", "-DPINOCCHIO_WITH_HPP_FCL", "-DPINOCCHIO_WITH_URDFDOM"]


class Rng:
    """random generator whose normal draws also contain special values: zeros, ones, small and larger numbers"""
    def __init__(self, seed):
        self.g = np.random.default_rng(seed)

    def __getattr__(self, k):
        return getattr(self.g, k)

    def special(self, x):
        k = self.g.integers(0, 7)
        return (0., 1., -1., x * 1e-3, x * 10, float(np.round(x * 2)), x)[k]

    def normal(self, *a, size=None, **kw):
        v = self.g.normal(*a, size=size, **kw)
        if self.g.random() < .75:
            return v
        if size is None:
            return self.special(v)
        out = np.array(v)
        for i in np.ndindex(out.shape):
            if self.g.random() < .5:
                out[i] = self.special(out[i])
        return out


class Fail(Exception):
    pass


class Driver:
    def __init__(self, rule, budget=None):
        self.out = sys.argv[1] if len(sys.argv) > 1 else "/dev/null"
        self.rng = Rng(SEED)
        self.rule = rule
        self.cases = 0
        self.failures = []
        self.t0 = time.time()
        self.budget = budget or (60 if TIER == "quick" else 400)
        self.tests = []
        self.notes = []

    def n(self, quick, thorough=None):
        return quick * 4 if TIER == "quick" else max(thorough or 0, quick * 20)

    def test(self, f):
        self.tests.append(f)
        return f

    def case(self, what):
        """announce a case (so that a crash names it)"""
        self.cases += 1
        self.cur = what
        if self.out != "/dev/null":
            with open(self.out + ".case", "w") as f:
                f.write(str(what))

    def fail(self, what, finding=None, /, **data):
        self.failures.append({"case": str(self.cur), "what": what, "finding": finding,
                              **{k: show(v) for k, v in data.items()}})
        if len(self.failures) > 20:
            raise Fail()

    def eq(self, got, want, what, tol=1e-9, /, **data):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            if got.size != want.size:
                self.fail(what + ": shape", None, **dict(data, got=got, want=want))
                return False
            got = got.reshape(want.shape)
        if want.size and not np.all(np.abs(got - want) <= tol * (1 + np.abs(want))):
            self.fail(what, None, **dict(data, got=got, want=want))
            return False
        return True

    def true(self, c, what, /, **data):
        if not c:
            self.fail(what, **data)
            return False
        return True

    def throws(self, f, what, /, **data):
        try:
            f()
        except TypeError:
            raise       # a call the bindings do not accept says nothing about the library
        except Exception:
            return True
        self.fail(what + ": no exception", **data)
        return False

    def cpp(self, name, args=()):
        """compile drivers/cpp/<name>.cpp against the library just built and run it: lines `CASES n`, `CASE what`, `FAIL what`"""
        import subprocess, tempfile, shutil
        here = os.path.dirname(os.path.abspath(__file__))
        P = "/opt/placo-venv/lib/python3.12/site-packages/cmeel.prefix"
        tmp = tempfile.mkdtemp(prefix="verifcpp")
        try:
            exe = os.path.join(tmp, "drv")
            env = {k: v for k, v in os.environ.items() if k not in ("LD_LIBRARY_PATH", "CPATH", "LIBRARY_PATH")}
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG"] + DEFS + ["-I" + REPO + "/src", "-I" + here + "/cpp", "-isystem", P + "/include/eigen3",
                   "-isystem", P + "/include", here + "/cpp/" + name + ".cpp", "-o", exe, "-L" + REPO + "/_build", "-llibplaco", "-L" + P + "/lib",
                   "-leiquadprog", "-Wl,-rpath," + REPO + "/_build:" + P + "/lib", "-Wl,-rpath-link," + P + "/lib"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode != 0:
                # an interface change is not a behaviour of the property: reported, not a failure
                self.notes.append("C++ driver %s does not compile: %s" % (name, r.stdout[-800:]))
                print("C++ driver %s does not compile\n%s" % (name, r.stdout[-1500:]))
                return
            r = subprocess.run([exe, str(SEED), TIER] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=250, env=env)
            cur = name
            for l in r.stdout.splitlines():
                if l.startswith("CASES "):
                    self.cases += int(l[6:])
                elif l.startswith("CASE "):
                    cur = l[5:]
                elif l.startswith("FAIL "):
                    self.cur = name + ": " + cur
                    self.fail(l[5:])
            if r.returncode not in (0, 1):
                self.cur = name + ": " + cur
                self.fail("C++ driver ended with %s: %s" % (r.returncode, r.stdout[-300:]))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def run(self):
        self.cur = ""
        try:
            for t in self.tests:
                name = t.__name__
                try:
                    t()
                except Fail:
                    raise
                except Exception as e:
                    self.failures.append({"case": str(self.cur), "what": "%s: unexpected %s: %s" % (name, type(e).__name__, str(e)[:300]),
                                          "finding": None, "trace": traceback.format_exc()[-800:]})
        except Fail:
            pass
        rep = {"cases": self.cases, "failures": self.failures, "rule": self.rule, "notes": self.notes, "wall_s": time.time() - self.t0}
        with open(self.out, "w") as f:
            json.dump(rep, f, indent=1)
        for x in self.failures[:5]:
            print(json.dumps(x)[:600])
        print("cases %d failures %d" % (self.cases, len(self.failures)))
        sys.exit(1 if self.failures else 0)


def show(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return str(v)
