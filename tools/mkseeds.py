"""mkseeds.py: writes seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from tools/seeds/*.py
each module: SEEDS = [dict(id, prop, edits=[(file, old, new)], demo="python text", needs, breaks)]"""
import os, sys, json, subprocess, glob, importlib.util, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
CPP_SH = """#!/bin/bash
unset LD_LIBRARY_PATH CMAKE_PREFIX_PATH
P=/opt/placo-venv/lib/python3.12/site-packages/cmeel.prefix
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
D="-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM"
g++ -std=c++17 -O1 -w -DNDEBUG $D -I/repo/src -isystem $P/include/eigen3 -isystem $P/include "$(dirname "$0")/demo.cpp" -o "$T/demo" -L/repo/_build -llibplaco -L$P/lib -leiquadprog -Wl,-rpath,/repo/_build:$P/lib -Wl,-rpath-link,$P/lib || exit 3
"$T/demo"
"""
only = set(sys.argv[1:])
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    sp = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        tmp = tempfile.mkdtemp()
        ok = True
        diff = ""
        byfile = {}
        for fn, old, new in s["edits"]:
            byfile.setdefault(fn, []).append((old, new))
        for fn, es in byfile.items():
            src = open(os.path.join(R, fn), newline="").read()
            out = src
            for old, new in es:
                if "\r\n" in src:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if out.count(old) != 1:
                    print("%s: %d occurrences of %r in %s" % (s["id"], out.count(old), old[:60], fn))
                    ok = False
                    continue
                out = out.replace(old, new)
            for d, t in (("a", src), ("b", out)):
                p = os.path.join(tmp, d, fn)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", newline="").write(t)
            r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + fn, "b/" + fn], cwd=tmp, stdout=subprocess.PIPE)
            diff += r.stdout.decode().replace("a/a/", "a/").replace("b/b/", "b/")
        shutil.rmtree(tmp)
        if not ok:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w", newline="").write(diff)
        if "demo_cpp" in s:
            open(d + "/demo.cpp", "w").write(s["demo_cpp"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(CPP_SH)
        else:
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONPATH=/repo/_build/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nunset LD_LIBRARY_PATH\nexec /opt/placo-venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
