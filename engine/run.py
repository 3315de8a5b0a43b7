"""Check of one property: extract the functions from /repo, verify them against their contracts, report."""
import sys, os, time, json, importlib, subprocess, multiprocessing as mp, threading, traceback, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "contracts")]
import front
from terms import Unsupported
import terms as T
import prove as PV
from contract import REG, Verifier, prove_all
from table import PROPS

REPO = front.REPO
VENV = "/opt/placo-venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

TRUSTED = [
    "clang 18 front end (the JSON AST of /repo's current sources is the verified text)",
    "the verification-condition generator in /verif/engine (symbolic executor, closed-form loop invariants are re-verified by base/step obligations)",
    "z3 4.x / polynomial normaliser of /verif/engine/terms.py",
    "semantics given to Eigen and std containers in /verif/engine/calls.py",
    "machine arithmetic treated as mathematical: double as real numbers, int/long as unbounded integers, no NaN/inf",
]

_prog = None
_cfg = None


def _task(ident):
    """verify one contract (in a forked worker)"""
    t0 = time.time()
    c = next(x for x in REG.all() if x.ident() == ident)
    out = {"contract": ident, "status": "proved", "obligations": 0, "discharged": 0, "failed": [], "used": [],
           "inlined": [], "externs": [], "assumptions": [], "back_ends": {}, "solver_s": 0.0, "samples": [], "trusted": c.trusted}
    fs = [f for f in _prog.func_by_mangled.values() if f.qual == c.qual and (c.ptypes is None or list(c.ptypes) == list(f.ptypes))]
    if not fs:
        out["status"] = "missing"
        out["reason"] = "no function of this name and signature in the extracted sources"
        return out
    if len(fs) > 1 and c.ptypes is not None:
        fs = fs[:1]
    try:
        for f in fs:
            ex = Verifier(_prog, REG, dict(_cfg.get("hooks", {})))
            try:
                ex.verify(f, c)
            finally:
                out["used"] = sorted(set(out["used"]) | ex.used_contracts)
                out["inlined"] = sorted(set(out["inlined"]) | ex.inlined)
                out["externs"] = sorted(set(out["externs"]) | ex.externs)
                out["assumptions"] = sorted(set(out["assumptions"]) | ex.assumptions)
            prove_all(ex, _cfg.get("seconds", 20), _cfg.get("total", 240))
            if not ex.obligs:
                out["status"] = "unknown"
                out["reason"] = "no obligation was generated"
            for o in ex.obligs:
                r = o.result
                out["obligations"] += 1
                out["solver_s"] += r.time
                if r.status == "proved":
                    out["discharged"] += 1
                    out["back_ends"][r.by] = out["back_ends"].get(r.by, 0) + 1
                    if len(out["samples"]) < 3 and o.goal is not T.TRUE:
                        out["samples"].append({"obligation": o.name, "kind": o.kind, "goal": str(o.goal)[:300], "by": r.by})
                else:
                    out["failed"].append({"obligation": "%s: %s" % (f.qual, o.name), "kind": o.kind, "line": o.where,
                                          "status": r.status, "goal": str(o.goal)[:600],
                                          "hypotheses": [str(x)[:200] for x in o.facts][:20], "detail": str(r.detail)[:1500]})
        if out["failed"]:
            out["status"] = "refuted" if any(x["status"] == "refuted" for x in out["failed"]) else "unknown"
    except Unsupported as e:
        out["status"] = "unsupported"
        out["reason"] = str(e)[:300]
    except RecursionError:
        out["status"] = "unsupported"
        out["reason"] = "recursion limit"
    except Exception as e:
        out["status"] = "unsupported"
        out["reason"] = "internal: %s: %s" % (type(e).__name__, str(e)[:200])
        out["trace"] = traceback.format_exc()[-1500:]
    out["time"] = time.time() - t0
    return out


def verify_property(pid, hurry=lambda: 0):
    """hurry(): the time at which the bounded run found a failing input (0: none); the proof then gets 40 s more to
    name the failed obligation"""
    global _prog, _cfg
    cfg = PROPS[pid]
    _cfg = cfg
    for m in cfg["mods"]:
        importlib.import_module(m)
    if "hooks_mod" in cfg:
        _cfg = dict(cfg, hooks=importlib.import_module(cfg["hooks_mod"]).HOOKS)
    _prog = front.Program(cfg["files"]).load()
    results = {}
    todo = [c.ident() for c in REG.all(pid)]
    sys.setrecursionlimit(20000)
    ctx = mp.get_context("fork")
    procs = max(2, min(8, os.cpu_count() or 4))
    deadline = time.time() + cfg.get("budget", 400 if TIER == "quick" else 2400)
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        pend = {}
        seen = set()

        def submit(i):
            if i in seen:
                return
            seen.add(i)
            c = next(x for x in REG.all() if x.ident() == i)
            if c.trusted:
                return
            pend[i] = pool.apply_async(_task, (i,))
        for i in todo:
            submit(i)
        while pend:
            for i in list(pend):
                r = pend[i]
                if r.ready():
                    del pend[i]
                    try:
                        x = r.get()
                    except Exception as e:
                        x = {"contract": i, "status": "unsupported", "reason": str(e), "obligations": 0, "discharged": 0,
                             "failed": [], "used": [], "inlined": [], "externs": [], "assumptions": [], "back_ends": {},
                             "solver_s": 0, "samples": []}
                    results[i] = x
                    for u in x["used"]:
                        submit(u)
            if hurry() and time.time() > hurry() + 40:
                deadline = 0
            if time.time() > deadline:
                for i in pend:
                    results[i] = {"contract": i, "status": "unknown", "reason": "time budget", "obligations": 0,
                                  "discharged": 0, "failed": [], "used": [], "inlined": [], "externs": [],
                                  "assumptions": [], "back_ends": {}, "solver_s": 0, "samples": []}
                pool.terminate()
                break
            time.sleep(0.02)
    return results, sorted(i for i in seen if next(x for x in REG.all() if x.ident() == i).trusted)


class Build(threading.Thread):
    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.rc, self.log, self.s = None, "", 0.0

    def run(self):
        t0 = time.time()
        env = dict(os.environ)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        self.rc, self.log, self.s = r.returncode, r.stdout[-3000:], time.time() - t0


def run_driver(pid, tier, seed, extra=(), tag="", limit=None):
    """bounded run on the real build -> (rc, report)"""
    script = os.path.join(VERIF, "drivers", PROPS[pid].get("driver", pid.lower()) + ".py")
    if not os.path.exists(script):
        return None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    outf = os.path.join(VERIF, "replays", "%s.driver%s.json" % (pid, tag))
    for f in (outf, outf + ".case"):
        if os.path.exists(f):
            os.unlink(f)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LD_LIBRARY_PATH")}
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=os.path.join(REPO, "_build/lib/python3.12/site-packages") + ":" + os.path.join(VERIF, "drivers"),
               VERIF_TIER=tier, VERIF_SEED=str(seed))
    t0 = time.time()
    try:
        r = subprocess.run([VENV, script, outf] + list(extra), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=limit or (300 if tier == "quick" else 1500))
        rc, log = r.returncode, r.stdout[-3000:]
    except subprocess.TimeoutExpired:
        rc, log = "timeout", ""
    rep = {"cases": 0, "failures": []}
    if os.path.exists(outf):
        try:
            rep = json.load(open(outf))
        except ValueError:
            pass
    rep["rc"], rep["log"], rep["wall_s"] = rc, log, time.time() - t0
    if rc not in (0, 1, "timeout") and not rep["failures"]:
        case = open(outf + ".case").read() if os.path.exists(outf + ".case") else ""
        if isinstance(rc, int) and rc < 0:
            rep["failures"] = [{"case": case, "what": "the process died with signal %d" % -rc}]
    return rep


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l)
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    cfg = PROPS[pid]
    build = Build()
    build.start()
    kf = known(pid)
    kids = [l.split()[2] for l in kf]
    box = {"drv": None, "t": 0}

    def bounded_run():
        build.join()
        if build.rc == 0:
            box["drv"] = run_driver(pid, TIER, SEED)
            if box["drv"] and any(x.get("finding") not in kids for x in box["drv"]["failures"]):
                box["t"] = time.time()
    side = threading.Thread(target=bounded_run, daemon=True)
    side.start()
    results, trusted = verify_property(pid, lambda: box["t"])
    tproof = time.time() - t0
    side.join()
    drv = box["drv"]
    fails = []
    if drv:
        fails = [x for x in drv["failures"] if x.get("finding") not in kids]
    status = {}
    for i, r in results.items():
        status.setdefault(r["status"], []).append(i)
    refuted = [r for r in results.values() if r["status"] == "refuted"]
    if any(r["status"] != "proved" for r in results.values()) and not fails and build.rc == 0 and drv is not None:
        # an obligation is not discharged: search for a failing input with more cases and other seeds
        limit = max(60, min(300, 780 - (time.time() - t0)))
        with cf.ThreadPoolExecutor(6) as tp:
            for d2 in tp.map(lambda k: run_driver(pid, "thorough", SEED + k, tag=".x%d" % k, limit=limit), range(1, 7)):
                f2 = [x for x in d2["failures"] if x.get("finding") not in kids]
                if f2 and not fails:
                    fails, drv = f2, d2
    for l in kf:
        print(l)
    nobl = sum(r["obligations"] for r in results.values())
    ndis = sum(r["discharged"] for r in results.values())
    be = {}
    for r in results.values():
        for k, v in r["back_ends"].items():
            be[k] = be.get(k, 0) + v
    bounded = {i: results[i].get("reason", "; ".join(x["obligation"] for x in results[i]["failed"][:3]))
               for s in ("unknown", "unsupported", "missing") for i in status.get(s, ())}
    bounded.update(cfg.get("bounded", {}))
    viol = bool(fails or refuted)
    samples = []
    for r in results.values():
        for s in r["samples"][:1]:
            samples.append(dict(s, function=r["contract"]))
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": "python3-vt engine/run.py %s" % pid,
            "trusted_base": TRUSTED + cfg.get("trusted", []),
            "functions_under_contract": sorted(status.get("proved", [])),
            "functions_bounded_not_proved": bounded,
            "functions_refuted": sorted(status.get("refuted", [])),
            "assumed_contracts": trusted,
            "external_functions": sorted({e for r in results.values() for e in r["externs"]}),
            "inlined_functions": sorted({e for r in results.values() for e in r["inlined"]}),
            "back_ends": be, "solver_s": round(sum(r["solver_s"] for r in results.values()), 2),
            "proof_wall_s": round(tproof, 2), "build_wall_s": round(build.s, 2),
            "samples": samples[:8],
            "bounded_cases_on_real_build": drv["cases"] if drv else 0,
            "bounded_rule": (drv or {}).get("rule", ""),
            "bounded_wall_s": round(drv["wall_s"], 2) if drv else 0,
        },
        "assumptions": sorted({e for r in results.values() for e in r["assumptions"]}) + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": int(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, r in sorted(results.items()):
        if r["status"] != "proved" or "-v" in sys.argv:
            print("%-11s %s %s" % (r["status"], i, r.get("reason", "")))
            for x in r["failed"][:4]:
                print("      %s [%s] line %s: %s" % (x["obligation"], x["kind"], x["line"], x["status"]))
            if "-v" in sys.argv and r.get("trace"):
                print(r["trace"])
    print("%s: %d/%d obligations discharged, %d functions under contract, %d bounded; bounded run: %s cases; %.1fs (proof %.1fs, build %.1fs, driver %.1fs)" % (
        pid, ndis, nobl, len(status.get("proved", [])), len(bounded), drv["cases"] if drv else "no", time.time() - t0, tproof, build.s,
        drv["wall_s"] if drv else 0))
    if build.rc != 0:
        print("build of /repo failed:\n" + build.log)
        if not refuted:
            sys.exit(2)
    if drv and drv["rc"] not in (0, 1) and not drv["failures"]:
        print("driver ended with %s\n%s" % (drv["rc"], drv["log"]))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", pid + ".json")
        json.dump({"property": pid, "failing_inputs": fails[:10],
                   "failed_obligations": [x for r in refuted for x in r["failed"]][:20],
                   "replay_cmd": "bash /opt/vp/build.sh && PYTHONPATH=%s:%s VERIF_SEED=%d VERIF_TIER=%s %s %s /tmp/out.json" % (
                       REPO + "/_build/lib/python3.12/site-packages", VERIF + "/drivers", SEED, TIER, VENV,
                       VERIF + "/drivers/" + cfg.get("driver", pid.lower()) + ".py") if fails else None},
                  open(rp, "w"), indent=1)
        for x in fails[:3]:
            print("failing input: " + json.dumps(x)[:600])
        for r in refuted:
            for x in r["failed"][:2]:
                print("failed obligation: %s (%s)" % (x["obligation"], x["status"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if fails else " no-failing-input-found"))
        sys.exit(1)
    if drv is None and bounded:
        print("no bounded stand-in available for: " + ", ".join(bounded))
    sys.exit(0)


if __name__ == "__main__":
    main()
