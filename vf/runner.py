"""
vt -m vf.runner PXX           run one property's check
vt -m vf.runner --replay F    re-run one recorded failing input on the tree

Exit 0 held, 1 violation, other: error of the check.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Proof:
    def __init__(self, name, fn, *, functions=(), max_paths=400,
                 timeout_ms=20000, min_obligations=1, thorough=False,
                 budget_s=240, bounded=None):
        self.name = name
        self.fn = fn
        self.functions = list(functions)
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.min_obligations = min_obligations
        self.thorough = thorough
        self.budget_s = budget_s
        self.bounded = bounded      # text of the bound if not unbounded


# ---------------------------------------------------------------------------
# deductive part: one worker process per group of proofs
# ---------------------------------------------------------------------------
def prove_worker(pid, index, count, out):
    """runs inside the prover interpreter"""
    from . import core, loader, models
    mod = importlib.import_module(f"checks.{pid.lower()}")
    for spec in getattr(mod, "LOOPS", ()):
        loader.LOOP_SPECS.add(spec)
    res = dict(proofs=[], error=None, sources={})
    try:
        pkg = loader.load()
    except BaseException as e:
        res["error"] = "load: " + "".join(
            traceback.format_exception_only(type(e), e)).strip()
        res["trace"] = traceback.format_exc()[-2000:]
        with open(out, "w") as f:
            json.dump(res, f)
        loader.cleanup()
        os._exit(0)
    try:
        proofs = [p for p in mod.proofs(pkg)
                  if not p.thorough or tier() == "thorough"]
    except Exception:
        proofs = []
        res["error"] = "proof set-up: " + traceback.format_exc()[-1500:]
    mine = [p for i, p in enumerate(proofs) if i % count == index]
    signal.signal(signal.SIGALRM, overtime)
    saved = time.perf_counter()
    watch_functions()
    for p in mine:
        stats = {}
        if tier() == "thorough":
            stats["crosscheck"] = []
        t0 = time.perf_counter()
        try:
            signal.setitimer(signal.ITIMER_REAL, p.budget_s + 15)
            obs, meta = core.explore(
                p.fn, name=p.name, max_paths=p.max_paths,
                timeout_ms=p.timeout_ms, stats=stats,
                deadline=time.monotonic() + p.budget_s,
            )
        except (Exception, Overtime):
            obs, meta = [], dict(
                paths=0, infeasible=0, notes=set(), unsupported=[
                    f"{p.name}: harness: " + traceback.format_exc()[-900:]
                ])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        cross = crosscheck(stats.pop("crosscheck", None) or [])
        covers = [o for o in obs if o["status"].startswith("cover")]
        obs = [o for o in obs if not o["status"].startswith("cover")]
        res["proofs"].append(dict(
            name=p.name, functions=p.functions, obligations=obs,
            covers=[o["name"] for o in covers if o["status"] == "cover"],
            paths=meta["paths"], infeasible=meta["infeasible"],
            unsupported=meta["unsupported"], notes=sorted(meta["notes"]),
            stats=stats, wall_s=round(time.perf_counter() - t0, 3),
            min_obligations=p.min_obligations, bounded=p.bounded,
            cross=cross,
        ))
        if time.perf_counter() - saved > 20:
            save(res, out)
            saved = time.perf_counter()
    save(res, out)
    loader.cleanup()
    sys.stdout.flush()
    os._exit(0)


RAN = set()


def watch_functions():
    """names of the package's functions whose bodies run in the proofs"""
    mon = sys.monitoring

    def started(code, _):
        path = code.co_filename
        if threading.current_thread() is not threading.main_thread():
            return
        if "/aiootp/" in path and "<module>" != code.co_name:
            RAN.add(path.rsplit("/aiootp/", 1)[1] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.use_tool_id(mon.PROFILER_ID, "vf")
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, started)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


class Overtime(BaseException):
    pass


def overtime(*_):
    raise Overtime


def save(res, out):
    from . import loader
    res["sources"] = loader.sources
    res["ran"] = sorted(RAN)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


def crosscheck(items, limit=60):
    """second back end: cvc5 on the same obligations (thorough tier)"""
    if not items:
        return None
    import cvc5
    n = dict(unsat=0, unknown=0, sat=0)
    for name, text in items[:limit]:
        try:
            tm = cvc5.TermManager()
            s = cvc5.Solver(tm)
            s.setOption("tlimit-per", "4000")
            s.setLogic("ALL")
            p = cvc5.InputParser(s)
            p.setStringInput(
                cvc5.InputLanguage.SMT_LIB_2_6, text, "ob")
            sm = p.getSymbolManager()
            r = "unknown"
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                o = cmd.invoke(s, sm).strip()
                if o in ("sat", "unsat", "unknown"):
                    r = o
            n[r] += 1
        except Exception:
            n["unknown"] += 1
    return n


# ---------------------------------------------------------------------------
def scratch_tree():
    d = tempfile.mkdtemp(prefix="vf-tree-")
    shutil.copytree(
        os.path.join(REPO, "aiootp"), os.path.join(d, "aiootp"),
        ignore=shutil.ignore_patterns("__pycache__", "db", "*.pyc"),
    )
    os.makedirs(os.path.join(d, "aiootp", "db"))
    return d


def rm_scratch(d):
    if d and os.path.dirname(d) == tempfile.gettempdir():
        subprocess.run(["chmod", "-R", "u+rwX", d], check=False)
        shutil.rmtree(d, ignore_errors=True)


def concrete_env(tree):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env["PYTHONPATH"] = tree + ":" + VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["VF_TREE"] = tree
    return env


def start_concrete(pid, tree, hints, out, budget):
    hf = out + ".hints"
    with open(hf, "w") as f:
        json.dump(hints, f)
    return subprocess.Popen(
        [PY, "-m", "vf.concrete", pid, out, hf, str(budget)],
        cwd=VERIF, env=concrete_env(tree), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, start_new_session=True,
    )


def finish_concrete(proc, out, limit):
    try:
        text, _ = proc.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.communicate()
        return dict(cases=0, failures=[], error="timed out")
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        return dict(cases=0, failures=[], error=(
            text.decode(errors="replace")[-1500:]))


def known_findings(pid):
    """{case key prefix: text} of open findings of this property"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"open: property={pid} "):
                    rest = line[len(f"open: property={pid} "):]
                    key, _, text = rest.partition(" ")
                    out[key] = text
    return out


def main(pid):
    t0 = time.perf_counter()
    sys.path.insert(0, VERIF)
    meta = json.loads(
        subprocess.run(
            [sys.executable, "-c",
             "import json,importlib;m=importlib.import_module("
             f"'checks.{pid.lower()}');"
             "print(json.dumps(dict(level=m.LEVEL,"
             "workers=getattr(m,'WORKERS',2),"
             "concrete=getattr(m,'CONCRETE',True),"
             "budget=getattr(m,'BUDGET',60),"
             "assume=getattr(m,'ASSUMPTIONS',[]))))"],
            cwd=VERIF, check=True, capture_output=True,
            text=True).stdout)
    work = tempfile.mkdtemp(prefix=f"vf-run-{pid}-")
    tree = scratch_tree()
    try:
        return _main(pid, meta, work, tree, t0)
    finally:
        rm_scratch(tree)
        rm_scratch(work)


def _main(pid, meta, work, tree, t0):
    budget = meta["budget"] * (4 if tier() == "thorough" else 1)
    conc = None
    if meta["concrete"]:
        cout = os.path.join(work, "concrete.json")
        conc = start_concrete(pid, tree, {}, cout, budget)
    # provers
    procs = []
    n = meta["workers"]
    for i in range(n):
        out = os.path.join(work, f"proof{i}.json")
        procs.append((out, subprocess.Popen(
            [sys.executable, "-m", "vf.runner", "--worker", pid, str(i),
             str(n), out],
            cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            start_new_session=True)))
    proofs, errors, sources = [], [], {}
    limit = 420 if tier() == "quick" else 700
    for out, p in procs:
        left = max(5, limit - (time.perf_counter() - t0))
        try:
            text, _ = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errors.append("prover worker timed out")
            text = b""
            if not os.path.exists(out):
                continue
        try:
            with open(out) as f:
                r = json.load(f)
        except Exception:
            errors.append("prover worker died: "
                          + text.decode(errors="replace")[-1500:])
            continue
        if r["error"]:
            errors.append(r["error"] + "\n" + r.get("trace", ""))
        proofs.extend(r["proofs"])
        sources.update(r["sources"])
        meta.setdefault("ran", []).extend(r.get("ran", ()))

    refuted = [o for p in proofs for o in p["obligations"]
               if o["status"] == "refuted"]
    cres = dict(cases=0, failures=[], error=None)
    if conc is not None:
        left = max(20, min(600, budget * 3 + 60))
        cres = finish_concrete(conc, cout, left)
    known = known_findings(pid)

    def found():
        return [f for f in cres["failures"] if f["case"] not in known]

    # replay the counter-models
    if refuted and meta["concrete"] and not found():
        hints = dict(models=[
            dict(name=o["name"], proof=o["proof"], model=o.get("model"),
                 info=o.get("info")) for o in refuted[:20]])
        hout = os.path.join(work, "hints.json")
        hp = start_concrete(pid, tree, hints, hout, budget)
        r2 = finish_concrete(hp, hout, left)
        cres["failures"] += r2["failures"]
        cres["cases"] += r2["cases"]
        cres["hinted"] = True

    # without a failing input, a refutation counts only if the generator
    # followed every path of that proof
    partial = {p["name"] for p in proofs if p["unsupported"]}
    if not found():
        meta["inconclusive"] = [o for o in refuted if o["proof"] in partial]
        refuted = [o for o in refuted if o["proof"] not in partial]

    failures = found()
    kf = [f for f in cres["failures"] if f["case"] in known]
    return report(pid, meta, proofs, errors, sources, refuted, cres,
                  failures, kf, known, t0)


def dotted(name):
    return name.replace(".py", "").replace("/", ".").replace(
        ":", ".").replace("..", ".").removeprefix("aiootp.")


def declared(ran, funcs):
    """is this function (of one of the files) named by some proof"""
    ran = dotted(ran) + "."
    for f in funcs:
        head, _, tail = f.partition("{")
        tail, _, rest = tail.partition("}")
        for part in tail.split(","):
            if ran.startswith(dotted(head + part.strip() + rest) + "."):
                return True
    return False


def report(pid, meta, proofs, errors, sources, refuted, cres, failures, kf,
           known, t0):
    obs = [o for p in proofs if not p["bounded"] for o in p["obligations"]]
    bobs = [o for p in proofs if p["bounded"] for o in p["obligations"]]
    dis = [o for o in obs if o["status"] == "discharged"]
    unknown = [o["name"] for o in obs if o["status"] == "unknown"]
    unsupported = [u for p in proofs for u in p["unsupported"]]
    thin = [p["name"] for p in proofs
            if len(p["obligations"]) < p["min_obligations"]
            and not p["unsupported"]]
    funcs = sorted({f for p in proofs for f in p["functions"]})
    ran = sorted(set(meta.get("ran", ())))
    own = [f for f in ran if declared(f, funcs)]
    backends = {}
    for o in dis:
        backends[o["by"]] = backends.get(o["by"], 0) + 1
    notes = sorted({n for p in proofs for n in p["notes"]})
    from . import models
    assumptions = [f"{k}: {v}" for k, v in models.ASSUMED.items()]
    assumptions += meta["assume"]
    cross = [p["cross"] for p in proofs if p.get("cross")]
    coverage = dict(
        obligations=len(obs), discharged=len(dis),
        checker_cmd=f"cd /verif && ./check {pid}",
        trusted_base=[
            "z3 (python3-vt)", "vf/core.py rope algebra and path splitting",
            "vf/models.py environment contracts", "CPython 3.12",
        ],
        functions_under_contract=own,
        functions_inlined=[f for f in ran if f not in own],
        backends=backends,
        solver_s=round(sum(p["stats"].get("solver_s", 0)
                           for p in proofs), 3),
        solver_queries=sum(p["stats"].get("queries", 0) for p in proofs),
        paths=sum(p["paths"] for p in proofs),
        cvc5_cross_check=cross,
        proofs=[dict(
            name=p["name"], obligations=len(p["obligations"]),
            discharged=sum(o["status"] == "discharged"
                           for o in p["obligations"]),
            paths=p["paths"], infeasible=p["infeasible"],
            unsupported=p["unsupported"][:3], bounded=p["bounded"],
            wall_s=p["wall_s"]) for p in proofs],
        vacuous=thin, unknown=unknown[:20], unsupported=unsupported[:20],
        inconclusive=[f"{o['proof']}: {o['name']}"
                      for o in meta.get("inconclusive", ())][:20],
        prover_errors=errors[:5],
        bounded_symbolic=dict(
            obligations=len(bobs),
            discharged=sum(o["status"] == "discharged" for o in bobs)),
        bounded_standin=dict(
            cases=cres["cases"], by_case=cres.get("by_case"),
            wall_s=cres.get("wall_s"),
            cut_short_by_budget=bool(cres.get("cut_short")),
            label="bounded: concrete runs of the unmodified code, never "
                  "counted as proved", error=cres.get("error")),
        modules_verified=len(sources),
        model_notes=notes,
    )
    violations = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    for f in kf:
        pass
    for key, text in known.items():
        hit = any(f["case"] == key for f in kf)
        print(f"KNOWN-FINDING: property={pid} {key} {text}"
              + ("" if hit else " (not reproduced on this run)"))
    if failures:
        f = failures[0]
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w") as fh:
            json.dump(dict(
                property=pid, kind="failing-input", case=f["case"],
                inputs=f["inputs"], message=f["message"],
                obligations=[
                    dict(name=o["name"], proof=o["proof"],
                         formula=o.get("formula"), model=o.get("model"))
                    for o in refuted[:5]],
                how=f"cd /verif && ./check --replay {path}",
            ), fh, indent=1, default=str)
        for o in refuted[:5]:
            print(f"failed obligation: {o['proof']} / {o['name']}")
        print(f"failing input: {f['case']} {str(f['inputs'])[:400]}")
        print(f"observed: {f['message'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        violations.append(dict(case=f["case"], message=f["message"][:400]))
        rc = 1
    elif refuted:
        o = refuted[0]
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w") as fh:
            json.dump(dict(
                property=pid, kind="failed-obligation",
                obligation=o["name"], proof=o["proof"],
                verifier_output=[
                    dict(name=x["name"], proof=x["proof"],
                         status=x["status"], formula=x.get("formula"),
                         model=x.get("model"), info=x.get("info"))
                    for x in refuted[:10]],
            ), fh, indent=1, default=str)
        print(f"failed obligation: {o['proof']} / {o['name']}")
        print(f"counter-model: {str(o.get('model'))[:600]}")
        print(f"VIOLATION property={pid} replay={path} "
              "no-failing-input-found")
        violations.append(dict(obligation=o["name"]))
        rc = 1
    ev = dict(
        property=pid, tier=tier(), seed=seed(), level=meta["level"],
        coverage=coverage, wall_s=round(time.perf_counter() - t0, 3),
        assumptions=assumptions, violations=violations,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {len(dis)}/{len(obs)} obligations discharged, "
          f"{len(unsupported)} unsupported, {len(unknown)} unknown; "
          f"{cres['cases']} bounded cases; "
          f"{ev['wall_s']} s")
    for e in errors[:3]:
        print("prover:", e[-600:])
    for u in unsupported[:5]:
        print("outside the generator:", u[-300:])
    if cres.get("error"):
        print("bounded stand-in:", str(cres["error"])[-600:])
    if thin:
        print("vacuous proof scripts:", thin)
        if rc == 0 and not cres["cases"]:
            return 3
    if rc == 0 and not dis and not cres["cases"]:
        print("nothing was checked")
        return 4
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d.get("kind") != "failing-input":
        print("obligation without a failing input:", d.get("obligation"))
        print(json.dumps(d.get("verifier_output"), indent=1)[:4000])
        return 0
    tree = scratch_tree()
    try:
        r = subprocess.run(
            [PY, "-m", "vf.concrete", "--replay", path],
            cwd=VERIF, env=concrete_env(tree))
        return r.returncode
    finally:
        rm_scratch(tree)


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        sys.path.insert(0, VERIF)
        prove_worker(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]),
                     sys.argv[5])
    elif sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    else:
        sys.exit(main(sys.argv[1]))
