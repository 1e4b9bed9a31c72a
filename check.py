#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree.

1. deductive step: every contract registered for the property is turned into proof
   obligations from /repo's current source and discharged (z3, then cvc5);
2. run-time step: the same contracts are evaluated on the real code; this finds the
   concrete failing input for a failed obligation and is the labelled, bounded stand-in
   where the generator cannot reach.
Exit 0: held. Exit 1 + VIOLATION line: broken. An obligation that is only *undecided*
(unsupported construct, solver gave up, renamed function) is never a violation.
"""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get("KMCPY_REPO", "/repo")
RTPY = os.environ.get("KMCPY_PYTHON", "/opt/venv/bin/python")


def load_contracts():
    from pyvc.contract import REGISTRY
    for p in sorted((ROOT / "contracts").glob("c_*.py")):
        importlib.import_module("contracts." + p.stem)
    return REGISTRY


def one(args):
    key, tier = args
    sys.setrecursionlimit(20000)
    reg = load_contracts()
    from pyvc.contract import verify
    c = reg[key]
    if tier == "thorough":
        c.max_s = c.max_s * 3
    bad = []
    o = verify(c, REPO, log=lambda x: bad.append(x) if x.get("status") != "proved" else None)
    d = o.as_dict()
    d["open"] = bad[:20]
    d["backend_of"] = {b: n for b, n in d["backends"].items()}
    return d


def run_rt(pid, tier, seed, budget, out, scratch, case=None, case_seed=None):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", NUMBA_CACHE_DIR=str(scratch / "numba"), PYTHONPATH=REPO, KMCPY_REPO=REPO, HOME=str(scratch),
               LANG="C.UTF-8")
    cmd = [RTPY, "-W", "ignore", str(ROOT / "rt" / "run.py"), pid, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", str(out)]
    if case:
        cmd += ["--case", case]
    if case_seed:
        cmd += ["--case-seed", case_seed]
    return subprocess.Popen(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def collect(proc, out, limit):
    try:
        txt, _ = proc.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        proc.kill()
        txt, _ = proc.communicate()
        return None, f"run-time step exceeded {limit:.0f} s\n" + (txt or "")[-2000:]
    try:
        return json.loads(pathlib.Path(out).read_text()), txt
    except Exception as e:  # noqa
        return None, f"run-time step gave no result ({e}), rc={proc.returncode}\n{(txt or '')[-3000:]}"


def known(pid):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text()) if k.get("property") == pid and k.get("status", "known") == "known"]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="kmcpy_check_"))
    ev = ROOT / "evidence"
    ev.mkdir(exist_ok=True)
    rdir = ev / "replay"
    rdir.mkdir(exist_ok=True)
    try:
        return decide(pid, tier, seed, t0, scratch, ev, rdir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tier, seed, t0, scratch, ev, rdir):
    rt_budget = 45 if tier == "quick" else 420
    proc = run_rt(pid, tier, seed, rt_budget, scratch / "rt.json", scratch)
    reg = load_contracts()
    keys = [k for k, c in reg.items() if pid in c.props and (tier == "thorough" or not c.thorough_only)]
    vc_wall = 300 if tier == "quick" else 1500
    results = []
    with cf.ProcessPoolExecutor(max_workers=min(7, max(1, len(keys))), mp_context=mp.get_context("fork")) as ex:
        futs = {ex.submit(one, (k, tier)): k for k in sorted(keys, key=lambda k: -reg[k].max_s)}
        try:
            for f in cf.as_completed(futs, timeout=vc_wall):
                k = futs[f]
                try:
                    results.append(f.result())
                except Exception as e:  # noqa
                    results.append({"contract": k, "function": reg[k].qual, "status": "undecided", "obligations": 0, "discharged": 0,
                                    "error": f"engine process: {e}", "open": []})
        except cf.TimeoutError:
            pass
        done = {r["contract"] for r in results}
        for k in keys:
            if k not in done:
                results.append({"contract": k, "function": reg[k].qual, "status": "undecided", "obligations": 0, "discharged": 0,
                                "error": "verification wall budget exhausted", "open": []})
        for p in list(getattr(ex, "_processes", {}).values()):
            if len(done) < len(keys):
                p.kill()
    results.sort(key=lambda r: r["contract"])
    rt, rt_txt = collect(proc, scratch / "rt.json", rt_budget * 2 + 240)
    refuted = [r for r in results if r["status"] == "refuted"]
    fails = list(rt["failures"]) if rt else []
    if refuted and rt is not None and not fails:
        # deeper search for a concrete failing input
        p2 = run_rt(pid, "thorough", seed + 1000, 90, scratch / "rt2.json", scratch)
        rt2, _ = collect(p2, scratch / "rt2.json", 300)
        if rt2:
            fails = list(rt2["failures"])
    kf = known(pid)
    kfound, viol = {}, []
    for f in fails:
        m = [k for k in kf if k.get("case") == f["case"] and re.search(k["match"], f["message"])]
        if m:
            kfound[m[0]["id"]] = m[0]
        else:
            viol.append(f)
    kref = []
    for r in refuted:
        names = [o["name"] for o in r["open"] if o.get("status") == "refuted"]
        if all(any(k.get("contract") == r["contract"] and re.search(k["match"], n) for k in kf) for n in names):
            kref.append(r)
            for k in kf:
                if k.get("contract") == r["contract"]:
                    kfound[k["id"]] = k
    refuted = [r for r in refuted if r not in kref]
    lines = []
    for k in kfound.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    code = 0
    if viol:
        code = 1
        rp = rdir / f"{pid}.json"
        rp.write_text(json.dumps({
            "property": pid, "kind": "concrete failing input on the real code",
            "rerun": [f"cd /verif && {RTPY} rt/run.py {pid} --case {v['case']} --case-seed '{v['seed']}' --tier {tier}" for v in viol],
            "failures": viol, "failed_obligations": [{"contract": r["contract"], "open": r["open"]} for r in refuted]}, indent=1))
        print(f"{pid}: {viol[0]['case']}: {viol[0]['message']}")
        print(f"VIOLATION property={pid} replay={rp}")
    elif refuted:
        code = 1
        rp = rdir / f"{pid}.json"
        rp.write_text(json.dumps({
            "property": pid, "kind": "refuted proof obligation; no failing input found on the real code",
            "rerun": f"cd /verif && ./check.sh {pid} {tier}",
            "failed_obligations": [{"contract": r["contract"], "function": r["function"], "open": r["open"]} for r in refuted]}, indent=1))
        for r in refuted:
            print(f"{pid}: {r['contract']}: " + "; ".join(sorted({o['name'] for o in r['open'] if o.get('status') == 'refuted'})))
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    # evidence
    ob = sum(r["obligations"] for r in results)
    di = sum(r["discharged"] for r in results)
    und = [r for r in results if r["status"] in ("undecided", "error")]
    be = {}
    for r in results:
        for b, n in (r.get("backends") or {}).items():
            be[b] = be.get(b, 0) + n
    evals = sum(c["runs"] for c in rt["cases"]) if rt else 0
    man = {}
    try:
        for c in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]:
            man[c["property"]] = c
    except Exception:  # noqa
        pass
    level = man.get(pid, {}).get("level", "proof" if results else "other")
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": f"./check.sh {pid} {tier}  (pyvc VC generator over the AST of the listed functions; z3 {z3v()}, cvc5 1.1.2 fallback)",
        "trusted_base": ["pyvc (symbolic execution, loop summaries, contracts): /verif/pyvc", "z3 and cvc5", "CPython and numba executing the same semantics as pyvc's models"],
        "contracts": [{k: r.get(k) for k in ("contract", "function", "status", "obligations", "discharged", "paths", "solver_s", "queries",
                                               "backends", "functions", "callee_contracts", "vacuity", "refuted", "undecided", "unsupported", "error")} for r in results],
        "functions_under_contract": sorted({r["function"] for r in results}),
        "functions_inlined_in_proofs": sorted({f for r in results for f in (r.get("functions") or [])}),
        "contracts_proved": sum(r["status"] == "proved" for r in results),
        "contracts_undecided_bounded_only": [{"contract": r["contract"], "why": r.get("unsupported") or r.get("error") or r.get("undecided")} for r in und],
        "backends": be, "solver_s": round(sum(r.get("solver_s") or 0 for r in results), 2),
        "bounded_runtime": {"label": "bounded; not counted as proved", "evaluations": evals, "seed": seed,
                            "cases": rt["cases"] if rt else [], "harness_errors": rt["errors"] if rt else [rt_txt]},
        "explanation": "obligations generated from /repo's current source on this run; bounded_runtime evaluates the same contracts on the real code",
    }
    assumptions = sorted({m for r in results for m in (r.get("dependency_models") or [])})
    assumptions += ["floats are treated as mathematical reals in the proofs (machine arithmetic not modelled)",
                    "numba-compiled functions behave as their Python source", "inputs satisfy the requires clauses in /verif/contracts"]
    e = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
         "wall_s": round(time.time() - t0, 2), "violations": len(viol) + (len(refuted) if not viol else 0),
         "known_findings": [k["id"] for k in kfound.values()]}
    (ev / f"{pid}.json").write_text(json.dumps(e, indent=1))
    st = "; ".join(f"{r['contract'].split(':')[-1]}={r['status']}({r['discharged']}/{r['obligations']})" for r in results)
    print(f"{pid} {tier}: obligations {di}/{ob}; run-time evaluations {evals} (bounded); {st}")
    if rt is None:
        print("run-time step: " + rt_txt.strip()[-1500:])
    elif rt["errors"]:
        print("harness errors: " + "; ".join(x["case"] + ": " + x["traceback"].strip().splitlines()[-1] for x in rt["errors"]))
    if code == 0 and not di and not evals:
        print(f"{pid}: nothing was checked")
        return 2
    return code


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
