#!/opt/venv/bin/python -W ignore
"""Decide one property:  check.py --property C01 [--tier quick|thorough] [--only NAME] | --replay FILE"""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import time
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("NNJ_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

MODULES = {}


def load(prop):
    from checks import registry

    return registry.scenarios(prop)


def known(prop):
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) scenario=\"([^\"]+)\" (?:match=\"([^\"]+)\" )?(.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
_SC = None
_ARGS = None


MEMORY = 7 << 29  # bytes a worker may use on top of what it has when it starts
_LIMITED = []


def _limit_memory():
    import resource

    if _LIMITED:
        return
    _LIMITED.append(True)
    with open("/proc/self/statm") as f:
        size = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (size + MEMORY, resource.RLIM_INFINITY))


def _work(k):
    from symtorch import runner as R

    if _ARGS[3]:
        _limit_memory()
    sc = _SC[k]
    cov = R.Coverage()
    cov.start()
    try:
        r = R.run_scenario(sc, seed=_ARGS[0], deadline=_ARGS[1], limit=_ARGS[2])
    finally:
        cov.stop()
    r.funcs, r.lines = cov.funcs, cov.lines
    r.bounds = sc.bounds
    for a in ("env",):
        if hasattr(r, a):
            setattr(r, a, {k: float(v) for k, v in getattr(r, a).items()})
    return k, r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop at the first violation")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    import torch

    torch.set_num_threads(1)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 780 if a.tier == "quick" else 7200
    from symtorch import runner as R

    try:
        mk, info = load(a.property)
        scs = list(mk(a.tier))
    except Exception as e:
        import traceback

        traceback.print_exc()
        print("cannot load the library or the scenarios: %s" % e)
        return 2
    if a.tier == "quick" and not os.environ.get("VERIF_ALL_STATES"):
        scs = rotate(scs)
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    global _SC, _ARGS
    _SC, _ARGS = scs, (seed, t0 + budget, 200 if a.tier == "quick" else 1800, a.j > 1)
    import multiprocessing as mp
    import gc

    gc.freeze()
    res = {}
    kn = known(a.property)
    if a.j == 1:
        for k in range(len(scs)):
            res[k] = _work(k)[1]
            _show(a, res[k])
            if a.first and res[k].status == "violation":
                break
    else:
        with mp.get_context("fork").Pool(a.j, maxtasksperchild=12) as pool:
            it = pool.imap_unordered(_work, range(len(scs)))
            bad = 0
            for _ in range(len(scs)):
                # one violation decides the verdict: the rest gets a shorter time to add to it
                left = t0 + (min(budget, bad) if bad else budget + 30) - time.time()
                try:
                    k, r = it.next(timeout=max(1, left))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                res[k] = r
                if not bad and r.status == "violation" and not is_known(kn, r):
                    bad = time.time() - t0 + (20 if a.tier == "quick" else 300)
                _show(a, r)
                if a.first and r.status == "violation":
                    pool.terminate()
                    break
    for k, sc in enumerate(scs):
        if k not in res:
            r = R.Result(sc.name)
            r.status, r.message, r.bounds = "undecided", "time limit of the tier reached", sc.bounds
            res[k] = r
    return report(a, scs, res, t0, seed, info)


def rotate(scs):
    """quick tier: each scenario meets every fourth of the layouts and states, in turn, so that the variants of a layer
    share them out; the thorough tier runs all combinations"""
    from checks.common import LAYOUTS, STATES

    words = sorted(LAYOUTS + STATES, key=len, reverse=True)
    order = {w: k for k, w in enumerate(LAYOUTS + STATES)}
    base, out = {}, []
    for sc in scs:
        w = next((w for w in words if sc.name.endswith(w) or ", " + w in sc.name or "(" + w in sc.name), None)
        if w is not None:
            i = base.setdefault(sc.name.replace(w, ""), len(base))
            if (i + order[w]) % 4:
                continue
        out.append(sc)
    return out


def is_known(kn, r):
    return next((x for x in kn if x[0] == r.name and (not x[1] or re.search(x[1], r.message))), None)


def _show(a, r):
    if a.v:
        print("%-11s %6.2fs paths=%d %s %s" % (r.status, r.wall, r.paths, r.name, r.message[:900]), flush=True)


def report(a, scs, res, t0, seed, info):
    prop = a.property
    kn = known(prop)
    viol, findings, und, errs, ok = [], [], [], [], []
    for k in sorted(res):
        r = res[k]
        if r.status == "ok":
            ok.append(r)
        elif r.status == "violation":
            f = is_known(kn, r)
            (findings if f else viol).append((r, f))
        elif r.status == "error":
            errs.append(r)
        else:
            und.append(r)
    rdir = os.path.join(EVIDENCE, "replay")
    os.makedirs(rdir, exist_ok=True)
    code = 0
    vrec = []
    for r, f in findings:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, r.name, f[2]))
    for i, (r, _) in enumerate(viol):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": a.tier, "scenario": r.name, "message": r.message, "replay": r.replay}, fh, indent=1)
        print("%s: %s" % (r.name, r.message))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        vrec.append({"what": "%s: %s" % (r.name, r.message), "replay": path})
        code = 1
    for r in und:
        print("UNDECIDED %s: %s" % (r.name, r.message[:400]))
    for r in errs:
        print("ERROR %s: %s" % (r.name, r.message[-700:]))
    if code == 0 and (len(und) + len(errs)) * 2 > len(scs):
        print("most scenarios could not be decided")
        code = 2
    tot = {}
    ops, funcs, lines = {}, set(), {}
    for r in res.values():
        for q, v in (r.stats or {}).items():
            tot[q] = tot.get(q, 0) + v
        for q, v in r.ops.items():
            ops[q] = ops.get(q, 0) + v
        funcs |= r.funcs
        for f, l in r.lines.items():
            lines.setdefault(f, set()).update(l)
    dec = ok + [r for r, _ in findings] + [r for r, _ in viol]
    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": info["level"],
        "coverage": {
            "states": sum(r.paths for r in dec),
            "transitions": sum(r.pairs + r.checks for r in dec),
            "traces_validated_against_impl": sum(1 for r in dec if r.validated),
            "samples": [
                {
                    "scenario": r.name, "bounds": r.bounds, "paths": r.paths, "assertions": r.checks,
                    "scalar_equalities": r.pairs, "symbolic_variables": r.vars, "terms": r.terms,
                    "solver": r.stats, "wall_s": round(r.wall, 2), "values_compared_with_real_run": r.validated,
                }
                for r in dec[:6]
            ],
            "explanation": "each scenario executes the library's real Python code on symbolic tensors over all feasible "
            "paths; every assertion (equality of a result with the reference) is discharged by z3 for all real values "
            "of inputs, weights and arguments at the stated sizes",
            "scenarios": len(scs),
            "scenarios_decided": len(dec),
            "scenario_names": [r.name for r in dec],
            "undecided": [{"scenario": r.name, "reason": r.message[:300]} for r in und + errs],
            "known_findings": ["%s: %s" % (r.name, r.message[:200]) for r, _ in findings],
            "functions_encoded": sorted(funcs),
            "lines_executed": {f: len(l) for f, l in sorted(lines.items())},
            "torch_operators_encoded": dict(sorted(ops.items())),
            "bounds": info["bounds"],
            "queries_discharged": tot.get("queries", 0),
            "solver_verdicts": {q: tot.get(q, 0) for q in ("unsat", "sat", "unknown")},
            "scalar_equalities": tot.get("equalities", 0),
            "scalar_equalities_identical_after_normalisation": tot.get("identical", 0),
            "case_splits": tot.get("splits", 0),
            "solver_time_s": round(tot.get("solver_s", 0.0), 2),
        },
        "wall_s": wall,
        "assumptions": info["assumptions"],
        "violations": vrec,
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(
        "%s %s: %d scenarios, %d held, %d known findings, %d violations, %d undecided, %d errors; %d equalities, %d z3 queries (%.1f s), %.1f s"
        % (prop, a.tier, len(scs), len(ok), len(findings), len(viol), len(und), len(errs), tot.get("equalities", 0), tot.get("queries", 0), tot.get("solver_s", 0), wall)
    )
    return code


def replay(path):
    """run one recorded counterexample on the library with ordinary tensors, printing what the scenario computes"""
    import torch
    from symtorch import runner as R

    d = json.load(open(path))
    mk, _ = load(d["property"])
    for sc in mk(d["tier"]):
        if sc.name == d["scenario"]:
            rp = d["replay"]
            ctx, exc = R.run_concrete(sc, rp["env"], rp["choices"], getattr(torch, rp["dtype"].split(".")[1]))
            print("scenario:", sc.name)
            print("recorded:", d["message"])
            print("inputs:", json.dumps(rp["env"]))
            for kind, label, lhs, rhs, oracle in ctx.checks:
                print(label, "->", lhs, "" if oracle or rhs is None else "expected %s" % (rhs,))
            if exc is not None:
                print("raises", type(exc).__name__, exc)
            return 0
    print("no such scenario")
    return 2


if __name__ == "__main__":
    sys.exit(main())
