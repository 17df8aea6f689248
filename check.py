#!/usr/bin/env python3-vt
"""Check one property:  check.py <ID> [--tier quick|thorough]
                        check.py --replay <file>

Exit 0: every obligation generated from the current source was discharged (or, for functions
outside the verifier's reach, the bounded stand-in held; the evidence says which).
Exit 1: a violation, with a line `VIOLATION property=<id> replay=<path>`.
Exit 2: the checker itself failed.
"""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_OUT", HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)
sys.dont_write_bytecode = True

if os.isatty(0):
    fd = os.open(os.devnull, os.O_RDONLY)
    os.dup2(fd, 0)
for var in ("NO_COLOR", "SLATE_COLORSYS"):
    os.environ.pop(var, None)
os.environ["COLORTERM"] = "truecolor"
os.environ["TERM"] = "xterm-256color"

from pyvc import harness as H  # noqa: E402

TIERS = {
    "quick": {"trials": 1.0, "secs": 1.0, "budget": 1.0, "deadline": 420},
    "thorough": {"trials": 30.0, "secs": 25.0, "budget": 5.0, "deadline": 3000},
}


def load(pid):
    H.REGISTRY.clear()
    mod = importlib.import_module(f"props.{pid.lower()}")
    cs = H.take_registry()
    return mod, cs


CTX = {}


def _task(args):
    kind, ci, case_i = args
    cs, tier, seed, pool = CTX["cs"], CTX["tier"], CTX["seed"], CTX["pool"]
    c = cs[ci]
    case = c.cases[case_i]
    try:
        if kind == "prove":
            r = H.prove_contract(c, case, c.budget * tier["budget"])
            r["replays"] = []
            for f in r["refuted"] + r["suspects"]:
                if "<model>" in f["inputs"]:
                    continue
                rep = H.replay(c, case, f["inputs"])
                if rep:
                    rep["from"] = f["obligation"]
                    r["replays"].append(rep)
                    break
            if (r["refuted"] or r["suspects"] or r["unknown"] or r["unsupported"]) and not r["replays"] and c.trials:
                # an obligation refuted without a replayable model, or not decided: look harder on the real code
                deep = H.search_contract(c, case, seed + 1, 20 * max(c.trials, 1000), 25 if r["refuted"] else 15, pool)
                if deep["found"]:
                    r["replays"].append(dict(deep["found"], how="native search on the real code, after the obligation failed"))
            return kind, ci, case_i, r
        r = H.search_contract(c, case, seed, int(c.trials * tier["trials"]), c.secs * tier["secs"], pool)
        return kind, ci, case_i, r
    except Exception:  # noqa: BLE001
        return kind, ci, case_i, {"crash": traceback.format_exc()[-2000:]}


def _worker(task, q):
    try:
        q.put(_task(task))
    except BaseException:  # noqa: BLE001
        q.put((task[0], task[1], task[2], {"crash": traceback.format_exc()[-2000:]}))


def run_tasks(tasks, deadline, jobs):
    """One process per task, killed at the deadline."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pending = list(tasks)
    running = {}
    out = {}
    t0 = time.time()
    last = {}
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            p = ctx.Process(target=_worker, args=(t, q), daemon=True)
            p.start()
            running[t] = p
        try:
            kind, ci, k, r = q.get(timeout=0.2)
            out[(kind, ci, k)] = r
            if r.get("found") or r.get("replays"):
                # decided: what is still running only adds detail
                deadline = min(deadline, time.time() - t0 + 60)
            p = running.pop((kind, ci, k), None)
            if p:
                p.join(5)
                if p.is_alive():
                    p.kill()
            continue
        except Exception:  # noqa: BLE001
            pass
        for t, p in list(running.items()):
            if not p.is_alive():
                last.setdefault(t, time.time())
                if time.time() - last[t] > 3 and t not in out:
                    running.pop(t)
                    out[t] = {"crash": f"worker died (exit {p.exitcode})"}
        if time.time() - t0 > deadline:
            for t, p in running.items():
                p.kill()
                out[t] = {"crash": "deadline", "deadline": True}
            for t in pending:
                out[t] = {"crash": "deadline", "deadline": True}
            break
    return out


def findings(pid):
    """Known findings: lines `known: property=<id> contract=<name> obligation=<text> :: what`."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--no-prove", action="store_true", help="developer aid: the native leg only")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    pid = a.id.upper()
    tier = TIERS["thorough" if a.tier == "thorough" else "quick"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod, cs = load(pid)
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    if a.no_prove:
        tier = dict(tier, trials=0.3, secs=0.3)
    CTX.update(cs=cs, tier=tier, seed=seed, pool=H.LiteralPool.harvest())
    tasks = []
    for ci, c in enumerate(cs):
        for k in range(len(c.cases)):
            if c.symbolic and not a.no_prove:
                tasks.append(("prove", ci, k))
    tasks.sort(key=lambda t: -cs[t[1]].budget)
    stasks = []
    for ci, c in enumerate(cs):
        for k in range(len(c.cases)):
            if c.trials:
                stasks.append(("search", ci, k))
    # the bounded native runs first: they are not to be starved by proofs that take long
    res = run_tasks(([] if a.no_search else stasks) + tasks, tier["deadline"], int(os.environ.get("VERIF_JOBS", "8")))

    obligations = discharged = b_obl = 0
    backends, functions, trusted, assumed = {}, set(), set(), set()
    solver_s = 0.0
    undischarged, bounded, violations, broken = [], [], [], []
    per = []
    native_runs = native_distinct = native_evals = 0
    samples = []
    for ci, c in enumerate(cs):
        covered_p, covered_n = set(), set()
        proved = c.symbolic
        c_obl = c_dis = 0
        why = []
        found = []
        refuted = []
        for k, case in enumerate(c.cases):
            r = res.get(("prove", ci, k))
            if c.symbolic:
                if r is None or "crash" in r:
                    proved = False
                    why.append((r or {}).get("crash", "no result")[-300:])
                else:
                    c_obl += r["obligations"]
                    c_dis += r["discharged"]
                    solver_s += r["solver_s"]
                    for b, n in r["backends"].items():
                        backends[b] = backends.get(b, 0) + n
                    functions |= set(r["functions"])
                    trusted |= set(r["trusted"])
                    assumed |= set(r["assumed"])
                    covered_p |= set(r["covered"])
                    if r["unsupported"]:
                        proved = False
                        why += [f"outside the subset: {u}" for u in r["unsupported"][:5]]
                    if r["unknown"]:
                        proved = False
                        why += [f"solver undecided: {u}" for u in r["unknown"][:5]]
                    if r["refuted"]:
                        proved = False
                        refuted += [dict(x, case=k) for x in r["refuted"]]
                    for rep in r["replays"]:
                        found.append(dict({"how": "solver model replayed on the real code"}, **rep, case=k))
            s = res.get(("search", ci, k))
            if s is not None:
                if "crash" in s:
                    why.append("native search: " + s["crash"][-300:])
                else:
                    native_runs += s["runs"]
                    native_distinct += s["distinct"]
                    if s.get("sample") and len(samples) < 6 and k == 0:
                        samples.append({"contract": c.name, "inputs": s["sample"]})
                    native_evals += s["evals"]
                    covered_n |= set(s["covered"])
                    if s["error"]:
                        why.append("native search: specification error " + s["error"][-300:])
                    if s["found"]:
                        found.append(dict(s["found"], case=k, how="native search on the real code"))
        missing = [x for x in c.covers if x not in covered_p] if c.symbolic and proved else []
        if missing:
            proved = False
            why.append(f"cover points not reached: {missing}")
        if c.symbolic and proved and c_obl == 0:
            proved = False
            why.append("no obligations generated")
        obligations += c_obl
        discharged += c_dis
        entry = {"contract": c.name, "obligations": c_obl, "discharged": c_dis, "status": "proved" if proved else "undischarged"}
        if c.bound and proved:
            entry["status"] = "bounded"
            entry["bound"] = c.bound
            bounded.append({"contract": c.name, "bound": c.bound, "obligations_discharged": c_dis})
            b_obl += c_obl
        if found:
            entry["status"] = "violated"
            violations.append((c, found[0], False, refuted))
        elif refuted:
            entry["status"] = "refuted"
            violations.append((c, refuted[0], True, refuted))
        elif not proved:
            if not c.symbolic:
                entry["status"] = "bounded"
                bounded.append({"contract": c.name, "bound": f"{sum(res.get(('search', ci, k), {}).get('runs', 0) for k in range(len(c.cases)))} generated inputs"})
            else:
                undischarged.append({"contract": c.name, "why": why[:6]})
                if c_obl == c_dis:
                    obligations += 1  # the part outside the verifier's reach
        if why:
            entry["why"] = why[:6]
        per.append(entry)
        if c.symbolic is False and not any(res.get(("search", ci, k), {}).get("runs") for k in range(len(c.cases))):
            broken.append(f"{c.name}: no native run completed: {why[:2]}")

    if a.verbose:
        for e in per:
            print(json.dumps(e))
        for ci, c in enumerate(cs):
            for k in range(len(c.cases)):
                r = res.get(("prove", ci, k), {})
                print(c.name, k, {x: r.get(x) for x in ("paths", "complete", "rounds", "wall_s", "solver_s", "error", "crash") if r.get(x) is not None})
                for f in r.get("refuted", [])[:4]:
                    print("   refuted", f["obligation"], f["inputs"])
                s = res.get(("search", ci, k), {})
                print("   search", {x: s.get(x) for x in ("runs", "skipped", "evals", "wall_s", "crash", "error", "found")})

    known = findings(pid)
    real = []
    for c, f, nofail, refuted in violations:
        tag = f"contract={c.name} obligation={f['obligation']}"
        hit = [k for k in known if tag in k]
        if hit:
            print("KNOWN-FINDING: " + hit[0][len("known: "):])
            continue
        real.append((c, f, nofail, refuted))
    vio = []
    os.makedirs(os.path.join(OUT, "evidence", "replays"), exist_ok=True)
    for n, (c, f, nofail, refuted) in enumerate(real):
        path = os.path.join(OUT, "evidence", "replays", f"{pid}-{n}.json")
        doc = {
            "property": pid,
            "contract": c.name,
            "case": f.get("case", 0),
            "obligation": f["obligation"],
            "inputs": f.get("inputs"),
            "how": f.get("how", "obligation refuted by the solver; no failing input found on the real code"),
            "trace": f.get("trace"),
            "no_failing_input": nofail,
            "solver": [{"obligation": x["obligation"], "model": x["model"], "inputs": x["inputs"]} for x in refuted[:5]],
        }
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(doc, fh, indent=1, default=repr)
        vio.append({"obligation": f"{c.name}: {f['obligation']}", "replay": path, "inputs": repr(f.get("inputs"))[:800]})
    trusted |= set(getattr(mod, "TRUSTED", ()))
    ev = {
        "property": pid,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": seed,
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": f"python3-vt /verif/check.py {pid} --tier {a.tier}",
            "of_which_bounded_shape": b_obl,
            "backends": backends,
            "solver_s": round(solver_s, 2),
            "functions_under_contract": sorted(functions),
            "contracts": per,
            "undischarged": undischarged,
            "bounded": bounded,
            "evaluations": native_runs,
            "distinct_nontrivial": native_distinct,
            "rule": "native runs of the contracts on the real code with generated inputs (engine cross-check and bounded stand-in); runs outside the precondition or without an evaluated postcondition are not counted",
            "samples": samples[:6],
            "native_postconditions_evaluated": native_evals,
            "trusted_base": sorted(
                trusted
                | {
                    "pyvc (/verif/pyvc): the interpreter of the Python subset, its models of built-ins and the z3/cvc5 solvers",
                    "floats treated as mathematical reals; integers unbounded as in Python",
                }
            ),
        },
        "assumptions": sorted(assumed) + sorted(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vio),
        "violation_list": vio,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    for u in undischarged:
        print(f"undischarged (bounded stand-in held): {u['contract']}: {u['why'][:2]}")
    print(f"{pid}: {discharged}/{obligations} obligations discharged, {native_runs} native runs, {ev['wall_s']} s")
    if real:
        for v, (c, f, nofail, _) in zip(vio, real):
            print(f"failed obligation: {v['obligation']}  inputs: {v['inputs'][:300]}")
            print(f"VIOLATION property={pid} replay={v['replay']}" + (" no-failing-input-found" if nofail else ""))
        return 1
    if broken:
        print("\n".join(broken))
        return 2
    if obligations == 0 and not bounded and not native_evals:
        print("no obligations")
        return 2
    return 0


def do_replay(path):
    doc = json.load(open(path, encoding="utf-8"))
    mod, cs = load(doc["property"])
    c = next(c for c in cs if c.name == doc["contract"])
    if doc["inputs"] is None or doc["no_failing_input"]:
        print("no failing input recorded; failed obligation:", doc["obligation"])
        return 1
    rep = H.replay(c, c.cases[doc["case"]], doc["inputs"])
    print(rep)
    return 1 if rep else 0


if __name__ == "__main__":
    sys.exit(main())
