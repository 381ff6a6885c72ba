"""python -m jv.check C05 [--tier quick|thorough] [--only substring] [-v]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import threading
import time


def known_findings():
    from .env import VERIF

    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def worker(args):
    """discharge one contract in its own process"""
    prop, idx, seed, tier, verbose, scale = args
    from . import env

    env.setup()
    from . import contract as ct

    load(prop)
    c = ct.REGISTRY[prop][idx]
    lg = (lambda *a: print(*a, flush=True)) if verbose else (lambda *a: None)
    from . import smt

    for k in ("z3", "cvc5"):
        smt.STATS[k][0], smt.STATS[k][1] = 0, 0.0
    smt.STATS["queries"] = 0
    smt.SCALE = scale
    r = ct.discharge(c, seed, tier, lg)
    d = {k: v for k, v in r.__dict__.items() if k != "contract"}
    d["smt"] = {k: list(v) if isinstance(v, list) else v for k, v in smt.STATS.items()}
    d["name"], d["bounded"] = c.name, c.bounded or getattr(r, "demoted", None)
    d["functions"] = list(c.functions)
    d["note"] = c.note
    d["opaque"] = [o.path for o in getattr(c, "opaque", ()) if not o.path.startswith("ghost")]
    d["assume"] = list(getattr(c, "assume", ()))
    return d


_loaded = set()


def load(prop):
    if prop in _loaded:
        return
    _loaded.add(prop)
    importlib.import_module(f"contracts.{prop.lower()}")


def run(prop, tier, only, verbose, jobs):
    from . import env

    env.setup()
    from . import contract as ct

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    load(prop)
    cs = ct.REGISTRY.get(prop, [])
    todo = [
        i for i, c in enumerate(cs)
        if (c.tier == "quick" or tier == "thorough") and (not only or only in c.name)
    ]
    tasks = [(prop, i, seed, tier, verbose, 1.0) for i in todo]
    results = []
    deadline = t0 + float(os.environ.get("JV_DEADLINE", "780"))
    if jobs > 1 and len(tasks) > 1:
        import multiprocessing as mp

        ctx = mp.get_context("spawn")
        with ctx.Pool(min(jobs, len(tasks)), initializer=_init) as pool:
            pending = {t[1]: pool.apply_async(worker_safe, (t,)) for t in tasks}
            stop, retry, again, first = False, {}, set(), {}
            while pending and not stop:
                for i in [i for i, x in pending.items() if x.ready()]:
                    d = pending.pop(i).get()
                    if i not in again and undecided(d):
                        retry[i] = d
                        continue
                    results.append(d)
                    show(d, verbose)
                    stop = stop or bool(d["violation"])
                if not pending and retry and not stop:
                    # the solvers' time limits are wall clock: a loaded machine deserves a second
                    # attempt with longer ones; many failures are no accident
                    if len(retry) <= 4 and time.time() < deadline - 60:
                        again |= set(retry)
                        pending = {i: pool.apply_async(worker_safe, ((prop, i, seed, tier, verbose, 4.0),)) for i in retry}
                        print("  second attempt: " + "; ".join(d["name"] for d in retry.values()), flush=True)
                        first.update(retry)
                    else:
                        results.extend(retry.values())
                        for d in retry.values():
                            show(d, verbose)
                    retry = {}
                if time.time() > deadline:
                    for i in pending:
                        c = cs[i]
                        if i in first:
                            results.append(first[i])
                            show(first[i], verbose)
                            continue
                        results.append(failed_result(c.name, "undecided: the time limit of the check ran out", c.bounded))
                        show(results[-1], verbose)
                    break
                time.sleep(0.05)
            if not stop:
                results.extend(retry.values())
            if stop and pending:
                print(f"  stopped at the first replayed counterexample, {len(pending)} contracts not examined", flush=True)
            pool.terminate()
    else:
        for t in tasks:
            d = worker_safe(t)
            results.append(d)
            show(d, verbose)
    return finish(prop, tier, seed, results, time.time() - t0, len(todo))


def undecided(d):
    return bool(d["failed"]) and not d["violation"] and not d["error"] and not d["bounded"]


def _init():
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)


def failed_result(name, why, bounded=None, trace=""):
    return {"name": name, "error": why, "trace": trace, "obligations": 1, "discharged": 0,
            "failed": [{"obligation": "engine", "why": why}],
            "violation": None, "wall": 0.0, "functions": [], "bounded": bounded,
            "samples_run": 0, "leaves": 0, "definedness": 0, "backends": {}, "smt": {},
            "opaque": [], "assume": [], "note": None, "canary": None, "xchecked": 0, "eqns": 0}


def worker_safe(t):
    out = {}

    def go():
        try:
            out["d"] = worker(t)
        except BaseException as ex:  # noqa: BLE001
            import traceback

            out["d"] = failed_result(f"contract #{t[1]}", f"{type(ex).__name__}: {ex}", None, traceback.format_exc()[-3000:])

    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out["d"]


def show(d, verbose):
    st = "ok" if not d["failed"] and not d["error"] and not d["violation"] else "FAILED"
    print(f"  [{st}] {d['name']}: {d['discharged']}/{d['obligations']} obligations, "
          f"{d['samples_run']} replays, {d['wall']:.1f}s"
          + (f"  (bounded: {d['bounded']})" if d["bounded"] else ""), flush=True)
    if st != "ok":
        if d["error"]:
            print("    error:", d["error"])
            if verbose:
                print(d.get("trace", ""))
        for f in d["failed"][:3]:
            print("    failed:", f["obligation"], "-", str(f["why"])[:300])
            if verbose:
                print("      ", f.get("detail", "")[-1500:])
                print("      path:", f.get("path"))
        if d["violation"]:
            v = d["violation"]
            print("    counterexample:", json.dumps(v["inputs"])[:400], "got", v["got"], "expected", v["expected"])


def finish(prop, tier, seed, results, wall, ncontracts):
    from .env import VERIF, REPO

    ev_dir = os.environ.get("JV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    proofs = [d for d in results if not d["bounded"]]
    obligations = sum(d["obligations"] for d in proofs)
    discharged = sum(d["discharged"] for d in proofs)
    bob = sum(d["obligations"] for d in results if d["bounded"])
    bad = [d for d in results if d["failed"] or d["error"] or d["violation"]]
    lines, code = [], 0
    rdir = os.path.join(ev_dir, "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = 0
    for d in results:
        hits = [k for k in known if k["contract"] == d["name"]]
        for k in hits:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    for d in bad:
        path = os.path.join(rdir, f"{prop}-{safe(d['name'])}.json")
        if d["violation"]:
            w = dict(d["violation"])
            w["repo"] = REPO
            json.dump(w, open(path, "w"), indent=1)
            lines.append(f"VIOLATION property={prop} replay={path}")
        else:
            json.dump({"property": prop, "contract": d["name"], "failed_obligations": d["failed"],
                       "error": d["error"], "verifier_output": d.get("trace", "")},
                      open(path, "w"), indent=1)
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        viol += 1
        code = 1
    if obligations + bob == 0 or not results:
        path = os.path.join(rdir, f"{prop}-none.json")
        json.dump({"property": prop, "error": "no obligations generated"}, open(path, "w"))
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1
    trusted = sorted({o for d in results for o in d["opaque"]})
    assume = sorted({a for d in results for a in d["assume"]})
    z3n = sum(d["smt"].get("z3", [0, 0])[0] for d in results)
    z3t = sum(d["smt"].get("z3", [0, 0.0])[1] for d in results)
    c5n = sum(d["smt"].get("cvc5", [0, 0])[0] for d in results)
    c5t = sum(d["smt"].get("cvc5", [0, 0.0])[1] for d in results)
    be = {}
    for d in results:
        for k, v in d["backends"].items():
            be[k] = be.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": f"/opt/venv/bin/python -m jv.check {prop} --tier {tier}",
            "trusted_base": [
                "jv normaliser and case-splitter (/verif/jv)", "JAX tracing to jaxpr (jax.make_jaxpr)",
                "z3 / cvc5 (unsat answers)", "float64 arithmetic read as real arithmetic; literals equal up to 1e-11 relative",
            ] + [f"callee contract assumed at call sites (proved or listed where it is defined): {o}" for o in trusted],
            "contracts": len(results),
            "functions_under_contract": sorted({f for d in results for f in d["functions"]}),
            "bounded_obligations_not_counted_as_proved": bob,
            "bounded_stand_ins": [
                {"contract": d["name"], "bound": d["bounded"], "obligations": d["obligations"]}
                for d in results if d["bounded"]
            ],
            "case_split_leaves": sum(d["leaves"] for d in results),
            "definedness_obligations": sum(d["definedness"] for d in results),
            "closed_by": be,
            "solver": {"z3_queries": z3n, "z3_seconds": round(z3t, 2), "cvc5_queries": c5n, "cvc5_seconds": round(c5t, 2)},
            "extraction_cross_checks": sum(d["xchecked"] for d in results),
            "replays_on_real_code": sum(d["samples_run"] for d in results),
            "jaxpr_equations": sum(d["eqns"] for d in results),
            "vacuity_canaries_ok": all(d["canary"] for d in results if d["canary"] is not None),
            "per_contract": [
                {"contract": d["name"], "obligations": d["obligations"], "discharged": d["discharged"],
                 "seconds": round(d["wall"], 2), "bounded": d["bounded"]}
                for d in results
            ],
        },
        "assumptions": assume,
        "wall_s": round(wall, 2),
        "violations": viol,
    }
    json.dump(ev, open(os.path.join(ev_dir, f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {discharged}/{obligations} obligations discharged (+{bob} bounded), {len(results)} contracts, {wall:.1f}s")
    for s in lines:
        print(s)
    sys.stdout.flush()
    return code


def safe(s):
    return "".join(c if c.isalnum() else "_" for c in s)[:80]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("JV_JOBS", "6")))
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    sys.exit(run(a.prop, a.tier, a.only, a.v, a.j))


if __name__ == "__main__":
    main()
