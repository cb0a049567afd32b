"""Runner: python run.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

from . import env
from .explore import Ctx, Violation

KNOWN = os.path.join(env.VERIF, "known_findings.json")


class Case:
    def __init__(self, name, fn, max_execs=None):
        self.name, self.fn, self.max_execs = name, fn, max_execs


_CASES = []
_CONF = {}


def _run(i):
    c = _CASES[i]
    t0 = time.monotonic()
    ctx = Ctx(_CONF["prop"], c.name, _CONF["deadline"], c.max_execs or _CONF["max_execs"],
              _CONF["tier"], _CONF.get("replay"))
    err = None
    try:
        c.fn(ctx)
    except Violation as e:
        if ctx.violation is None:
            ctx.violation = {"property": ctx.prop, "case": c.name, "message": str(e),
                             "exploration": ctx.sub, "choices": [], "sizes": [], "labels": [],
                             "inputs": None}
    except Exception as e:
        tb = traceback.format_exc(limit=-8)
        # an exception out of the code under check while a case is being set up
        ctx.violation = {"property": ctx.prop, "case": c.name,
                         "message": "raised %s: %s\n%s" % (type(e).__name__, e, tb),
                         "exploration": ctx.sub, "choices": [], "sizes": [], "labels": [],
                         "inputs": None}
    return {"case": c.name, "execs": ctx.execs, "transitions": ctx.transitions + ctx.steps,
            "states": ctx.states, "capped": ctx.capped, "samples": ctx.samples,
            "violation": ctx.violation, "divergences": ctx.divergences,
            "skipped": ctx.skipped, "notes": ctx.notes,
            "wall": time.monotonic() - t0, "err": err}


def _spread(cases):
    """one case of every kind in turn: a run short of time still explores all kinds"""
    kinds = {}
    for c in cases:
        kinds.setdefault(re.split(r"[/]", c.name)[0], []).append(c)
    keyed = [(i / len(k), c) for k in kinds.values() for i, c in enumerate(k)]
    return [c for _, c in sorted(keyed, key=lambda t: t[0])]


def known_for(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    out = sys.stdout
    prop = a.prop
    cases, mod, setup_violation = [], None, None
    try:
        env.setup()
        mod = importlib.import_module("checks." + prop.lower())
        cases = mod.cases(tier)
    except Exception as e:
        # the code under check cannot even be imported or configured
        setup_violation = {"property": prop, "case": "setup", "choices": [], "labels": [],
                           "sizes": [], "inputs": None, "exploration": 0,
                           "message": "set-up raised %s: %s\n%s" % (
                               type(e).__name__, e, traceback.format_exc(limit=-8))}
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        cases = [c for c in cases if c.name == replay["case"]]
    if a.case:
        cases = [c for c in cases if re.search(a.case, c.name)]
    cases = _spread(cases)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    _CASES[:] = cases
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    _CONF.update(prop=prop, tier=tier, deadline=t0 + budget,
                 max_execs=getattr(mod, "MAX_EXECS", {}).get(tier, 10 ** 9))
    if replay:
        _CONF["replay"] = (replay["exploration"], replay["choices"])
    results = []
    sys.stdout.flush()
    if setup_violation is None:
        # biggest first is the module's business; results arrive in any order
        if a.jobs > 1 and len(cases) > 1 and not replay:
            with mp.get_context("fork").Pool(min(a.jobs, len(cases))) as pool:
                for r in pool.imap_unordered(_run, range(len(cases)), chunksize=1):
                    results.append(r)
                    if a.v:
                        print(r["case"], "execs", r["execs"], "states", len(r["states"]),
                              "capped", r["capped"], "%.1fs" % r["wall"],
                              (r["violation"] or {}).get("message", "")[:300], flush=True)
        else:
            for i in range(len(cases)):
                r = _run(i)
                results.append(r)
                if a.v:
                    print(r["case"], "execs", r["execs"], "states", len(r["states"]),
                          "capped", r["capped"], "%.1fs" % r["wall"],
                          (r["violation"] or {}).get("message", "")[:1500], flush=True)
    results.sort(key=lambda r: names.index(r["case"]))
    viols = [r["violation"] for r in results if r["violation"]]
    if setup_violation:
        viols.append(setup_violation)
    known = known_for(prop)
    fresh, hit = [], {}
    for v in viols:
        for k in known:
            if k["case"] == v["case"] and k["match"] in v["message"]:
                hit.setdefault(k["id"], (k, v))
                break
        else:
            fresh.append(v)
    states = set()
    for r in results:
        states |= r["states"]
    capped = {r["case"]: r["capped"] for r in results if r["capped"]}
    notes = {}
    for r in results:
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
    samples = []
    for r in results:
        samples.extend(r["samples"][:1])
    step = max(1, len(samples) // 8)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["execs"] - r["skipped"] for r in results),
            "executions_outside_precondition": sum(r["skipped"] for r in results),
            "cases": len(results),
            "capped_cases": capped,
            "divergences": sum(r["divergences"] for r in results),
            "exhaustive": not capped and not viols,
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if mod else "",
            "outcomes": notes,
            "samples": samples[::step][:8] or [{"note": "no execution"}],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fresh),
    }
    if not replay and not a.case:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
    for k, v in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), file=out)
    if fresh:
        rd = os.path.join(env.VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for v in fresh[:5]:
            p = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["case"])[:80]))
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print("  case %s: %s" % (v["case"], v["message"]), file=out)
            print("VIOLATION property=%s replay=%s" % (prop, p), file=out)
        out.flush()
        return 1
    print("OK property=%s tier=%s cases=%d executions=%d states=%d transitions=%d%s wall=%.1fs" % (
        prop, tier, len(results), sum(r["execs"] for r in results), len(states),
        ev["coverage"]["transitions"], " capped=%s" % capped if capped else "", ev["wall_s"]), file=out)
    return 0
