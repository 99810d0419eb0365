from __future__ import annotations

import json
import os
import time

from . import harness
from .interp import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def registry():
    from .checks import closeness, drawing, epochs, gradients, keplerian, lightcurves, multiprec, purity, starry, surface, system, transform, units

    reg = {}
    for mod in (closeness, drawing, epochs, keplerian, lightcurves, multiprec, starry, system, surface, units, gradients, transform, purity):
        for k, v in vars(mod).items():
            if len(k) in (3, 4) and k[0].isupper() and k[1:].isdigit() and callable(v):
                reg[k] = v
    return reg


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def check(prop, tier, only=None, verbose=False):
    reg = registry()
    if prop not in reg:
        print(f"ERROR unknown property {prop}")
        return 2
    t0 = time.time()
    os.environ["VERIF_TIER"] = tier
    run = harness.Run(prop, "thorough" if tier == "thorough" else "quick")
    run.only = only
    try:
        reg[prop](run)
        fatal = None
    except harness.AnchorVanished as e:
        fatal = f"anchor vanished: {e}"
    except Exception as e:  # noqa
        import traceback

        traceback.print_exc()
        fatal = f"{type(e).__name__}: {e}"
    wall = time.time() - t0
    kf = known(prop)
    ref, shown, und = [], [], []
    for r in run.results:
        if r["status"] == "refuted":
            hit = [k for k in kf if k["obligation"] == r["obligation"]]
            (shown if hit else ref).append((r, hit))
        elif r["status"] == "undecided":
            und.append(r)
    counts = {}
    for r in run.results:
        counts[r["status"]] = counts.get(r["status"], 0) + 1
    decided = sum(v for k, v in counts.items() if k not in ("undecided", "anchor"))
    if verbose:
        for r in run.results:
            if r["status"] not in ("proved", "holds", "congruent") or only:
                print(r["status"], r["obligation"], r.get("detail", ""), r.get("site", ""), r.get("valuation", "") or "")
                if "trace" in r:
                    print(r["trace"])
    evid(prop, tier, run, counts, wall, und, shown, fatal, len(ref))
    seen = set()
    for r, hit in shown:
        for h in hit:
            if h["what"] not in seen:
                seen.add(h["what"])
                print(f"KNOWN-FINDING: property={prop} {h['what']}")
    for r in und[:5]:
        print(f"note: undecided {r['obligation']}: {r['detail'][:160]}")
    if ref:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{prop}.json")
        with open(p, "w") as f:
            json.dump({"property": prop, "tier": tier, "repo": REPO, "violations": [r for r, _ in ref][:40],
                       "replay_cmd": f"cd /verif && ./check {prop} --obligation '{ref[0][0]['obligation']}' --verbose"}, f, indent=1)
        for r, _ in ref[:5]:
            print(f"  refuted: {r['obligation']}  [{r['rule']}]")
            print(f"    {r['detail']}")
            if r.get("site"):
                print(f"    at {r['site']}")
            for s in (r.get("sites") or [])[:4]:
                print(f"    slice: {s}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: {sum(counts.values())} obligations {counts} in {wall:.1f}s")
    if fatal:
        print("ERROR", fatal)
        return 2
    if not run.results or decided == 0:
        print("ERROR nothing decided")
        return 2
    return 0


EXPLANATION = (
    "Static: the current sources under {repo} are parsed and interpreted over an abstract domain (value graph, units, "
    "nullness/configuration partition); nothing of the repository is imported or executed. Each obligation compares value-graph "
    "nodes of the repository's entry points with the nodes its property demands. proved = identical value number; congruent = no "
    "separating valuation in the random-interpretation domain; holds = structural fact established on every analysed path; "
    "undecided = the analysis lost precision (never reported as a violation)."
)


def digest():
    import hashlib

    h = hashlib.sha256()
    n = 0
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                n += 1
                h.update(open(os.path.join(d, f), "rb").read())
    return n, h.hexdigest()[:16]


def evid(prop, tier, run, counts, wall, und, shown, fatal, nref=0):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rules = {}
    for r in run.results:
        d = rules.setdefault(r["rule"], {})
        d[r["status"]] = d.get(r["status"], 0) + 1
    nf, dg = digest()
    decided = sum(v for k, v in counts.items() if k in ("proved", "holds", "congruent"))
    cov = {
        "explanation": EXPLANATION.format(repo=REPO),
        "obligations": len(run.results),
        "discharged": decided,
        "by_status": counts,
        "comparisons": run.comparisons,
        "valuations": run.probes,
        "rules": rules,
        "functions_analysed": {":".join(k) if isinstance(k, tuple) else k: v for k, v in sorted(run.analysed.items())},
        "n_functions_analysed": len(run.analysed),
        "source_files": nf,
        "source_digest": dg,
        "undecided": [{"obligation": r["obligation"], "why": r.get("detail", "")[:200]} for r in und[:20]],
        "known_findings": [r["obligation"] for r, _ in shown],
        "samples": [r["obligation"] + ": " + r["status"] for r in run.results[:: max(1, len(run.results) // 12)]],
    }
    cov.update(run.coverage)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "violations": nref,
        "wall_s": round(wall, 3),
    }
    if fatal:
        ev["coverage"]["fatal"] = fatal
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


ASSUMPTIONS = [
    "real arithmetic: rounding is not modelled (guards on machine epsilon are evaluated on exact values)",
    "the analyser's summaries of jax/numpy/jpu/pint/equinox functions are faithful",
    "numerical kernels named in sa/contracts.py are represented by their mathematical contract at call boundaries where stated",
]
