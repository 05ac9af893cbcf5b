"""Decides one property from the current source of the package.

    python3 -m sa.run C01

exit 0: held; exit 1 with a VIOLATION line: a construct breaks it; exit 2: no verdict.
"""

import json
import os
import pathlib
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent.parent
LEVEL = "other"


def known():
    """(property, finding key) pairs that are recorded as known."""
    out = {}
    p = HERE / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: property="):
                head, _, what = line[len("known: property="):].partition(" ")
                key, _, text = what.partition(" :: ")
                out[(head, key.strip())] = text.strip()
    return out


def decide(pid):
    from . import oblig, rules
    from .props import PROPS
    spec = PROPS[pid]
    ctx = oblig.Context()
    found, cov = [], {"functions_compared": 0, "values_compared": 0, "twin_pairs": 0, "rules": {}}
    samples = []
    if spec.get("ref"):
        r, nf, nc = oblig.run_reference(ctx, spec.get("ref") or spec["twins"])
        found += r
        cov["functions_compared"], cov["values_compared"] = nf, nc
        samples += [q for q in ctx.full.spec_funcs if oblig.match(q, spec["ref"])][:5]
    if spec.get("twins"):
        r, n = oblig.run_twins(ctx, spec["twins"])
        found += r
        cov["twin_pairs"] = n
    for name in sorted({*spec.get("rules", ()), *EVERYWHERE}):
        r, n = rules.RULES[name](ctx, spec.get("ref") or spec["twins"])
        found += r
        cov["rules"][name] = n
    cov["package_functions"] = len(list(ctx.prog.functions()))
    cov["package_modules"] = len(ctx.prog.mods)
    cov.update({k: v for k, v in ctx.stats.items() if k in ("summaries", "facts", "terms")})
    cov["agreement_level"] = ctx.stats["levels"]
    cov["samples"] = samples
    if ctx.late and not found:
        raise ctx.late[0]
    least = MINIMUM.get(pid, 1)
    n = cov["functions_compared"] + cov["values_compared"] + cov["twin_pairs"] + sum(cov["rules"].values())
    if n < least and not found:
        raise oblig.AnchorMissing(f"only {n} obligations found, expected at least {least}")
    cov["obligations"] = n
    return found, cov


MINIMUM = {}
EVERYWHERE = ("release", "swallow", "lazy")


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 0)
    except ValueError:
        seed = 0
    found, cov = decide(pid)
    ok = known()
    fresh, old = [], []
    for f in found:
        (old if (pid, f.key()) in ok else fresh).append(f)
    cov["explanation"] = (
        "Every selected function of the package is reduced to its gated value-flow summary (results, exceptions with their "
        "conditions, yields, final state, effects) and compared, term by term, with the summary of the reference model or "
        "of its twin; the rules listed are checked on the resolved program. No code is run.")
    ev = HERE / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{pid}.json").write_text(json.dumps({
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": LEVEL,
        "coverage": cov, "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
        "assumptions": [
            "attributes are not rebound from outside the package; no monkey patching",
            "the Python interpreter, the standard library and third-party packages behave as documented",
        ]}, indent=1) + "\n")
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f}")
    if fresh:
        rp = ev / f"{pid}.findings.json"
        rp.write_text(json.dumps([{"rule": f.rule, "where": f.where, "construct": f.construct, "what": f.what} for f in fresh],
                                 indent=1) + "\n")
        for f in fresh[:12]:
            print(f"  {f}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid} held: {cov['obligations']} obligations, {cov['summaries']} summaries, {cov['facts']} facts, "
          f"{time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        print(f"no verdict for {sys.argv[1:]}", file=sys.stderr)
        rc = 2
    sys.exit(rc)
