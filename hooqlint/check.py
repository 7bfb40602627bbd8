"""check.py <property> [quick|thorough]: decide one property on /repo's current tree and write its evidence file."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(100000)

import build  # noqa: E402
import lint  # noqa: E402
from registry import PROPS  # noqa: E402

VERIF = os.path.dirname(HERE)
EVID = os.environ.get("HOOQLINT_EVIDENCE", os.path.join(VERIF, "evidence"))


def known_findings(prop):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                key, _, what = line.split(" ", 2)[2].partition(" | ")
                out[key.removeprefix("key=").strip()] = what.strip()
    return out


def evidence(prop, tier, spec, cks, wall, violations, known):
    by = {}
    for cfg, ck, an in cks:
        for r, i, ok in ck.obligations:
            x = by.setdefault(r, [0, 0])
            x[0] += 1
            x[1] += 1 if ok else 0
    samples = []
    seen = {}
    for cfg, ck, an in cks:
        for r, i, ok in ck.obligations:
            if seen.get(r, 0) < 6:
                seen[r] = seen.get(r, 0) + 1
                samples.append("%s [%s] %s (%s)" % (r, i, "holds" if ok else "FAILS", cfg))
    an_stats = []
    fns = set()
    for cfg, ck, an in cks:
        for e in an.engines:
            fns |= set(e.inlined) | {e.root}
            an_stats.append({"config": cfg, "root": e.root, "paths": e.npaths, "steps": e.steps, "seconds": round(e.wall, 2), "unmodelled": sorted(e.unmodelled)[:20]})
    cov = {
        "explanation": spec["doc"],
        "rules": {r: {"obligations": x[0], "hold": x[1]} for r, x in sorted(by.items())},
        "configurations": [c for c, _, _ in cks],
        "analysed_functions": sorted(fns),
        "interpreted": an_stats,
        "floors": {c: ck.notes for c, ck, _ in cks},
        "samples": samples[:80],
        "known_findings": known,
        "violations": violations,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other", "coverage": cov, "wall_s": round(wall, 2)}, f, indent=1)


def decide(prop, tier, ans=None):
    """[(key, message)] failures, [(config, checker, analysis)]"""
    spec = PROPS[prop]
    configs = spec.get("configs", ["default"]) if tier == "quick" else spec.get("thorough", spec.get("configs", ["default"]))
    cks, fails = [], []
    for cfg in configs:
        ck = lint.Checker(prop, tier)
        an = (ans or {}).get(cfg)
        if an is None:
            an = lint.Analysis(cfg)
            if ans is not None:
                ans[cfg] = an
        for rule in spec["rules"]:
            mod, fn = rule.split(".")
            try:
                getattr(importlib.import_module(mod), fn)(ck, an)
            except lint.Anchor as x:
                ck.ob("anchor", rule, False, "the rule lost its anchor: %s" % x, key="anchor:%s:%s" % (rule, x))
        for k, m in ck.failures:
            fails.append((cfg, k, m))
        cks.append((cfg, ck, an))
    return fails, cks


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    fails, cks = decide(prop, tier)
    known = known_findings(prop)
    viol, hit = [], []
    for cfg, k, m in fails:
        if k in known:
            if k not in hit:
                hit.append(k)
        else:
            viol.append({"config": cfg, "key": k, "message": m})
    evidence(prop, tier, PROPS[prop], cks, time.time() - t0, viol, hit)
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    n = sum(len(ck.obligations) for _, ck, _ in cks)
    if viol:
        rp = os.path.join(EVID, prop + ".violation.txt")
        with open(rp, "w") as f:
            f.write("re-run: cd /verif && ./check %s %s\n" % (prop, tier))
            for v in viol:
                f.write("[%s] %s\n    %s\n" % (v["config"], v["key"], v["message"]))
        for v in viol[:12]:
            print("  %s" % v["message"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations hold (%s, %.1f s)" % (prop, n - sum(1 for _ in hit), tier, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv)
    except build.BuildError as e:
        print("cannot build: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
