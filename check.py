#!/usr/bin/env python3
"""Decide one property from the current source:  python3 check.py C01
Exit 0 held / 1 violation / 2 analysis broken (no verdict)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.index import AnalysisBroken, Project, REPO  # noqa: E402


class Ctx(object):
    def __init__(self, pid, p):
        self.pid, self.p = pid, p
        self.obligations = []     # (rule, construct, ok, loc, detail)
        self.notes = []
        self.units = set()
        self.stats = {}
        self.assumptions = []

    def ob(self, rule, construct, ok, loc="", detail=""):
        self.obligations.append((rule, construct, bool(ok), str(loc), str(detail)))
        return ok

    def bad(self, rule, construct, loc="", detail=""):
        return self.ob(rule, construct, False, loc, detail)

    def unit(self, *fis):
        for f in fis:
            self.units.add(getattr(f, "qual", str(f)))

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("status") == "open"]


def run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("sa.rules." + pid.lower())
    p = Project(REPO)
    ctx = Ctx(pid, p)
    mod.check(ctx)
    rules = {}
    for r, c, ok, loc, det in ctx.obligations:
        d = rules.setdefault(r, [0, 0])
        d[0] += 1
        d[1] += ok
    for r, n in getattr(mod, "MIN_INSTANCES", {}).items():
        if rules.get(r, [0])[0] < n and all(o[2] for o in ctx.obligations):
            raise AnalysisBroken("rule %s has %d instances, at least %d expected" % (r, rules.get(r, [0])[0], n))
    known = {(k["property"], k["rule"], k["construct"]): k for k in known_findings()}
    viol, seen_known = [], []
    keys = set()
    for r, c, ok, loc, det in ctx.obligations:
        if ok or (r, c) in keys:
            continue
        keys.add((r, c))
        k = known.get((pid, r, c))
        if k is not None:
            seen_known.append(k)
        else:
            viol.append((r, c, loc, det))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    samples = [{"rule": r, "construct": c, "at": l, "held": ok} for r, c, ok, l, _ in ctx.obligations[:12]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": mod.TECHNIQUE + ". " + " ".join((mod.__doc__ or "").split()),
                       "obligations": len(ctx.obligations), "discharged": sum(1 for o in ctx.obligations if o[2]),
                       "rules": {r: {"instances": d[0], "held": d[1]} for r, d in sorted(rules.items())},
                       "functions_analysed": len(ctx.units), "functions": sorted(ctx.units)[:200],
                       "modules_parsed": len(p.modules), "stats": ctx.stats,
                       "known_findings": [k["construct"] for k in seen_known], "samples": samples},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    rep = os.path.join(ev_dir, pid + ".violations.txt")
    if viol:
        with open(rep, "w") as f:
            for r, c, loc, det in viol:
                f.write("[%s] %s\n  at %s\n  %s\n\n" % (r, c, loc, det))
        for r, c, loc, det in viol[:20]:
            print("  [%s] %s at %s: %s" % (r, c, loc, det[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    print("%s: %d obligations hold (%s)" % (pid, len(ctx.obligations), ", ".join("%s %d" % (r, d[0]) for r, d in sorted(rules.items()))))
    return 0


def main(argv):
    if argv[:1] == ["--selfcheck"]:
        p = Project(REPO)
        for fn in sorted(os.listdir(os.path.join(HERE, "sa", "rules"))):
            if fn.startswith("c") and fn.endswith(".py"):
                importlib.import_module("sa.rules." + fn[:-3])
        print("setup ok: %d modules parsed" % len(p.modules))
        return 0
    if argv[:1] == ["--all"]:
        rc = {}
        for fn in sorted(os.listdir(os.path.join(HERE, "sa", "rules"))):
            if fn.startswith("c") and fn.endswith(".py"):
                i = fn[:-3].upper()
                if len(argv) > 1 and i not in argv[1:]:
                    continue
                t = time.time()
                try:
                    rc[i] = run(i)
                except AnalysisBroken as e:
                    print("ANALYSIS-BROKEN %s: %s" % (i, e))
                    rc[i] = 2
                except Exception:
                    traceback.print_exc()
                    rc[i] = 3
                print("   (%s: %.1fs)" % (i, time.time() - t))
        print({k: v for k, v in rc.items() if v})
        return max(list(rc.values()) or [0])
    try:
        return run(argv[0])
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (argv[0], e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
