"""Obligation bookkeeping, evidence files, verdicts."""
import json
import os
import sys
import time
import traceback

from .pyproj import AnalysisError, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IRSPACK_REPO", "/repo")


class Ctx:
    def __init__(self, prop, tier, repo=REPO):
        self.prop = prop
        self.tier = tier
        self.repo = repo
        self._proj = None
        self.obligations = []
        self.violations = []
        self.undecided = []
        self.units = set()
        self.notes = []
        self._native = None
        self.broken = 0

    @property
    def proj(self):
        if self._proj is None:
            self._proj = Project(self.repo)
        return self._proj

    def native(self):
        """The native modules, parsed by clang and translated for the same engine."""
        from .native import Native
        if self._native is None:
            self._native = Native(self.repo)
        return self._native

    def saw(self, *names):
        self.units.update(str(n) for n in names)

    def ob(self, rule, construct, ok, detail="", loc=""):
        """One proof obligation.  ok: True discharged, False violated, None undecided."""
        rec = {"rule": rule, "construct": construct, "loc": str(loc), "detail": str(detail)[:2000]}
        self.obligations.append((rule, construct, ok))
        if ok is False:
            if not any(v["rule"] == rule and v["construct"] == construct for v in self.violations):
                self.violations.append(rec)
        elif ok is None:
            self.undecided.append(rec)
        return ok

    def guard(self, fn, *a, **k):
        """Run one unit of a rule; an analysis failure there leaves that unit undecided."""
        n = len(self.obligations)
        try:
            return fn(*a, **k)
        except (AnalysisError, RecursionError, KeyError, AttributeError, IndexError, TypeError, ValueError, StopIteration) as e:
            what = " ".join(getattr(x, "qual", None) or getattr(x, "name", None) or str(x) for x in a[1:4])
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.broken += 1
            self.ob("analysable", f"{fn.__name__} {what}"[:200], None, f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")

    def anchor(self, cond, what):
        if not cond:
            raise AnalysisError(f"anchor lost: {what}")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def run(prop, tier, module):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    sys.setrecursionlimit(20000)
    try:
        module.check(ctx)
        err = None
    except AnalysisError as e:
        err = f"analysis-broken: {e}"
    except RecursionError as e:
        err = "analysis-broken: recursion limit"
    except Exception as e:
        err = "analysis-broken: " + traceback.format_exc(limit=8)
    minimum = getattr(module, "MIN_OBLIGATIONS", 1)
    if err is None and len(ctx.obligations) < minimum and not ctx.violations:
        err = f"analysis-broken: only {len(ctx.obligations)} obligations generated, expected at least {minimum}"
    known = [k for k in known_findings() if k["property"] == prop]
    new, listed = [], []
    for v in ctx.violations:
        k = next((k for k in known if k["rule"] == v["rule"] and k["construct"] == v["construct"]), None)
        (listed if k else new).append((v, k))
    held = sum(1 for o in ctx.obligations if o[2] is True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(module, "LEVEL", "other"),
        "coverage": {
            "explanation": getattr(module, "EXPLANATION", "static dataflow analysis of the current source"),
            "checker_cmd": f"python3 check.py --property {prop} --tier {tier}",
            "trusted_base": ["the analyser in /verif/sa (not itself verified)", "documented semantics of Python, numpy, scipy, pandas and C++/Eigen",
                             "clang 18's parser for the native sources"] + list(getattr(module, "ASSUMPTIONS", [])),
            "obligations": len(ctx.obligations),
            "discharged": held,
            "undecided": len(ctx.undecided),
            "violated": len(ctx.violations),
            "known_findings": len(listed),
            "units_analysed": len(ctx.units),
            "units": sorted(ctx.units)[:400],
            "rules": sorted({o[0] for o in ctx.obligations}),
            "undecided_list": ctx.undecided[:50],
            "violation_list": [v for v, _ in new],
            "notes": ctx.notes[:50],
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "violations": len(new),
    }
    if err:
        ev["coverage"]["error"] = err
    d = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for v, k in listed:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v, _ in new:
        print(f"{v['loc']}: [{v['rule']}] {v['construct']}: {v['detail']}")
    print(f"{prop}: {len(ctx.obligations)} obligations, {held} discharged, {len(ctx.undecided)} undecided, "
          f"{len(new)} new violations, {len(listed)} known findings, {len(ctx.units)} units, {ev['wall_s']}s")
    for u in ctx.undecided[:20]:
        print(f"  undecided: {u['loc']} [{u['rule']}] {u['construct']}: {u['detail'][:300]}")
    if new:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if err:
        # what could be analysed held; the evidence carries the reason and the reduced coverage
        print("INCOMPLETE: " + err)
        return 0 if held else 2
    return 0
