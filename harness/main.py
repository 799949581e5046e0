"""usage: main.py PROPERTY TIER SEED OUT.json [--case NAME] [--budget SECONDS]"""
import argparse
import json
import os
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("tier")
ap.add_argument("seed", type=int)
ap.add_argument("out")
ap.add_argument("--case")
ap.add_argument("--budget", type=float, default=None)
a = ap.parse_args()
t0 = time.time()
res = dict(property=a.prop, tier=a.tier, seed=a.seed)
import wildwood  # noqa
import wildwood.forest  # noqa
res["import_s"] = round(time.time() - t0, 1)
res["tree"] = os.path.dirname(os.path.dirname(os.path.abspath(wildwood.__file__)))
import common
import props
budget = a.budget or (150 if a.tier == "quick" else 1800)
rec = common.Rec(a.prop, budget)
rec.progress = a.out + ".now"
if a.case:
    run0 = rec.run
    rec.run = lambda name, fn, *x, **k: run0(name, fn, *x, **k) if name == a.case else None
getattr(props, "run_" + a.prop)(rec, a.tier, a.seed, None)
res.update(cases=rec.cases, failures=rec.failures, skipped=rec.skipped, checks=rec.checks,
           known=getattr(rec, "known", []), wall_s=round(time.time() - t0, 1))
json.dump(res, open(a.out, "w"), indent=1, default=str)
print(a.prop, "cases", len(rec.cases), "failures", len(rec.failures), "skipped", len(rec.skipped), "checks", rec.checks,
      "wall", res["wall_s"])
for f in rec.failures[:5]:
    print("FAIL", f["case"], f["message"])
    if "traceback" in f:
        print(f["traceback"])
