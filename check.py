#!/usr/bin/env python3-vt
"""check.py PROPERTY TIER: discharges the contracts' obligations of the property on the current
sources of /repo and replays the property's concrete cases on the real code."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("REPO", "/repo")


def harness(prop, tier, seed, out, extra=()):
    return subprocess.Popen(["bash", os.path.join(HERE, "harness", "run.sh"), prop, tier, str(seed), out, *extra],
                            env=dict(os.environ, REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish(p, out, timeout, seed=1, min_age=200):
    try:
        log, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-P", str(p.pid)])
        p.kill()
        log = "timeout"
        p.communicate()
        subprocess.run(["pkill", "-f", out])
        try:                       # a case that takes a second or so on the unchanged tree and does not end: the code under test does not terminate
            now = json.load(open(out + ".now"))
        except (OSError, ValueError):
            now = None
        if now and not os.path.exists(out) and time.time() - now["start"] > min_age:
            return dict(cases={}, checks=0, skipped={}, known=[], seed=seed,
                        failures=[dict(case=now["case"], message=f"did not finish within {time.time() - now['start']:.0f} s")]), log
    if os.path.exists(out):
        return json.load(open(out)), log
    return None, log


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from wwv import propmap
    scratch = tempfile.mkdtemp(prefix="wwcheck_")
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        out = os.path.join(scratch, "h.json")
        hp = harness(prop, tier, seed, out)
        from wwv.prove import prove
        from wwv.contracts import load
        cons, _ = load()
        quals = propmap.PROPS[prop]
        lem = propmap.lemmas_for(prop) if hasattr(propmap, "lemmas_for") else []
        big = tier == "thorough"
        pr = prove(REPO, quals, lem, jobs=7, deadline=1500 if big else 330, t1=60 if big else 15, t2=300 if big else 45)
        hres, hlog = finish(hp, out, 7200 if big else max(60, t0 + 420 - time.time()), seed, 1800 if big else 200)
        fails = list(hres["failures"]) if hres else []
        runs = [hres] if hres else []
        # the harness itself could not run: retry once, then it is an error of the check unless the package does not import
        if hres is None:
            hp = harness(prop, tier, seed, out)
            hres, hlog = finish(hp, out, 300, seed)
            if hres:
                runs, fails = [hres], list(hres["failures"])
        if not fails and hres is not None and (pr["failed"] or pr["lost"]):
            # a proof is missing: look further for a concrete failing input
            k = 1
            while not fails and time.time() - t0 < (1800 if big else 480) and k <= (12 if big else 3):
                o2 = os.path.join(scratch, f"h{k}.json")
                procs = [(harness(prop, tier, seed + 101 * k + j, o2 + str(j), ("--budget", "90")), o2 + str(j), seed + 101 * k + j) for j in range(3)]
                for p, o, sd in procs:
                    r2, _ = finish(p, o, 300, sd)
                    if r2:
                        runs.append(r2)
                        fails += r2["failures"]
                k += 1
        return verdict(prop, tier, seed, t0, pr, runs, fails, hlog, rdir, quals, lem, cons, propmap)
    finally:
        subprocess.run(["rm", "-rf", scratch])


def known_entries(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith(f"known: property={prop} "):
            out.append(line[len(f"known: property={prop} "):].strip())
    return out


def verdict(prop, tier, seed, t0, pr, runs, fails, hlog, rdir, quals, lem, cons, propmap):
    viol = 0
    code = 0
    lines = []
    known = known_entries(prop)
    for k in known:
        key = k.split()[0]
        if any(key in (r.get("known") or []) for r in runs):
            lines.append(f"KNOWN-FINDING: property={prop} {k}")
    if fails:
        f = fails[0]
        path = os.path.join(rdir, f"{prop}-input.json")
        sd = next((r["seed"] for r in runs if f in r["failures"]), seed)
        json.dump(dict(property=prop, kind="failing input on the real code", case=f["case"], message=f["message"], traceback=f.get("traceback"),
                       seed=sd, tier=tier, reproduce=f"bash harness/run.sh {prop} {tier} {sd} /tmp/out.json --case '{f['case']}'",
                       failed_obligations=[dict(function=o["function"], obligation=f"{o['kind']}: {o['text']}", line=o["line"], solver=o["solver"])
                                           for o in pr["failed"][:20]], all_failures=fails[:20]), open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}")
        code, viol = 1, len(fails)
    elif pr["failed"]:
        o = pr["failed"][0]
        path = os.path.join(rdir, f"{prop}-obligation.json")
        json.dump(dict(property=prop, kind="failed proof obligation, no failing input found",
                       obligation=f"{o['function']}: {o['kind']}: {o['text']}", line=o["line"], verifier_output=o["solver"],
                       smtlib=o["smt"], others=[f"{x['function']}: {x['kind']}: {x['text']} (line {x['line']}): {x['solver']}" for x in pr["failed"][1:40]],
                       reproduce=f"cd /verif && python3-vt -m wwv.prove {o['function'].split('<')[0]}"), open(path, "w"), indent=1)
        lines.append(f"failed obligation: {o['function']}: {o['kind']}: {o['text']}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code, viol = 1, len(pr["failed"])
    elif not runs:
        lines.append("ERROR: the concrete cases could not be run: " + (hlog or "")[-2000:])
        code = 2
    ev = dict(property=prop, tier=tier, seed=seed, level=propmap.LEVEL.get(prop, "proof") if hasattr(propmap, "LEVEL") else "proof",
              wall_s=round(time.time() - t0, 1), violations=viol)
    checker = f"cd /verif && python3-vt check.py {prop} {tier}   (VC generator wwv; back ends z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2)"
    ev["coverage"] = dict(
        obligations=pr["obligations"], discharged=pr["discharged"], checker_cmd=checker,
        trusted_base=propmap.TRUSTED if hasattr(propmap, "TRUSTED") else ["wwv VC generator", "z3", "cvc5"],
        functions_under_contract=[dict(function=f["name"], status=f["status"], obligations=f["obligations"], discharged=f["discharged"],
                                       solver_s=f["solver_s"], callees_by_contract=f["callees_by_contract"], inlined=f["inlined"],
                                       **({"reason": f["error"]} if f["error"] else {})) for f in pr["functions"]],
        solver_s=round(pr["solver_s"], 1), discharged_by=pr["backends"], lemmas_proved=list(lem),
        structure_lost=pr["lost"], undecided_this_run=pr["undecided"], failed=[f"{o['function']}: {o['kind']}: {o['text']}" for o in pr["failed"][:50]],
        bounded=dict(label="bounded, not counted as proved", functions=propmap.BOUNDED.get(prop, []),
                     cases=sum(len(r["cases"]) for r in runs), evaluations=sum(r["checks"] for r in runs),
                     seeds=[r["seed"] for r in runs], skipped=runs[0]["skipped"] if runs else {},
                     samples=list(runs[0]["cases"])[:8] if runs else []),
        explanation="obligations generated from the current source and discharged by SMT; the rest of the property is evaluated on the "
                    "real code over the bounded cases listed here",
        slowest_obligations=pr.get("slow", [])[:5])
    ev["assumptions"] = (propmap.ASSUME if hasattr(propmap, "ASSUME") else []) + pr["notes"] + [f"axiom {a}" for a in pr["axioms"]]
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    for l in pr["lost"]:
        lines.append(f"note: {l['function']} is not covered by proof on this tree ({l['reason'][:200]}); bounded check only")
    for l in pr["undecided"]:
        lines.append(f"note: {l['function']}: {l['reason'][:200]}")
    lines.append(f"{prop} {tier}: obligations {pr['discharged']}/{pr['obligations']} discharged, functions {len(pr['functions'])}, "
                 f"lost {len(pr['lost'])}, bounded evaluations {sum(r['checks'] for r in runs)}, wall {time.time()-t0:.0f}s")
    print("\n".join(lines), flush=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
