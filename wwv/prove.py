"""Generates every obligation of a set of functions from the current sources and discharges them."""
import ast
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import multiprocessing as mp
import z3
from .front import Program, Unsupported
from .execu import Exec
from .contracts import load
from . import solve

HERE = os.path.dirname(os.path.abspath(__file__))
SHAPES = os.path.join(HERE, "shapes.json")
PROVED = os.path.join(HERE, "proved.json")     # digest of the obligation set of each function, as proved when this was committed
HINTS = os.path.join(HERE, "hints.json")       # which back end discharged the harder obligations (tried first; the usual sequence follows)


# ------------------------------------------------------------------ program shape
def shape_of(func):
    """What the contracts' loop invariants rely on: loop skeleton, local names, called names."""
    loops = []

    def walk(n, depth):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.For):
                loops.append([depth, "for", ast.unparse(c.target)])
                walk(c, depth + 1)
            elif isinstance(c, ast.While):
                loops.append([depth, "while", ""])
                walk(c, depth + 1)
            else:
                walk(c, depth)
    walk(func.node, 0)
    names = sorted({x.id for x in ast.walk(func.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
    calls = set()
    for x in ast.walk(func.node):
        if isinstance(x, ast.Call):
            f = x.func
            calls.add(f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else "?"))
    params = [a.arg for a in func.node.args.args]
    return {"loops": loops, "locals": names, "calls": sorted(calls), "params": params}


def load_shapes():
    if os.path.exists(SHAPES):
        return json.load(open(SHAPES))
    return {}


# ------------------------------------------------------------------ generation (one process per function variant)
_PROG = None
_RECORD = False


def _gen(job):
    kind, qual, vi = job
    t0 = time.time()
    out = dict(job=list(job), label=qual, obs=[], status="ok", error="", notes=[], used=[], inlined=[], paths=0, vac=[], canary=[])
    try:
        if kind == "lemma":
            from . import lemmas
            obs = lemmas.obligations(qual)
            out["label"] = "lemma " + qual
            for name, hyps, goal in obs:
                out["obs"].append(_dump("lemma " + qual, "lemma", name, hyps, goal, 0))
            out["digest"] = digest(out) if _RECORD else None
            out["gen_s"] = time.time() - t0
            return out
        if kind == "py":
            from .contracts_py import PY
            from .pyvc import PyExec
            ex = PyExec(_PROG.repo, PY, PY[qual])
            try:
                pre, ends, out["paths"] = ex.verify()
            finally:
                out["line"] = ex.line
            out["used"], out["inlined"] = sorted(ex.used), sorted(ex.inlined)
            for k, text, hyps, goal, line in ex.obs:
                d = _dump(qual, k, text, hyps, goal, line)
                d["cex"] = ex.counterexample(hyps, goal) if d["smt"] else ""
                out["obs"].append(d)
            out["vac"] = [solve.to_smt2(pre, z3.BoolVal(False))[0]]
            out["canary"] = [solve.to_smt2(h, z3.BoolVal(False))[0] for h in ends]
            out["digest"] = digest(out) if _RECORD else None
            out["gen_s"] = time.time() - t0
            return out
        cons, defs = load()
        c = cons[qual]
        v = c.variants[vi]
        eng = Exec(_PROG, cons, defs)
        try:
            fr, obs = eng.verify(c, v)
        finally:
            out["line"] = eng.line
        out["label"] = fr.label
        out["paths"] = fr.paths
        out["notes"] = eng.notes
        out["used"] = sorted(eng.used_contracts)
        out["inlined"] = sorted(eng.inlined)
        for o in obs:
            out["obs"].append(_dump(fr.label, o.kind, o.text, o.hyps, o.goal, o.line, c.slim | {x for k, xs in c.slim_for.items() if o.text.startswith(k) for x in xs}))
        out["vac"] = [solve.to_smt2(fr.pre_pc, z3.BoolVal(False))[0]]
        out["canary"] = [solve.to_smt2(h, z3.BoolVal(False))[0] for h in getattr(fr, "end_pcs", [])[:40]]
        if not fr.paths:
            out["status"], out["error"] = "unsupported", "no path reaches a return"
    except Unsupported as e:
        out["status"], out["error"] = "unsupported", f"line {out.get('line')}: {e}"
    except RecursionError as e:
        out["status"], out["error"] = "unsupported", "recursion limit"
    except Exception as e:
        out["status"], out["error"] = "unsupported", f"line {out.get('line')}: internal {type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()
    out["digest"] = digest(out) if _RECORD else None
    out["gen_s"] = time.time() - t0
    return out


def digest(g):
    """of the statements themselves: names are numbered by first occurrence"""
    txt = "\n".join(f"{o['kind']} {o['text']} {o['trivial']}\n{o['smt']}" for o in g["obs"]) + "\n".join(g["vac"]) + g["status"]
    no = {}
    txt = re.sub(r"\s+", " ", txt)
    txt = re.sub(r"![!\w]+", lambda m: "#%d" % no.setdefault(m.group(0), len(no)), txt)
    return hashlib.sha256(txt.encode()).hexdigest()[:24]


def _dump(func, kind, text, hyps, goal, line, slim=()):
    d = dict(func=func, kind=kind, text=text, line=line, smt=None, trivial=None, axioms=[], alt=None)
    if z3.is_true(goal):
        d["trivial"] = True
    elif z3.is_false(goal) and not hyps:
        d["trivial"] = False
    else:
        d["smt"], used = solve.to_smt2(hyps, goal)
        d["axioms"] = sorted(used)
        if slim:
            few = solve.without(hyps, slim)
            if len(few) < len(hyps):
                d["alt"], used = solve.to_smt2(few, goal)
                d["axioms"] = sorted(set(d["axioms"]) | used)
    return d


def closure(quals):
    """the functions to verify: the given ones (contracts of their callees are verified by their own entry)"""
    return list(quals)


def prove(repo, quals, lemma_names=(), jobs=8, deadline=500, t1=5, t2=45, progress=None):
    """-> dict with per-function results"""
    global _PROG
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = dict(functions=[], obligations=0, discharged=0, solver_s=0.0, backends={}, notes=[], failed=[], lost=[], undecided=[], digests={}, axioms=[])
    shapes = load_shapes()
    try:
        _PROG = Program(repo)
    except (Unsupported, SyntaxError, OSError) as e:
        res["lost"].append(dict(function="*", reason=f"sources not parseable: {e}"))
        res["wall_s"] = time.time() - t0
        return res
    cons, defs = load()
    work = [("lemma", n, 0) for n in lemma_names]
    from .contracts_py import PY
    work += [("py", q, 0) for q in quals if q in PY]
    quals = [q for q in quals if q not in PY]
    for q in quals:
        for vi in range(len(cons[q].variants)):
            work.append(("fun", q, vi))
    proved_before = json.load(open(PROVED)) if os.path.exists(PROVED) else {}
    changed = {}
    for q in quals:
        f = _PROG.func(q)
        if f is None:
            changed[q] = "function not found"
        elif q in shapes and shapes[q] != shape_of(f):
            changed[q] = "loop skeleton, local names or calls changed"
    ctx = mp.get_context("fork")
    gens = []
    with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
        for g in ex.map(_gen, work):
            gens.append(g)
            if progress:
                progress(g)
    res["gen_s"] = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="wwv_smt_")
    tasks = []
    hints = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
    try:
        for gi, g in enumerate(gens):
            seen = {}
            for oi, o in enumerate(g["obs"]):
                nm = f"{o['kind']}|{o['text']}"
                seen[nm] = seen.get(nm, 0) + 1
                o["name"] = hashlib.sha256(f"{nm}|{seen[nm]}".encode()).hexdigest()[:10]
                if o["trivial"] is True:
                    o["res"] = ("proved", "trivial", 0.0, "")
                elif o["trivial"] is False:
                    o["res"] = ("failed", "trivial", 0.0, "goal is false")
                else:
                    p = os.path.join(tmp, f"o{gi}_{oi}.smt2")
                    with open(p, "w") as fh:
                        fh.write(o["smt"])
                    o["path"] = p
                    tasks.append(("ob", o))
            for k, txt in enumerate(g["vac"] + g["canary"]):
                p = os.path.join(tmp, f"v{gi}_{k}.smt2")
                with open(p, "w") as fh:
                    fh.write(txt)
                tasks.append(("vac" if k < len(g["vac"]) else "canary", (g, p)))
        for g in gens:
            g["vac_r"], g["can_r"] = [], []

        def stage1(t):
            kind, o = t
            if kind == "ob":
                seq, alt = [(solve.STAGE1, 2, "path")], []
                if o["alt"]:
                    o["path_alt"] = o["path"] + ".alt.smt2"
                    with open(o["path_alt"], "w") as fh:
                        fh.write(o["alt"])
                    seq, alt = [(solve.STAGE1, 2, "path_alt")] + seq, [("z3-4.8.12/ematch", 3, "path_alt")]
                seq += alt + [("z3-4.8.12/ematch", 3, "path"), (solve.STAGE1, t1, "path"), ("cvc5-1.1.2", 4, "path")]
                dt, why = 0.0, []
                h = hints.get(o["func"], {}).get(o["name"])
                if h and (h[1] == "path" or o["alt"]):     # what discharged it when the contracts were committed
                    seq.insert(0, (h[0], max(8, int(4 * h[2])), h[1]))
                for no, (b, tl, key) in enumerate(seq):
                    if b == solve.STAGE1 and tl == t1 and any(w == b + ":unknown" for w in why):
                        continue      # saturated already
                    r, d2 = solve.run_one(b, o[key], tl)
                    dt += d2
                    if r == "unsat":
                        o["res"] = ("proved", b, dt, "")
                        o["win"] = (b, key, round(d2, 1), h is not None and no == 0)
                        break
                    why.append(f"{b}:{r}")
                    if r == "sat" and key == "path":
                        o["res"] = ("open", b, dt, "; ".join(why))
                        break
                else:
                    o["res"] = ("open", "", dt, "; ".join(why))
            else:
                g, p = o
                r, dt = solve.run_one(solve.STAGE1, p, 3)
                (g["vac_r"] if kind == "vac" else g["can_r"]).append(r in ("sat", "unknown", "timeout"))
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(stage1, tasks))
        left = [o for k, o in tasks if k == "ob" and o["res"][0] == "open"]
        res["stage2"] = len(left)

        def race(o):
            _, _, dt, why = o["res"]
            if time.time() - t0 > deadline:
                o["res"] = ("failed", "", dt, why + "; portfolio not run (time)")
                return
            win, why2, d2, d3, key = None, "", 0.0, 0.0, "path_alt"
            if o["alt"]:
                win, why2, d2 = solve.race(o["path_alt"], t2 // 2)
                d3 = d2
            if not win:
                key = "path"
                win, why2, d3 = solve.race(o["path"], t2)
                d2 += d3
            if win:
                o["win"] = (win, key, round(d3, 1), False)
            o["res"] = ("proved", win, dt + d2, "") if win else ("failed", "", dt + d2, why + "; " + why2)
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(race, left))
    finally:
        subprocess.run(["rm", "-rf", tmp])
    notes = set()
    axioms = set()
    res["hints"] = hints
    for g in gens:
        for o in g["obs"]:
            w = o.get("win")
            if w and not w[3] and w[:2] != (solve.STAGE1, "path_alt" if o["alt"] else "path"):
                res["hints"].setdefault(o["func"], {})[o["name"]] = list(w[:3])
    for g in gens:
        q = g["job"][1]
        nob = len(g["obs"])
        bad = [o for o in g["obs"] if o["res"][0] != "proved"]
        ok = nob - len(bad)
        st = "proved"
        if g["status"] != "ok":
            st = "lost"
        elif g["job"][0] != "lemma" and (not all(g["vac_r"]) or (g["can_r"] and not any(g["can_r"]))):
            st = "lost"
            g["error"] = "vacuous: hypotheses are contradictory"
        elif nob == 0:
            st = "lost"
            g["error"] = "no obligation generated"
        elif bad and proved_before.get(g["label"]) == (g["digest"] or digest(g)):
            # the very same obligations were discharged when the contracts were committed: the solvers ran out of
            # time on this run, the code has not changed.  Not counted as discharged, not an alarm.
            st = "undecided"
            g["error"] = f"{len(bad)} obligations not discharged in this run (identical to ones discharged before), first: {bad[0]['kind']}: {bad[0]['text']}"
        elif bad:
            st = "lost" if q in changed else "failed"
            if q in changed:
                g["error"] = f"{changed[q]}; {len(bad)} obligations not discharged, first: {bad[0]['kind']}: {bad[0]['text']}"
        notes |= set(g["notes"])
        res["functions"].append(dict(name=g["label"], qual=q, status=st, obligations=nob, discharged=ok, paths=g["paths"],
                                     gen_s=round(g.get("gen_s", 0), 2), solver_s=round(sum(o["res"][2] for o in g["obs"]), 2),
                                     callees_by_contract=g["used"], inlined=g["inlined"], error=g["error"],
                                     trace=g.get("trace")))
        res["obligations"] += nob
        res["discharged"] += ok
        for o in g["obs"]:
            axioms |= set(o["axioms"])
            if o["res"][0] == "proved":
                res["backends"][o["res"][1]] = res["backends"].get(o["res"][1], 0) + 1
            res["solver_s"] += o["res"][2]
        res["digests"][g["label"]] = g["digest"] if st == "proved" else None
        if st == "undecided":
            res["undecided"].append(dict(function=g["label"], reason=g["error"]))
        if st == "lost":
            res["lost"].append(dict(function=g["label"], reason=g["error"]))
        elif st == "failed":
            for o in bad:
                res["failed"].append(dict(function=g["label"], kind=o["kind"], text=o["text"], line=o["line"],
                                          solver=(o.get("cex", "") + " " + o["res"][3]).strip(), smt=o["smt"], alt=o["alt"]))
    res["notes"] = sorted(notes)
    res["axioms"] = sorted(axioms)
    res["slow"] = sorted(((round(o["res"][2], 1), o["func"], o["kind"], o["text"][:80]) for g in gens for o in g["obs"]), reverse=True)[:15]
    res["wall_s"] = time.time() - t0
    return res


def main():
    """developer driver: python3-vt -m wwv.prove [--repo DIR] [-v] filters..."""
    args = sys.argv[1:]
    repo = "/repo"
    if args and args[0] == "--repo":
        repo, args = args[1], args[2:]
    show = "-v" in args
    global _RECORD
    _RECORD = record = "--record" in args         # after a complete run: write proved.json
    args = [a for a in args if a not in ("-v", "--record")]
    cons, defs = load()
    from . import lemmas
    from .contracts_py import PY
    quals = [q for q in list(PY) + list(cons) if not args or any(a in q for a in args)]
    lem = [n for n in lemmas.NAMES if not args or any(a in n for a in args)]
    r = prove(repo, quals, lem)
    for f in r["functions"]:
        print(f"{f['status']:7s} {f['name']}: {f['discharged']}/{f['obligations']} paths {f['paths']} gen {f['gen_s']} solver {f['solver_s']} inl={f['inlined']} {f['error']}")
        if f["trace"]:
            print(f["trace"])
    os.makedirs("/tmp/w/fail", exist_ok=True)
    for i, o in enumerate(r["failed"]):
        print("   FAIL", i, o["function"], o["kind"], "|", o["text"], "| line", o["line"], "|", o["solver"])
        if o["smt"]:
            open(f"/tmp/w/fail/{i}.smt2", "w").write(o["smt"])
        if o["alt"]:
            open(f"/tmp/w/fail/{i}.alt.smt2", "w").write(o["alt"])
    print("total", r["obligations"], "discharged", r["discharged"], "stage2", r["stage2"], "gen", round(r["gen_s"], 1), "wall", round(r["wall_s"], 1), r["backends"])
    if record:
        json.dump(r["hints"], open(HINTS, "w"), indent=0, sort_keys=True)
        json.dump({k: v for k, v in r["digests"].items() if v}, open(PROVED, "w"), indent=0, sort_keys=True)
    if show:
        for s in r["slow"]:
            print("   ", s)


if __name__ == "__main__":
    main()
