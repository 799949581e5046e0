"""Back ends: every obligation is dumped to SMT-LIB 2 and decided by a fresh solver process."""
import os
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import z3
from . import theory as T

BACKENDS = {
    "z3-5.3.2/ematch": lambda f, t: ["z3-new", f"-T:{t}", "smt.auto_config=false", "smt.mbqi=false", f],
    "z3-5.3.2": lambda f, t: ["z3-new", f"-T:{t}", f],
    "z3-4.8.12/ematch": lambda f, t: ["z3", f"-T:{t}", "smt.auto_config=false", "smt.mbqi=false", f],
    "z3-4.8.12/nl": lambda f, t: ["z3", f"-T:{t}", f],
    "cvc5-1.1.2": lambda f, t: ["cvc5", f"--tlimit={t*1000}", f],
    "z3-5.3.2/nlarith6": lambda f, t: ["z3-new", f"-T:{t}", "smt.auto_config=false", "smt.mbqi=false",
                                      "smt.arith.solver=6", "smt.arith.nl=true", "smt.random_seed=7", f],
    "z3-5.3.2/arith2": lambda f, t: ["z3-new", f"-T:{t}", "smt.auto_config=false", "smt.mbqi=false",
                                      "smt.arith.solver=2", f],
}
STAGE1 = "z3-5.3.2/ematch"
STAGE1B = [("z3-4.8.12/ematch", 3), ("cvc5-1.1.2", 4)]     # quick second opinions when the first answers "unknown"
STAGE2 = ["z3-4.8.12/ematch", "z3-5.3.2/arith2", "cvc5-1.1.2", "z3-5.3.2", "z3-4.8.12/nl", "z3-5.3.2/nlarith6"]


_AXTRIG = None
_cache = {}      # ast id -> (ast kept alive, printed formula, {symbol: declaration}, {sort declarations})


def _info(f):
    k = f.get_id()
    r = _cache.get(k)
    if r is None:
        decls, sorts, seen, stack = {}, set(), set(), [f]
        while stack:
            u = stack.pop()
            i = u.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(u):
                stack.append(u.body())
                for j in range(u.num_patterns()):
                    stack.append(u.pattern(j))
                for j in range(u.num_vars()):
                    _sorts(u.var_sort(j), sorts)
                continue
            if z3.is_app(u):
                d = u.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    if d.name() not in decls:
                        decls[d.name()] = d.sexpr().strip()
                        for j in range(d.arity()):
                            _sorts(d.domain(j), sorts)
                        _sorts(d.range(), sorts)
                stack.extend(u.children())
        r = _cache[k] = (f, "(assert " + f.sexpr() + ")", decls, sorts)
    return r


def _sorts(s, out):
    if s.kind() == z3.Z3_UNINTERPRETED_SORT:
        out.add(s.name())
    elif s.kind() == z3.Z3_ARRAY_SORT:
        _sorts(s.domain(), out)
        _sorts(s.range(), out)


def _axioms():
    global _AXTRIG
    if _AXTRIG is None:
        _AXTRIG = [(n, [t.name() if isinstance(t, z3.FuncDeclRef) else t.decl().name() for t in trig], ax)
                   for n, (trig, ax) in T.AXIOMS.items()]
    return _AXTRIG


def without(hyps, symbols):
    """the hypotheses that mention none of the symbols (named without their version number);
    "a~f|g": not those that mention a without f or g"""
    plain = {s for s in symbols if "~" not in s}
    pairs = [s.split("~") for s in symbols if "~" in s]

    def keep(h):
        names = {n.split("!")[0] for n in _info(h)[2]}
        return not (names & plain) and not any(a in names and not names & set(f.split("|")) for a, f in pairs)
    return [h for h in hyps if keep(h)]


def to_smt2(hyps, goal):
    """(text, axioms used): the query hyps and not goal, with the axioms about the symbols that occur"""
    fs, seen = [], set()
    for f in hyps:           # the same statement assumed again (at a call, after a loop) is kept once
        k = f.get_id()
        if z3.is_quantifier(f):
            k = (f.body().get_id(), f.is_forall(), tuple(f.var_sort(j).get_id() for j in range(f.num_vars())), tuple(f.pattern(j).get_id() for j in range(f.num_patterns())))
        if k not in seen:
            seen.add(k)
            fs.append(_info(f))
    fs.append(_info(z3.Not(goal)))
    decls, sorts = {}, set()
    for f in fs:
        decls.update(f[2])
        sorts |= f[3]
    done, todo, ax = set(), True, []
    while todo:
        todo = False
        for name, trig, a in _axioms():
            if name not in done and all(t in decls for t in trig):
                done.add(name)
                r = _info(a)
                ax.append(r)
                if not r[2].keys() <= decls.keys():
                    todo = True
                decls.update(r[2])
                sorts |= r[3]
    lines = [f"(declare-sort {s} 0)" for s in sorted(sorts)] + list(decls.values()) + [r[1] for r in ax] + [r[1] for r in fs]
    return "\n".join(lines + ["(check-sat)"]) + "\n", done


def run_one(backend, path, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(BACKENDS[backend](path, timeout), capture_output=True, text=True, timeout=timeout + 10)
        out = p.stdout.strip().splitlines()
        res = out[0] if out else "error:" + p.stderr[:200]
    except subprocess.TimeoutExpired:
        res = "timeout"
    return res, time.time() - t0


def race(path, timeout):
    """portfolio on one obligation -> (winning back end or None, answers, seconds)"""
    t0 = time.time()
    why = []
    pend = {b: subprocess.Popen(BACKENDS[b](path, timeout), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            for b in STAGE2}
    win = None
    while pend and win is None and time.time() - t0 < timeout + 10:
        for b, pr in list(pend.items()):
            if pr.poll() is not None:
                o = pr.stdout.read().strip().splitlines()
                r = o[0] if o else "error"
                why.append(f"{b}:{r}")
                del pend[b]
                if r == "unsat":
                    win = b
                    break
                if r == "sat":
                    win = "sat"
                    break
        time.sleep(0.01)
    for b, pr in pend.items():
        pr.kill()
        pr.wait()
    return (None if win == "sat" else win), "; ".join(why), time.time() - t0


def not_vacuous(hyps, timeout=3):
    """True unless the hypotheses are refuted"""
    txt, _ = to_smt2(hyps, z3.BoolVal(False))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
        p = fh.name
    try:
        r, _ = run_one(STAGE1, p, timeout)
        return r != "unsat"
    finally:
        os.unlink(p)
