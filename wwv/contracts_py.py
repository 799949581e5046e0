"""Contracts of the plain-python methods verified by wwv/pyvc.py."""
import z3
from .pyvc import BOOL, INT, FLOAT, STR, OTHER, NONE, LOG2, SQRT, I, R, V, finite, is_, isnum, lit, numeq, same, sid

And, Or, Not, Implies = z3.And, z3.Or, z3.Not, z3.Implies


def an_int(v, lo=None):
    """an int (booleans are ints in python) that is at least lo"""
    return And(is_(v, BOOL, INT), v.num >= lo if lo is not None else True)


def one_of(v, *names):
    return And(v.tag == STR, Or(*[v.id == sid(x) for x in names]))


def none(v):
    return v.tag == NONE


def a_float(v, strict):
    """a float, not NaN, that is > 0 (or >= 0)"""
    return And(v.tag == FLOAT, Or(v.cls == 2, And(v.cls == 0, v.num > 0 if strict else v.num >= 0)))


class PyContract:
    kind = "py"

    def __init__(self, name, file, cls, func=None, setter=None, accept=None, frozen=False, field=None, stored=None, effects=None, subs=(), maybe=(), events=(),
                 params=(), requires=None, ensures=None, free=False):
        self.name, self.file, self.cls, self.func, self.setter, self.accept, self.frozen = name, file, cls, func, setter, accept, frozen
        self.field, self.stored, self.effects, self.subs, self.maybe, self.events = field, stored or (lambda v: v), effects, subs, maybe, events
        self.params, self._req, self._ens = list(params), requires, ensures

    def covers(self, cls, file):
        return file == self.file and (cls == self.cls or cls in self.subs)

    def requires(self, P, F, x):
        out = []
        if self.setter and self.file != "tree.py":
            if self.frozen or self.effects:
                out.append(F("_fitted").tag == BOOL)
        if self._req:
            out += self._req(P, F, x)
        return out

    def ensures(self, E):
        if self._ens:
            return self._ens(E)
        v = next(iter(E.P.values()))
        frozen = And(E.old("_fitted").num == 1) if self.frozen else z3.BoolVal(False)
        ok = And(self.accept(v), Not(frozen))
        if E.raised:
            return [("an exception only for an invalid value or a frozen attribute", Not(ok)), ("nothing is changed when an exception is raised", E.unchanged()),
                    ("no tree is touched when an exception is raised", z3.BoolVal(not E.events()))]
        out = [("only valid values are accepted, and none on a frozen attribute", ok), ("the value is stored unchanged", same(E.new(self.field), self.stored(v))),
               ("nothing else is changed", E.unchanged(self.field))]
        out += self.effects(E, v) if self.effects else [("no other effect", z3.BoolVal(not E.events()))]
        return out


PY = {}


def reg(c):
    PY[c.name] = c
    return c


SUBS = {"ForestBase": ("ForestClassifier", "ForestRegressor")}


def setter(cls, attr, accept, file="forest.py", **k):
    return reg(PyContract(f"{file[:-3].replace('/', '.')}.{cls}.{attr}=", file, cls, setter=attr, accept=accept, field=k.pop("field", "_" + attr), subs=SUBS.get(cls, ()), **k))


def each(E, attr, v):
    return [e for e in E.events() if e[0] == "each." + attr and e[1][0].path == "trees"]


def step_effects(E, v):
    fitted = E.old("_fitted").num == 1
    got = each(E, "step", v)
    other = len(E.events()) - len(got)
    if not got:
        return [("every tree gets the new step", Not(fitted)), ("no other effect", z3.BoolVal(other == 0))]
    return [("every tree gets the new step", And(fitted, *[same(e[1][1], v) for e in got])), ("no other effect", z3.BoolVal(other == 0))]


def dirichlet_effects(E, v):
    old = E.old("_dirichlet")
    fitted = And(E.old("_fitted").num == 1, E.old_has("_dirichlet"))
    got = each(E, "dirichlet", v)
    other = len(E.events()) - len(got)
    differs = Not(And(isnum(old), numeq(old, v)))
    if not got:
        return [("every tree gets the new dirichlet when it differs", Not(And(fitted, old.tag != OTHER, differs))), ("no other effect", z3.BoolVal(other == 0))]
    return [("every tree gets the new dirichlet", And(*[same(e[1][1], v) for e in got])), ("no other effect", z3.BoolVal(other == 0))]


ACCEPT = {
    "n_estimators": lambda v: an_int(v, 1), "step": lambda v: a_float(v, True), "aggregation": lambda v: v.tag == BOOL,
    "max_depth": lambda v: Or(none(v), an_int(v, 2)), "min_samples_split": lambda v: an_int(v, 2), "min_samples_leaf": lambda v: an_int(v, 1),
    "max_bins": lambda v: an_int(v, 3),
    "max_features": lambda v: Or(none(v), one_of(v, "sqrt", "log2", "auto"), an_int(v, 1), And(v.tag == FLOAT, v.cls == 0, v.num > 0, v.num <= 1)),
    "n_jobs": lambda v: And(an_int(v, -1), v.num != 0), "random_state": lambda v: Or(none(v), an_int(v, 0)), "verbose": lambda v: v.tag == BOOL,
}
for _a, _f in ACCEPT.items():
    setter("ForestBase", _a, _f, frozen=_a in ("n_estimators", "random_state"), effects=step_effects if _a == "step" else None)
for _a in ("n_samples", "n_features"):
    setter("ForestBase", _a + "_in_", lambda v: an_int(v, 1), field=f"_{_a}_")
CLF = {
    "criterion": lambda v: one_of(v, "gini", "entropy"), "loss": lambda v: one_of(v, "log"), "dirichlet": lambda v: a_float(v, False),
    "class_weight": lambda v: Or(none(v), one_of(v, "balanced")), "multiclass": lambda v: one_of(v, "multinomial", "ovr"),
    "cat_split_strategy": lambda v: one_of(v, "binary", "all", "random"),
}
REGR = {"criterion": lambda v: one_of(v, "mse"), "loss": lambda v: one_of(v, "mse")}
for _a, _f in CLF.items():
    setter("ForestClassifier", _a, _f, frozen=_a in ("multiclass", "cat_split_strategy"), effects=dirichlet_effects if _a == "dirichlet" else None,
           maybe=("_dirichlet",) if _a == "dirichlet" else ())
for _a, _f in REGR.items():
    setter("ForestRegressor", _a, _f)
for _a in ("classes_", "n_classes_"):
    reg(PyContract(f"forest.ForestClassifier.{_a}=", "forest.py", "ForestClassifier", setter=_a,
                   ensures=lambda E: [("always an exception", z3.BoolVal(E.raised)), ("nothing is changed", E.unchanged())]))


# ---- constructors: every parameter is checked by its setter, and stored
def ctor(cls, table, plain):
    def ens(E):
        ok = And(*[f(E.P[a]) for a, f in table.items()])
        if E.raised:
            return [("an exception only when some parameter is invalid", Not(ok))]
        return ([("only valid parameters are accepted", ok), ("a new forest is not fitted", And(E.new("_fitted").tag == BOOL, E.new("_fitted").num == 0))]
                + [(f"parameter {a} is stored unchanged", same(E.new("_" + a), E.P[a])) for a in table]
                + [(f"parameter {a} is stored unchanged", same(E.new(a), E.P[a])) for a in plain])

    def req(P, F, x):
        from .front import Unsupported
        if not set(table) | set(plain) <= set(P):
            raise Unsupported("constructor parameters changed")
        return []
    reg(PyContract(f"forest.{cls}.__init__", "forest.py", cls, func="__init__", ensures=ens, requires=req, maybe=("_dirichlet",) if cls == "ForestClassifier" else ()))


PLAIN = ["categorical_features", "subsample", "cat_min_categories", "handle_unknown"]
ctor("ForestClassifier", {**ACCEPT, **CLF}, PLAIN)
ctor("ForestRegressor", {**ACCEPT, **REGR}, PLAIN)


# ---- encoder
def enc(attr, accept, **k):
    return setter("Encoder", attr, accept, file="preprocessing/encoder.py", **k)


for _a in ("n_samples", "n_features"):
    enc(_a + "_in_", lambda v: an_int(v, 1))
enc("max_bins", lambda v: an_int(v, 3))
enc("handle_unknown", lambda v: one_of(v, "error", "consider_missing"), requires=lambda P, F, x: [next(iter(P.values())).tag != OTHER])
enc("cat_min_categories", lambda v: Or(an_int(v, 4), one_of(v, "log", "sqrt")))
enc("subsample", lambda v: Or(none(v), And(is_(v, INT, FLOAT), v.cls == 0, v.num >= 50000)),
    stored=lambda v: V(z3.If(v.tag == NONE, I(NONE), I(INT)), z3.If(v.tag == NONE, R(0), z3.ToReal(z3.ToInt(v.num)))))


# ---- number of candidate features
def mf_ens(E):
    mf, n = E.P["max_features"], E.P["n_features"]
    if E.raised:
        return [("an exception only when an integer max_features exceeds the number of features", And(is_(mf, BOOL, INT), mf.num > n.num))]
    r = E.ret
    mx = lambda x: z3.If(x >= 1, x, R(1))
    fl = lambda x: z3.ToReal(z3.ToInt(x))
    return [("the number of candidate features is an integer", is_(r, BOOL, INT)), ("it is at least one", r.num >= 1), ("it is at most the number of features", r.num <= n.num),
            ("None: all features", Implies(none(mf), r.num == n.num)), ("an integer is taken as it is", Implies(is_(mf, BOOL, INT), r.num == mf.num)),
            ("a fraction of the features", Implies(mf.tag == FLOAT, r.num == mx(fl(mf.num * n.num)))),
            ("sqrt, auto", Implies(one_of(mf, "sqrt", "auto"), r.num == mx(fl(SQRT(n.num))))), ("log2", Implies(one_of(mf, "log2"), r.num == mx(fl(LOG2(n.num)))))]


reg(PyContract("forest.ForestBase._get_max_features_", "forest.py", "ForestBase", func="_get_max_features_", params=["max_features", "n_features"],
               requires=lambda P, F, x: [P["n_features"].tag == INT, P["n_features"].num >= 1, ACCEPT["max_features"](P["max_features"])], ensures=mf_ens))
reg(PyContract("forest.ForestBase._get_max_depth_", "forest.py", "ForestBase", func="_get_max_depth_", params=["max_depth"],
               requires=lambda P, F, x: [ACCEPT["max_depth"](P["max_depth"])],
               ensures=lambda E: [("no exception", z3.BoolVal(not E.raised))] + ([] if E.raised else [
                   ("at least 2", And(is_(E.ret, BOOL, INT), E.ret.num >= 2)), ("as given", Implies(Not(none(E.P["max_depth"])), same(E.ret, E.P["max_depth"]))),
                   ("None means no limit", Implies(none(E.P["max_depth"]), E.ret.num == R(2 ** 63 - 1)))])))


# ---- trees: a new step or dirichlet reaches the context and the recomputation kernels
def tree_step(E):
    val, old = next(iter(E.P.values())), E.old("_step")
    if E.raised:
        return [("no exception", z3.BoolVal(False))]
    diff = Not(And(isnum(old), isnum(val), numeq(old, val)))
    clf = E.old("is_classifier").num == 1
    out = [("the step is stored", Implies(diff, same(E.new("_step"), val))), ("the same step: nothing changes", Implies(Not(diff), And(E.unchanged(), z3.BoolVal(not E.events()))))]
    for cond, x in ((clf, "classifier"), (Not(clf), "regressor")):
        ctx, t = E.old(f"_tree_{x}_context"), E.old(f"_tree_{x}")
        out.append((f"the {x} context gets the step", Implies(And(cond, diff, ctx.tag == OTHER), same(E.new(f"_tree_{x}_context.step"), val))))
        calls = [e for e in E.events() if e[0] == "compute_tree_weights"]
        due = And(cond, diff, t.tag == OTHER, E.old("aggregation").num == 1)
        if not calls:
            out.append((f"the weights of the {x} are recomputed", Not(due)))
        else:
            last = calls[-1][1]
            out.append((f"the weights of the {x} are recomputed with the new step", Implies(due, And(
                same(last[0], E.new(f"_tree_{x}.nodes")), same(last[1], E.new(f"_tree_{x}.node_count")), same(last[2], val)))))
            out.append((f"weights are recomputed only with aggregation", Implies(cond, due)))
    out.append(("nothing else is changed", E.unchanged("_step", "_tree_classifier_context.step", "_tree_regressor_context.step")))
    return out


_tree_req = lambda P, F, x: [F("is_classifier").tag == BOOL, F("aggregation").tag == BOOL, isnum(F("_step")), next(iter(P.values())).tag == FLOAT] + [
    Or(F(k).tag == NONE, F(k).tag == OTHER) for k in ("_tree_classifier", "_tree_classifier_context", "_tree_regressor", "_tree_regressor_context")]
reg(PyContract("tree.TreeBase.step=", "tree.py", "TreeBase", setter="step", events=("compute_tree_weights",), requires=_tree_req, ensures=tree_step))


def tree_dirichlet(E):
    val, old = next(iter(E.P.values())), E.old("_dirichlet")
    if E.raised:
        return [("no exception", z3.BoolVal(False))]
    diff = Not(And(isnum(old), isnum(val), numeq(old, val)))
    calls = [e for e in E.events() if e[0] == "recompute_node_predictions"]
    out = [("the dirichlet is stored", Implies(diff, same(E.new("_dirichlet"), val))), ("the same dirichlet: nothing changes", Implies(Not(diff), And(E.unchanged(), z3.BoolVal(not E.events())))),
           ("nothing else is changed", E.unchanged("_dirichlet", "_tree_classifier_context.dirichlet"))]
    if not calls:
        out.append(("the predictions are recomputed", Not(diff)))
    else:
        a = calls[-1][1]
        out.append(("the predictions are recomputed with the new dirichlet", And(same(a[0], E.new("_tree_classifier")), same(a[1], E.new("_tree_classifier_context")), same(a[2], val),
                                                                                 same(E.new("_tree_classifier_context.dirichlet"), val))))
    return out


reg(PyContract("tree.TreeClassifier.dirichlet=", "tree.py", "TreeClassifier", setter="dirichlet", events=("recompute_node_predictions",),
               requires=lambda P, F, x: [isnum(F("_dirichlet")), next(iter(P.values())).tag == FLOAT, F("_tree_classifier").tag == OTHER, F("_tree_classifier_context").tag == OTHER],
               ensures=tree_dirichlet))
