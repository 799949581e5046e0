"""Shared parts of the concrete harness: data generators, access to fitted trees, recording of failures.

Runs under the repository's own interpreter against the code in the tree given by PYTHONPATH. All reference
computations are plain numpy in float64, written from the property statements.
"""
import hashlib
import json
import time
import traceback

import numpy as np
import pandas as pd


class Unavailable(Exception):
    """An internal entry point is not there (any more) in the expected form: the case is skipped, never an alarm."""


class Failure(Exception):
    pass


def fail(msg):
    raise Failure(msg)


def require(cond, msg):
    if not cond:
        raise Failure(msg() if callable(msg) else msg)


class Rec:
    """Collects failures and counts per case."""

    def __init__(self, prop, budget):
        self.prop, self.t0, self.budget = prop, time.time(), budget
        self.cases, self.failures, self.skipped, self.checks = {}, [], {}, 0
        self.progress = None

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run(self, name, fn, *a, **k):
        if self.left() < 0:
            self.skipped[name] = "time budget"
            return
        t = time.time()
        if self.progress:
            with open(self.progress, "w") as h:
                json.dump(dict(case=name, start=t), h)
        try:
            fn(*a, **k)
            self.cases[name] = round(time.time() - t, 2)
        except Unavailable as e:
            self.skipped[name] = "unavailable: %s" % e
        except Failure as e:
            self.failures.append(dict(case=name, message=str(e)[:3000]))
        except MemoryError:
            self.skipped[name] = "memory"
        except Exception as e:                  # the code under test raised on a valid input
            self.failures.append(dict(case=name, message="unexpected %s: %s" % (type(e).__name__, str(e)[:600]),
                                      traceback=traceback.format_exc()[-3000:]))


def internal(modname, *names):
    """Import internal entry points; Unavailable when they are not there."""
    import importlib
    try:
        m = importlib.import_module(modname)
        out = [getattr(m, n) for n in names]
    except (ImportError, AttributeError) as e:
        raise Unavailable(str(e))
    return out[0] if len(out) == 1 else out


def icall(f, *a):
    """Call an internal function; a changed signature is Unavailable, not a failure."""
    import numba.core.errors as ne
    try:
        return f(*a)
    except (TypeError, ne.TypingError) as e:
        raise Unavailable("%s: %s" % (getattr(f, "__name__", f), str(e)[:200]))


def iget(obj, *names):
    try:
        out = [getattr(obj, n) for n in names]
    except AttributeError as e:
        raise Unavailable(str(e))
    return out[0] if len(out) == 1 else out


# ------------------------------------------------------------------------------------------------ fitted trees

class T:
    """A fitted tree seen through its internals."""

    def __init__(self, forest, idx):
        from wildwood import ForestClassifier
        from wildwood.preprocessing import features_bitarray_to_array
        self.forest, self.idx = forest, idx
        self.tree = forest.trees[idx]
        self.clf = isinstance(forest, ForestClassifier)
        kind = "classifier" if self.clf else "regressor"
        self.core = iget(self.tree, "_tree_" + kind)
        self.ctx = iget(self.tree, "_tree_%s_context" % kind)
        self.nc = int(iget(self.core, "node_count"))
        self.nodes = np.array(iget(self.core, "nodes"))[:self.nc]
        self.y_pred = np.array(iget(self.core, "y_pred"))[:self.nc].astype(np.float64)
        self.parts = np.array(iget(self.core, "bin_partitions"))
        c = self.ctx
        if c is not None:
            self.ptrain = np.array(iget(c, "partition_train")).astype(np.int64)
            self.pvalid = np.array(iget(c, "partition_valid")).astype(np.int64)
            self.y = np.array(iget(c, "y")).astype(np.float64)
            self.w = np.array(iget(c, "sample_weights")).astype(np.float64)
            self.bins = features_bitarray_to_array(iget(c, "features_bitarray")).astype(np.int64)
            self.aggregation = bool(iget(c, "aggregation"))

    def tr(self, k):
        return self.ptrain[int(self.nodes[k]["start_train"]):int(self.nodes[k]["end_train"])]

    def va(self, k):
        return self.pvalid[int(self.nodes[k]["start_valid"]):int(self.nodes[k]["end_valid"])]

    def rule(self, k, bins):
        """Mask: which rows of bins go left at node k."""
        nd = self.nodes[k]
        col = bins[:, int(nd["feature"])]
        if nd["is_split_categorical"]:
            part = self.parts[int(nd["bin_partition_start"]):int(nd["bin_partition_end"])]
            return np.isin(col, part.astype(np.int64))
        return col <= int(nd["bin_threshold"])

    def route(self, bins):
        """Independent routing of all rows: returns the leaf of each row."""
        n = bins.shape[0]
        out = np.zeros(n, dtype=np.int64)
        work = [(0, np.arange(n))]
        steps = 0
        while work:
            k, rows = work.pop()
            steps += 1
            require(steps <= 4 * self.nc + 8, "routing does not terminate in tree %d" % self.idx)
            if self.nodes[k]["is_leaf"]:
                out[rows] = k
                continue
            left = self.rule(k, bins[rows])
            for child, r in ((int(self.nodes[k]["left_child"]), rows[left]),
                             (int(self.nodes[k]["right_child"]), rows[~left])):
                require(0 <= child < self.nc, "node %d has child %d outside the tree" % (k, child))
                work.append((child, r))
        return out


def trees_of(forest, limit=None):
    n = len(forest.trees)
    idx = range(n) if limit is None or n <= limit else list(range(limit - 1)) + [n - 1]
    return [T(forest, i) for i in idx]


# ------------------------------------------------------------------------------------------------ data

def make_data(rng, n, d_num=3, d_cat=1, kind="clf", n_classes=3, n_cats=8, levels=None, missing=0.0, noise=0.3,
              as_frame=None):
    """A data set with numerical and categorical columns (DataFrame), and a target."""
    cols = {}
    score = np.zeros(n)
    for j in range(d_num):
        if levels:
            v = rng.randint(0, levels, n).astype(np.float64) / 4.0
        else:
            v = rng.randint(0, max(4, 3 * n), n).astype(np.float64) / 8.0
        s = (v - v.mean()) / (v.std() + 1e-9)
        score += s * rng.uniform(-1, 1)
        v = v.copy()
        if missing:
            v[rng.rand(n) < missing] = np.nan
        cols["x%d" % j] = v
    for j in range(d_cat):
        codes = rng.randint(0, n_cats, n)
        eff = rng.normal(size=n_cats)
        score += eff[codes]
        names = np.array(["c%03d" % ((7 * k + 3) % (10 * n_cats)) for k in range(n_cats)], dtype=object)
        v = names[codes]
        if missing:
            v = v.copy()
            v[rng.rand(n) < missing] = None
        cols["k%d" % j] = pd.Series(v, dtype="category")
    X = pd.DataFrame(cols)
    score += noise * rng.normal(size=n)
    if kind == "clf":
        q = np.quantile(score, np.linspace(0, 1, n_classes + 1)[1:-1])
        y = np.searchsorted(q, score)
        y[:n_classes] = np.arange(n_classes)          # every class is present
    else:
        y = np.round(score * 4) / 4.0
    return X, y


def weights(rng, n, kind):
    if kind is None:
        return None
    if kind == "dyadic":
        return rng.choice([0.25, 0.5, 1.0, 2.0, 3.0], n)
    if kind == "zeros":
        w = rng.choice([0.0, 0.0, 0.5, 1.0, 2.0], n)
        w[: n // 2] = np.maximum(w[: n // 2], 0.5)
        return w
    if kind == "real":
        return rng.uniform(0.1, 3.0, n)
    raise ValueError(kind)


def digest(obj):
    h = hashlib.sha256()

    def go(o):
        if isinstance(o, pd.DataFrame):
            for i in range(o.shape[1]):
                go(o.iloc[:, i])
            h.update(repr(list(o.columns)).encode())
        elif isinstance(o, pd.Series):
            h.update(str(o.dtype).encode())
            h.update(pd.util.hash_pandas_object(o, index=True).values.tobytes())
        elif isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + repr(o.shape).encode())
            h.update(repr(o.tolist()).encode() if o.dtype == object else np.ascontiguousarray(o).tobytes())
        else:
            h.update(repr(o).encode())
    go(obj)
    return h.hexdigest()


def fit(kind, X, y, sw=None, cat=None, **kw):
    from wildwood import ForestClassifier, ForestRegressor
    kw.setdefault("random_state", 42)
    kw.setdefault("n_estimators", 2)
    f = (ForestClassifier if kind == "clf" else ForestRegressor)(**kw)
    f.fit(X, y, sample_weight=sw, categorical_features=cat)
    return f


def core_arrays(forest):
    """Everything that defines a fitted forest, as plain arrays."""
    out = []
    for i in range(len(forest.trees)):
        t = T(forest, i)
        out.append((t.nodes, t.y_pred, t.parts[:int(iget(t.core, "bin_partitions_end"))]))
    return out


SCENARIOS = []


def _sc(name, **k):
    SCENARIOS.append((name, k))


# name, data keywords, weights, forest keywords; exercised in this order, then random ones from the seed
_sc("clf-basic", kind="clf", data=dict(n=300), w=None, fit=dict(max_features=None))
_sc("reg-basic", kind="reg", data=dict(n=300), w=None, fit=dict(max_features=None))
_sc("clf-noagg", kind="clf", data=dict(n=260, n_classes=2), w="dyadic", fit=dict(aggregation=False, max_features=None))
_sc("reg-noagg", kind="reg", data=dict(n=260), w="dyadic", fit=dict(aggregation=False, max_features=None))
_sc("clf-limits", kind="clf", data=dict(n=500, levels=9), w="dyadic",
    fit=dict(min_samples_leaf=5, min_samples_split=17, max_features=None))
_sc("reg-limits", kind="reg", data=dict(n=500, levels=9), w="dyadic",
    fit=dict(min_samples_leaf=4, min_samples_split=13, max_features=None))
_sc("clf-depth", kind="clf", data=dict(n=500, n_classes=4), w=None,
    fit=dict(max_depth=3, max_features=None, criterion="entropy", cat_split_strategy="all"))
_sc("reg-depth", kind="reg", data=dict(n=500), w=None, fit=dict(max_depth=2, max_features=None))
_sc("clf-cat", kind="clf", data=dict(n=600, d_num=1, d_cat=3, n_cats=40, n_classes=2), w="dyadic",
    fit=dict(max_features=None, min_samples_leaf=2, step=0.5, dirichlet=0.01))
_sc("reg-cat", kind="reg", data=dict(n=600, d_num=1, d_cat=3, n_cats=40), w="dyadic",
    fit=dict(max_features=None, min_samples_leaf=2, step=3.0))
_sc("clf-zero-weights", kind="clf", data=dict(n=300, missing=0.1), w="zeros",
    fit=dict(max_features=None, dirichlet=1.0))
_sc("reg-zero-weights", kind="reg", data=dict(n=300, missing=0.1), w="zeros", fit=dict(max_features=None))
_sc("clf-missing", kind="clf", data=dict(n=400, missing=0.2, n_cats=5), w=None,
    fit=dict(max_features=2, max_bins=7, criterion="entropy", n_estimators=4))
_sc("reg-missing", kind="reg", data=dict(n=400, missing=0.2, n_cats=5), w=None,
    fit=dict(max_features=2, max_bins=7, n_estimators=4))
_sc("clf-balanced", kind="clf", data=dict(n=300, n_classes=3), w="dyadic",
    fit=dict(class_weight="balanced", max_features=None, cat_split_strategy="random", n_estimators=3))
_sc("clf-ovr", kind="clf", data=dict(n=250, n_classes=3), w="dyadic",
    fit=dict(multiclass="ovr", max_features="log2", n_estimators=3))
_sc("clf-ovr-balanced", kind="clf", data=dict(n=250, n_classes=4), w=None,
    fit=dict(multiclass="ovr", class_weight="balanced", n_estimators=2, max_features=None))
_sc("clf-tiny", kind="clf", data=dict(n=5, n_classes=2), w=None, fit=dict(max_features=None, n_estimators=6))
_sc("reg-tiny", kind="reg", data=dict(n=5), w=None, fit=dict(max_features=None, n_estimators=6))
_sc("clf-big-noagg", kind="clf", data=dict(n=6500, n_classes=5, noise=30.0, d_num=4, d_cat=2, n_cats=90), w=None,
    fit=dict(aggregation=False, max_features=None, n_estimators=1))
_sc("reg-big", kind="reg", data=dict(n=6500, noise=30.0, d_num=4, d_cat=2, n_cats=90), w="dyadic",
    fit=dict(aggregation=False, max_features=None, n_estimators=1))
_sc("reg-big-agg", kind="reg", data=dict(n=9000, noise=30.0, d_num=4, d_cat=1, n_cats=300), w=None,
    fit=dict(max_features=None, n_estimators=1))


def random_scenario(rng, i):
    kind = ["clf", "reg"][rng.randint(2)]
    data = dict(n=int(rng.choice([6, 12, 33, 64, 65, 127, 128, 129, 200, 400, 800, 1500])),
                d_num=int(rng.randint(1, 5)), d_cat=int(rng.randint(0, 3)),
                n_classes=int(rng.choice([2, 2, 3, 5, 7])), n_cats=int(rng.choice([2, 3, 9, 33, 70])),
                levels=[None, None, 3, 20][rng.randint(4)], missing=float(rng.choice([0, 0, 0.15])),
                noise=float(rng.choice([0.1, 1.0, 10.0])))
    data["n_classes"] = min(data["n_classes"], data["n"] // 2)
    w = [None, "dyadic", "zeros", "real"][rng.randint(4)]
    if w == "zeros" and data["n"] < 60:
        w = "dyadic"
    kw = dict(aggregation=bool(rng.randint(4) > 0), step=float(rng.choice([0.1, 1.0, 5.0])),
              min_samples_leaf=int(rng.choice([1, 1, 2, 6])), min_samples_split=int(rng.choice([2, 2, 3, 11])),
              max_depth=[None, None, 2, 5][rng.randint(4)], max_bins=int(rng.choice([3, 5, 16, 256, 1000])),
              max_features=[None, None, None, "sqrt", 1][rng.randint(5)], n_estimators=int(rng.choice([1, 3])),
              n_jobs=int(rng.choice([1, 1, 3])), random_state=int(rng.randint(0, 2 ** 31)))
    if kind == "clf":
        kw.update(criterion=["gini", "entropy"][rng.randint(2)], dirichlet=float(rng.choice([0.01, 0.5, 3.0])),
                  cat_split_strategy=["binary", "all", "random"][rng.randint(3)],
                  class_weight=[None, None, "balanced"][rng.randint(3)],
                  multiclass=["multinomial", "multinomial", "ovr"][rng.randint(3)])
    return "random-%d" % i, dict(kind=kind, data=data, w=w, fit=kw)


def build(name, sc, seed):
    """Deterministic data and fitted forest of a scenario."""
    rng = np.random.RandomState((seed * 7919 + int(hashlib.md5(name.encode()).hexdigest()[:6], 16)) % (2 ** 31))
    X, y = make_data(rng, kind=sc["kind"], **sc["data"])
    sw = weights(rng, len(y), sc["w"])
    is_cat = np.array([c.startswith("k") for c in X.columns])
    kw = dict(sc["fit"])
    if "categorical_features" not in kw:
        kw["categorical_features"] = is_cat if is_cat.any() else None
        if not is_cat.any():
            kw["categorical_features"] = np.zeros(len(is_cat), dtype=bool)
    f = fit(sc["kind"], X, y, sw, **kw)
    return X, y, sw, f, rng


def scenarios(rec, seed, names=None, n_random=0, only=None):
    todo = [(n, s) for n, s in SCENARIOS if names is None or n in names or any(n.startswith(p) for p in names)]
    rng = np.random.RandomState(seed + 1000)
    todo += [random_scenario(rng, i) for i in range(n_random)]
    for n, s in todo:
        if only is None or n == only:
            yield n, s
