"""One function per property: runs the concrete cases of that property and records failures."""
import itertools
import pickle
import numpy as np
import pandas as pd
from common import *
from audits import *

FULL = ["clf", "reg"]


def nrand(tier):
    return 14 if tier == "quick" else 400


def fparams(f):
    return dict(max_depth=f.max_depth, min_samples_split=f.min_samples_split, min_samples_leaf=f.min_samples_leaf,
                aggregation=f.aggregation, max_features=f.max_features)


def user_weights(f, y, sw, tree_idx):
    n = len(y)
    w = np.ones(n) if sw is None else np.asarray(sw, dtype=np.float64)
    if hasattr(f, "class_weight") and f.class_weight == "balanced":
        if f.multiclass == "ovr":
            cls = f.classes_[tree_idx // f.n_estimators]
            yy = (np.asarray(y) == cls).astype(int)
        else:
            yy = np.asarray(y)
        cl, cnt = np.unique(yy, return_counts=True)
        m = {c: n / (len(cl) * k) for c, k in zip(cl, cnt)}
        w = w * np.array([m[v] for v in yy])
    return w


def over(rec, tier, seed, only, body, names=None, n_random=None):
    for name, sc in scenarios(rec, seed, names, nrand(tier) if n_random is None else n_random, only):
        def case():
            X, y, sw, f, rng = build(name, sc, seed)
            body(sc, X, y, sw, f, rng)
            rec.checks += 1
        rec.run(name, case)


def new_rows(rng, X, n=150):
    """Rows unseen at fit time: shuffled columns, values outside the range, missing values, other category subsets."""
    idx = {c: rng.randint(0, len(X), n) for c in X.columns}
    out = {}
    for c in X.columns:
        v = X[c].iloc[idx[c]].reset_index(drop=True)
        if X[c].dtype.kind == "f":
            v = v + rng.choice([0.0, 0.01, -0.01, 1e6, -1e6], n)
            v[rng.rand(n) < 0.1] = np.nan
        else:
            v = v.astype(object)
            v[rng.rand(n) < 0.1] = None
            v[rng.rand(n) < 0.1] = "never seen"
            v = v.astype("category")
        out[c] = v
    return pd.DataFrame(out)


# ================================================================== C01
def run_C01(rec, tier, seed, only):
    from wildwood.preprocessing import FeaturesBitArray, features_bitarray_fill_column, features_bitarray_to_array
    array_to_bitarray = internal("wildwood.preprocessing.features_bitarray", "array_to_bitarray")
    rng = np.random.RandomState(seed)

    def roundtrip(X):
        Y = X.copy()
        fb = array_to_bitarray(X)
        require(np.array_equal(X, Y), "packing modified the matrix")
        back = features_bitarray_to_array(fb)
        require(back.shape == X.shape, "shape %s unpacked as %s" % (X.shape, back.shape))
        bad = np.argwhere(back.astype(np.uint64) != X.astype(np.uint64))
        require(len(bad) == 0, lambda: "entry %s of a %s matrix with column maxima %s: stored %d, unpacked %d" % (
            bad[0], X.shape, X.max(axis=0)[:4], X[tuple(bad[0])], back[tuple(bad[0])]))
        get_value = internal("wildwood.preprocessing.features_bitarray", "get_value")
        n, d = X.shape
        cells = list(itertools.product(range(n), range(d)))
        if len(cells) > 80:
            cells = [cells[i] for i in rng.choice(len(cells), 80, replace=False)] + [(n - 1, j) for j in range(d)]
        for i, j in cells:
            v = icall(get_value, fb, np.uint64(i), np.uint64(j))
            require(int(v) == int(X[i, j]), "get_value(%d, %d) is %d, stored %d" % (i, j, v, X[i, j]))
        nb = iget(fb, "n_bits")
        for j in range(d):
            require(int(nb[j]) >= int(X[:, j].max(initial=0)).bit_length(), "column %d with maximum %d is stored in %d bits"
                    % (j, X[:, j].max(), nb[j]))
        rec.checks += 1

    def widths(lo, hi, dt):
        for b in range(lo, hi):
            for mx in sorted({2 ** b - 1, 2 ** b, 2 ** b + 1, max(1, 2 ** b + 2 ** (b // 2)), 2 ** (b + 1) - 2}):
                if mx > np.iinfo(dt).max or mx > 2 ** 62:
                    continue
                per = 64 // max(1, int(mx).bit_length())
                for n in sorted({1, 2, per - 1, per, per + 1, 2 * per, 3 * per + 1, 65, 64}):
                    if n < 1:
                        continue
                    X = rng.randint(0, mx + 1, size=(n, 1), dtype=np.uint64).astype(dt)
                    X[rng.randint(n), 0] = mx
                    if n > 1:
                        X[-1, 0] = rng.choice([0, mx])
                    roundtrip(X)

    rec.run("widths-uint8", widths, 0, 8, np.uint8)
    rec.run("widths-uint16", widths, 0, 16, np.uint16)
    rec.run("widths-uint32", widths, 7, 32, np.uint32)
    rec.run("widths-uint64", widths, 15, 62, np.uint64)

    def shapes():
        for rep in range(40 if tier == "quick" else 1500):
            dt = [np.uint8, np.uint16, np.uint32, np.uint64][rng.randint(4)]
            n, d = rng.randint(1, 200), rng.randint(1, 12)
            maxes = [int(min(np.iinfo(dt).max, 2 ** 62) ** rng.rand()) for _ in range(d)]
            X = np.stack([rng.randint(0, m + 1, size=n, dtype=np.uint64).astype(dt) for m in maxes], axis=1)
            if rng.rand() < 0.5:
                X = np.asfortranarray(X)
            roundtrip(X)
            if rec.left() < 0:
                break
    rec.run("random-matrices", shapes)

    def big():
        for n, mx in ((70001, 255), (200003, 3), (1 << 16, 300)):
            roundtrip(rng.randint(0, mx + 1, size=(n, 2)).astype(np.uint16))
    rec.run("long-columns", big)

    def empty():
        for d in (1, 3):
            fb = array_to_bitarray(np.zeros((0, d), dtype=np.uint8))
            require(features_bitarray_to_array(fb).shape == (0, d), "empty matrix")
        rec.checks += 1
    rec.run("no-rows", empty)

    def columns():
        for rep in range(30 if tier == "quick" else 400):
            n, d = rng.randint(1, 150), rng.randint(2, 7)
            maxes = np.array([int((2 ** 40) ** rng.rand()) for _ in range(d)], dtype=np.uint64)
            fb = FeaturesBitArray(n, maxes)
            cols = [rng.randint(0, int(m) + 1, size=n, dtype=np.uint64) for m in maxes]
            order = list(rng.permutation(d)) + [rng.randint(d)]
            filled = {}
            for j in order:
                j = int(j)
                cols[j] = rng.randint(0, int(maxes[j]) + 1, size=n, dtype=np.uint64)
                features_bitarray_fill_column(fb, j, cols[j])
                filled[j] = cols[j]
                back = features_bitarray_to_array(fb)
                for jj, c in filled.items():
                    require(np.array_equal(back[:, jj].astype(np.uint64), c), "after filling column %d, column %d reads "
                            "differently (maxima %s, n=%d)" % (j, jj, maxes, n))
            for dt in (np.int8, np.int16, np.int64, np.uint8):
                m = min(int(maxes[0]), np.iinfo(dt).max)
                c = rng.randint(0, m + 1, size=n).astype(dt)
                features_bitarray_fill_column(fb, 0, c)
                require(np.array_equal(features_bitarray_to_array(fb)[:, 0].astype(np.int64), c.astype(np.int64)),
                        "column of dtype %s" % dt)
            rec.checks += 1
    rec.run("column-by-column", columns)


# ================================================================== C02
def run_C02(rec, tier, seed, only):
    from wildwood.preprocessing import Encoder, features_bitarray_to_array
    rng = np.random.RandomState(seed)

    def transformed(enc, X):
        return features_bitarray_to_array(enc.transform(X)).astype(np.int64)

    def check(cols, max_bins, new_cols=None, frame=True, what=""):
        """cols: list of float/int arrays"""
        new_cols = cols if new_cols is None else new_cols
        d = len(cols)
        X = pd.DataFrame({"c%d" % j: c for j, c in enumerate(cols)}) if frame else np.stack(cols, axis=1)
        Z = pd.DataFrame({"c%d" % j: c for j, c in enumerate(new_cols)}) if frame else np.stack(new_cols, axis=1)
        enc = Encoder(max_bins=max_bins, is_categorical=np.zeros(d, dtype=bool))
        enc.fit(X)
        for k, W in enumerate((X, Z, Z.iloc[:1] if frame else Z[:1])):
            B = transformed(enc, W)
            V = W.to_numpy() if frame else W
            for j in range(d):
                thr = np.asarray(enc.binning_thresholds_[j], dtype=np.float64)
                v = np.asarray(W.iloc[:, j] if frame else V[:, j], dtype=np.float64)
                col = np.asarray(X.iloc[:, j] if frame else X[:, j], dtype=np.float64)
                who = "%s max_bins=%d column of dtype %s: " % (what, max_bins, (X.iloc[:, j] if frame else X).dtype)
                require(np.all(np.isfinite(thr)), who + "thresholds are not finite")
                require(np.all(np.diff(thr) >= 0), who + "thresholds decrease")
                require(thr.size + 1 <= max_bins, who + "%d bins" % (thr.size + 1))
                miss = np.isnan(v)
                lo = np.concatenate([[-np.inf], thr])
                hi = np.concatenate([thr, [np.inf]])
                b = B[:, j]
                ok = ~miss
                require(np.all(b[ok] <= thr.size), who + "a value is in bin %d of %d" % (b[ok].max(initial=0), thr.size + 1))
                inside = (lo[b[ok]] < v[ok]) & (v[ok] <= hi[b[ok]])
                bad = np.flatnonzero(~inside)
                require(bad.size == 0, lambda: who + "value %r is in bin %d = (%r, %r]" % (
                    v[ok][bad[0]], b[ok][bad[0]], lo[b[ok]][bad[0]], hi[b[ok]][bad[0]]))
                o = np.argsort(v[ok], kind="stable")
                require(np.all(np.diff(b[ok][o]) >= 0), who + "a larger value gets a smaller bin")
                require(np.all(b[miss] == thr.size + 1), who + "missing values are in bins %s, expected %d" %
                        (np.unique(b[miss]), thr.size + 1))
                u = np.unique(col[~np.isnan(col)])
                if u.size <= max_bins and k == 0:
                    require(np.unique(b[ok]).size == np.unique(v[ok]).size, who + "distinct values share a bin")
                if u.size <= max_bins:
                    require(thr.size == max(u.size - 1, 0), who + "%d thresholds for %d distinct values" %
                            (thr.size, u.size))
        rec.checks += 1

    def values(n, kind):
        if kind == "ties":
            return rng.randint(0, max(2, n // 3), n).astype(np.float64)
        if kind == "grid":
            return rng.permutation(n).astype(np.float64) / 8
        if kind == "normal":
            return rng.normal(size=n)
        if kind == "skew":
            return np.round(np.exp(3 * rng.normal(size=n)), 3)
        if kind == "heavy":
            v = np.zeros(n)
            v[: n // 4] = rng.normal(size=n // 4)
            return rng.permutation(v)
        return np.full(n, 3.5)

    def sweep():
        for rep in range(60 if tier == "quick" else 2500):
            n = int(rng.choice([1, 2, 3, 4, 5, 10, 50, 255, 256, 257, 300, 700]))
            kinds = ["ties", "grid", "normal", "skew", "heavy", "const"]
            cols = [values(n, k) for k in kinds]
            mb = int(rng.choice([3, 4, 5, 8, 16, 255, 256, 257, 600]))
            if rng.rand() < 0.5:
                cols[rng.randint(6)][rng.rand(n) < 0.3] = np.nan
            if rep % 3 == 0:        # exactly as many distinct values as bins, or one less or more
                c = cols[rng.randint(6)]
                mb = max(3, int(np.unique(c[~np.isnan(c)]).size + rng.choice([0, 0, -1, 1])))
            m = 200
            new = []
            for c in cols:
                f = c[~np.isnan(c)]
                if f.size == 0:
                    f = np.zeros(1)
                z = rng.choice(f, m) + rng.choice([0, 0, 1e-3, -1e-3, 100, -100], m)
                u = np.unique(f)
                mids = (u[:-1] + u[1:]) / 2
                if mids.size:
                    z[:20] = rng.choice(mids, 20)         # exactly on a threshold
                z[rng.rand(m) < 0.1] = np.nan
                new.append(z)
            check(cols, mb, new, frame=bool(rng.randint(2)), what="n=%d" % n)
            if rec.left() < 0:
                break
    rec.run("sweep", sweep)

    def dtypes():
        for dt in (np.float32, np.float64, np.int64, np.int32, np.int16, np.uint8, np.uint16, np.uint32):
            n = 300
            hi = 200 if dt is np.uint8 else 5000
            c = rng.randint(0, hi, n).astype(dt)
            z = rng.randint(0, hi, 100).astype(dt)
            for mb in (5, 256):
                check([c], mb, [z], frame=True, what="frame")
                check([c, c[::-1].copy()], mb, [z, z], frame=False, what="array")
    rec.run("dtypes", dtypes)

    def missing_only_at_transform():
        c = np.arange(50, dtype=np.float64)
        z = c.copy()
        z[::3] = np.nan
        check([c, c * 2], 256, [z, c], frame=True)
        check([c, c * 2], 16, [z, z], frame=False)
        check([z, c], 8, [c, z], frame=False)
    rec.run("missing-at-transform", missing_only_at_transform)

    def exact():
        u = np.array([0.0, 1.0, 2.0, 5.0])
        check([np.repeat(u, 5)], 4, [np.array([0.5, 1.5, 3.5, 0.5000001, 3.4999, -7, 9])])
        check([np.repeat(u, 5)], 3, [np.array([0.5, 1.5, 3.5, 0.5000001, 3.4999, -7, 9])])
        big = np.array([1e300, -1e300, 1e299, 5.0])
        check([np.tile(big, 4)], 8)
        check([np.array([1e-300, 2e-300, 0.0, -1e-300])], 8)
    rec.run("on-the-threshold", exact)

    def subsampled():
        n = 50001
        c = rng.permutation(n).astype(np.float64)
        enc = Encoder(max_bins=64, subsample=50000, is_categorical=np.zeros(1, dtype=bool), random_state=3)
        X = pd.DataFrame({"a": c})
        enc.fit(X)
        B = transformed(enc, X)[:, 0]
        thr = enc.binning_thresholds_[0]
        require(np.array_equal(B, np.searchsorted(thr, c, side="left")), "bins with subsample")
        require(np.all(np.diff(thr) >= 0) and thr.size <= 63, "thresholds with subsample")
        sizes = np.bincount(B, minlength=64)
        require(sizes.min() > n / 64 * 0.8 and sizes.max() < n / 64 * 1.25, "quantile bins are unbalanced: %s" % sizes)
    rec.run("subsample", subsampled)

    def known():
        X = np.array([[16777216.0], [16777217.0], [16777220.0]], dtype=object)
        enc = Encoder(is_categorical=np.zeros(1, dtype=bool))
        enc.fit(X)
        b = transformed(enc, X)[:, 0]
        if len(set(b.tolist())) != 3:
            rec.known = getattr(rec, "known", []) + ["object-float32"]
    rec.run("known-object-float32", known)


# ================================================================== C03
def run_C03(rec, tier, seed, only):
    from wildwood.preprocessing import Encoder, features_bitarray_to_array
    from wildwood import ForestClassifier, ForestRegressor
    rng = np.random.RandomState(seed)

    def isna(v):
        return pd.isna(v)

    def check(col_fit, col_new, frame, unknown, what, is_cat=np.array([True])):
        """col_fit, col_new: object lists; second column is a constant filler."""
        def mk(c):
            if frame == "category":
                return pd.DataFrame({"a": pd.Series(c, dtype="category")})
            if frame == "object":
                return pd.DataFrame({"a": pd.Series(c, dtype=object)})
            if frame == "natural":
                return pd.DataFrame({"a": pd.Series(c)})
            a = np.empty((len(c), 1), dtype=object)
            a[:, 0] = c
            return a
        enc = Encoder(is_categorical=is_cat, handle_unknown=unknown)
        enc.fit(mk(col_fit))
        known = {v for v in col_fit if not isna(v)}
        for c in (col_fit, col_new, col_new[::-1], col_new[:3], [col_new[0]]):
            unk = [v for v in c if not isna(v) and v not in known]
            if unk and unknown == "error":
                try:
                    enc.transform(mk(c))
                except ValueError:
                    continue
                fail("%s: unknown categories %s did not raise" % (what, unk[:3]))
            b = features_bitarray_to_array(enc.transform(mk(c)))[:, 0].astype(np.int64)
            b2 = features_bitarray_to_array(enc.transform(mk(c)))[:, 0].astype(np.int64)
            require(np.array_equal(b, b2), what + ": encoding twice differs")
            for v, x in zip(c, b):
                if isna(v) or v not in known:
                    require(x == len(known), "%s: missing or unknown value %r gets bin %d, %d categories" %
                            (what, v, x, len(known)))
                else:
                    code = enc_codes.setdefault((id(enc), v), x)
                    require(code == x, "%s: category %r gets bins %d and %d" % (what, v, code, x))
                    require(0 <= x < len(known), "%s: category %r gets bin %d of %d" % (what, v, x, len(known)))
            used = {}
            for v, x in zip(c, b):
                if not isna(v) and v in known:
                    require(used.setdefault(x, v) == v, "%s: categories %r and %r share bin %d" % (what, v, used[x], x))
        allb = {enc_codes[(id(enc), v)] for v in known if (id(enc), v) in enc_codes}
        require(len(allb) == len([v for v in known if (id(enc), v) in enc_codes]), what + ": categories share a bin")
        keep.append(enc)
        rec.checks += 1

    enc_codes, keep = {}, []

    def sweep():
        for rep in range(60 if tier == "quick" else 1500):
            nc = int(rng.choice([1, 2, 3, 7, 20, 64, 65]))
            pool = ["v%02d" % i for i in rng.permutation(2 * nc)]
            n = 4 * nc + 3
            cf = [pool[i] for i in rng.randint(0, nc, n)]
            cn = [pool[i] for i in rng.randint(0, 2 * nc if rng.rand() < 0.6 else nc, 40)]
            if rng.rand() < 0.5:
                for i in rng.randint(0, n, 3):
                    cf[i] = None if rng.rand() < 0.5 else np.nan
            if rng.rand() < 0.5:
                for i in rng.randint(0, 40, 4):
                    cn[i] = None if rng.rand() < 0.5 else np.nan
            if not any(not isna(v) for v in cf):
                continue
            for frame in ("category", "object", "array"):
                for unknown in ("error", "consider_missing"):
                    check(cf, cn, frame, unknown, "frame=%s unknown=%s n_categories=%d" % (frame, unknown, nc))
            if rec.left() < 0:
                break
    rec.run("strings", sweep)

    def numbers():
        for dt in (np.int64, np.float64, np.float32, np.uint8):
            for unknown in ("error", "consider_missing"):
                cf = rng.choice([3, 7, 11, 200, 15], 40).astype(dt).tolist()
                cn = rng.choice([3, 7, 200, 9, 100], 30).astype(dt).tolist()
                check(cf, cn, "natural", unknown, "numbers %s %s" % (dt, unknown))
                a, z = np.array(cf, dtype=dt).reshape(-1, 1), np.array(cn, dtype=dt).reshape(-1, 1)
                enc = Encoder(is_categorical=np.array([True]), handle_unknown="consider_missing").fit(a)
                b = features_bitarray_to_array(enc.transform(z))[:, 0].astype(int)
                kn = sorted(set(cf))
                want = [kn.index(v) if v in kn else len(kn) for v in cn]
                require(len(set(zip(want, b))) == len(set(want)) == len(set(b)), "numeric array categories %s" % dt)
    rec.run("numbers", numbers)

    def many():
        for nc in (2, 126, 127, 128, 129, 255, 256, 257, 300, 32767, 32768, 33000):
            vals = ["k%06d" % i for i in range(nc)]
            X = pd.DataFrame({"a": pd.Series(vals, dtype="category")})
            enc = Encoder(is_categorical=np.array([True]), handle_unknown="consider_missing").fit(X)
            Z = pd.DataFrame({"a": pd.Series(vals + [None, "zz"], dtype="category")})
            b = features_bitarray_to_array(enc.transform(Z))[:, 0].astype(np.int64)
            require(len(set(b[:nc])) == nc and b[:nc].max() == nc - 1 and b[nc] == nc and b[nc + 1] == nc,
                    "%d categories: bins %s" % (nc, b[-4:]))
            X2 = pd.DataFrame({"a": pd.Series(vals + [None], dtype="category")})
            enc = Encoder(is_categorical=np.array([True])).fit(X2)
            b = features_bitarray_to_array(enc.transform(X2))[:, 0].astype(np.int64)
            require(len(set(b)) == nc + 1 and b[nc] == nc, "%d categories and a missing value at fit" % nc)
            rec.checks += 1
    rec.run("many-categories", many)

    def multi():
        """several columns, duplicate column names, category subsets with reordered categories"""
        n = 120
        X = pd.DataFrame({"a": pd.Series(rng.choice(list("pqrst"), n), dtype="category"),
                          "b": rng.normal(size=n), "c": pd.Series(rng.choice(list("xyz"), n), dtype="category")})
        X.columns = ["a", "a", "c"]
        enc = Encoder(is_categorical=np.array([True, False, True]), handle_unknown="consider_missing").fit(X)
        B = features_bitarray_to_array(enc.transform(X)).astype(int)
        for j in (0, 2):
            v = X.iloc[:, j].astype(str).values
            require(len(set(zip(v, B[:, j]))) == len(set(v)) == len(set(B[:, j])), "column %d of a frame with repeated "
                    "column names" % j)
        require(np.array_equal(B[:, 1], np.searchsorted(enc.binning_thresholds_[1], X.iloc[:, 1].values)), "column 1")
        s = pd.Series(pd.Categorical(["t", "p", "t", "q"], categories=["t", "q", "p", "zz"], ordered=True))
        Z = pd.DataFrame({"a": s, "b": [0.0] * 4, "c": pd.Series(["z", "y", "x", "z"], dtype="category")})
        BZ = features_bitarray_to_array(enc.transform(Z)).astype(int)
        for v, b in zip(["t", "p", "t", "q"], BZ[:, 0]):
            i = int(np.flatnonzero(X.iloc[:, 0].astype(str).values == v)[0])
            require(B[i, 0] == b, "category %r: bin %d at fit, %d with a reordered categorical dtype" % (v, B[i, 0], b))
        rec.checks += 1
    rec.run("several-columns", multi)

    def dtypes():
        """categorical dtypes whose category list is permuted, cut or extended with respect to the one at fit time"""
        for rep in range(40 if tier == "quick" else 800):
            nc = int(rng.choice([2, 3, 5, 9, 40]))
            num = rng.rand() < 0.3
            cats = [int(i) * 3 - 7 for i in range(nc)] if num else ["w%02d" % i for i in range(nc)]
            extra = [1000, 1001] if num else ["zz", "aa"]

            def order():
                return [cats[i] for i in rng.permutation(nc)]
            n = 4 * nc + 5
            vals = cats + [cats[i] for i in rng.randint(0, nc, n - nc)]
            fit_order, ordered = order(), bool(rng.randint(2))
            Xf = pd.DataFrame({"a": pd.Categorical(vals, categories=fit_order, ordered=ordered)})
            enc = Encoder(is_categorical=np.array([True]), handle_unknown="consider_missing").fit(Xf)
            code = {}
            for v, b in zip(vals, features_bitarray_to_array(enc.transform(Xf))[:, 0].astype(int)):
                require(code.setdefault(v, b) == b, "category %r gets two bins" % (v,))
            require(sorted(code.values()) == list(range(nc)), "bins at fit %s" % code)
            for kind in ("same", "reversed", "permuted", "subset", "superset", "swapped"):
                o = order()
                if kind == "same":
                    o = list(fit_order)
                elif kind == "reversed":
                    o = list(fit_order)[::-1]
                elif kind == "subset":
                    o = o[:max(1, nc // 2)]
                elif kind == "superset":
                    o = extra[:1] + o + extra[1:]
                elif kind == "swapped":
                    o = list(enc.categories_[0])
                    o[0], o[-1] = o[-1], o[0]
                pool = o + ([None] if rng.rand() < 0.5 else [])
                z = [pool[i] for i in rng.randint(0, len(pool), 25)]
                Z = pd.DataFrame({"a": pd.Categorical(z, categories=o, ordered=bool(rng.randint(2)))})
                bz = features_bitarray_to_array(enc.transform(Z))[:, 0].astype(int)
                for v, b in zip(z, bz):
                    want = code.get(v, nc) if v is not None else nc
                    require(b == want, "category %r: bin %d at fit, %d with a %s list of categories" % (v, want, b, kind))
            rec.checks += 1
            if rec.left() < 0:
                break
    rec.run("category-dtypes", dtypes)

    def declared():
        n = 90
        A = rng.randint(0, 6, size=(n, 3)).astype(np.float64)
        A[:, 1] = rng.normal(size=n)
        y = rng.randint(0, 2, n)
        for F in (ForestClassifier, ForestRegressor):
            for decl in ([0], [0, 2], np.array([True, False, True]), [True, False, False]):
                want = np.zeros(3, dtype=bool)
                want[np.asarray(decl)] = True
                f = F(n_estimators=1, random_state=1, categorical_features=decl).fit(A, y)
                require(np.array_equal(np.asarray(f.is_categorical_, dtype=bool), want),
                        "declared %s in the constructor, treated as %s" % (decl, f.is_categorical_))
                f = F(n_estimators=1, random_state=1)
                f.fit(A, y, categorical_features=decl)
                require(np.array_equal(np.asarray(f.is_categorical_, dtype=bool), want),
                        "declared %s in fit, treated as %s" % (decl, f.is_categorical_))
                D = pd.DataFrame(A, columns=list("abc"))
                f = F(n_estimators=1, random_state=1, categorical_features=decl).fit(D, y)
                require(np.array_equal(np.asarray(f.is_categorical_, dtype=bool), want), "frame, declared %s" % (decl,))
                ctx = T(f, 0).ctx
                require(np.array_equal(np.array(iget(ctx, "is_categorical")), want), "the tree uses other columns")
            for bad in ([3], [-1], [True, False]):
                try:
                    F(n_estimators=1, categorical_features=bad).fit(A, y)
                except ValueError:
                    continue
                fail("categorical_features=%s accepted" % (bad,))
        rec.checks += 1
    rec.run("declared", declared)

    def declared_wide():
        """many columns, any subset declared, in any order, as positions or as a mask"""
        n, d = 60, 11
        A = rng.randint(0, 40, size=(n, d)).astype(np.float64)
        y = rng.randint(0, 2, n)
        for rep in range(12 if tier == "quick" else 60):
            k = [1, 2, 3, 4, 5, 8, 10, 11][rep % 8]
            pos = rng.permutation(d)[:k]
            want = np.zeros(d, dtype=bool)
            want[pos] = True
            decl = (list(map(int, pos)), pos, want, list(map(bool, want)))[rep // 2 % 4]
            F = (ForestClassifier, ForestRegressor)[rep % 2]
            W = pd.DataFrame(A, columns=["c%d" % j for j in range(d)]) if rep % 3 == 0 else A
            f = F(n_estimators=1, random_state=1, categorical_features=decl if rep % 4 < 2 else None)
            f.fit(W, y, **({} if rep % 4 < 2 else dict(categorical_features=decl)))
            require(np.array_equal(np.asarray(f.is_categorical_, dtype=bool), want), "declared %s, treated as %s" % (decl, f.is_categorical_))
            require(np.array_equal(np.array(iget(T(f, 0).ctx, "is_categorical")), want), "the tree uses other columns")
            b = features_bitarray_to_array(f.encoder.transform(W) if hasattr(f, "encoder") else f._encoder.transform(W)).astype(int)
            for j in pos:
                u = sorted(set(zip(A[:, j], b[:, j])))
                require(len(u) == len(set(A[:, j])) == len(set(b[:, j])), "declared column %d: one bin per value" % j)
        rec.checks += 1
    rec.run("declared-wide", declared_wide)

    def auto():
        """no declaration: category dtype and few distinct values are categorical"""
        n = 200
        D = pd.DataFrame({"few": rng.randint(0, 3, n).astype(float), "many": rng.normal(size=n),
                          "cat": pd.Series(rng.choice(list("ab"), n), dtype="category"),
                          "obj": rng.choice(list("pqr"), n).astype(object)})
        e = Encoder().fit(D)
        require(list(map(bool, e.is_categorical_)) == [True, False, True, True], "detected %s" % (e.is_categorical_,))
        b = features_bitarray_to_array(e.transform(D)).astype(int)
        for j, c in ((0, "few"), (2, "cat"), (3, "obj")):
            v = D[c].astype(str).values
            require(len(set(zip(v, b[:, j]))) == len(set(v)) == len(set(b[:, j])), "column " + c)
        rec.checks += 1
    rec.run("detected", auto)


# ================================================================== C04
def run_C04(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        for t in trees_of(f):
            audit_samples(t, len(y), user_weights(f, y, sw, t.idx))
    over(rec, tier, seed, only, body, names=None)

    def direct():
        g = internal("wildwood.forest", "_generate_train_valid_samples")
        rng = np.random.RandomState(seed)
        for n in [2, 3, 4, 5, 8, 20, 100, 1000, 70000]:
            seeds = range(60) if n < 100 else [int(s) for s in rng.randint(0, 2 ** 31, 4)]
            for s in list(seeds) + [2 ** 32 - 2, 2 ** 32 - 1][:1 if n > 5 else 2]:
                if s >= 2 ** 32 - 1 and n <= 3:
                    continue
                tr, va, ct = icall(g, s, n)
                tr, va, ct = [np.asarray(a).astype(np.int64) for a in (tr, va, ct)]
                who = "seed %d, %d samples: " % (s, n)
                require(np.array_equal(np.sort(np.concatenate([tr, va])), np.arange(n)), who + "not a partition")
                require(tr.size > 0 and va.size > 0, who + "an empty side")
                require(ct.size == tr.size and np.all(ct > 0) and ct.sum() == n, who + "multiplicities %s" % ct[:20])
                rec.checks += 1
    rec.run("draws", direct)

    def isolated():
        from wildwood import ForestClassifier
        rng = np.random.RandomState(seed)
        n = 60
        X, y = rng.normal(size=(n, 3)), rng.randint(0, 2, n)
        sw = rng.choice([0.5, 1.0, 2.0], n)
        for jobs in (1, 4):
            f = ForestClassifier(n_estimators=30, n_jobs=jobs, random_state=3)
            f.fit(X, y, sample_weight=sw)
            for t in trees_of(f):
                audit_samples(t, n, sw)
            a = [iget(t.ctx, "sample_weights") for t in trees_of(f)]
            for i in range(len(a) - 1):
                require(not np.shares_memory(np.asarray(a[i]), np.asarray(a[i + 1])), "two trees share their weights")
        rec.checks += 1
    rec.run("isolated", isolated)


# ================================================================== C05
def kernel_setup(rng, kind, n, d, n_bins, cat, agg=True, msl=1, mss=2, n_classes=3, max_features=None, criterion=None,
                 strategy=0, weights_=None, y=None):
    """Contexts for calling the kernels directly."""
    array_to_bitarray = internal("wildwood.preprocessing.features_bitarray", "array_to_bitarray")
    TC, TR = internal("wildwood._tree_context", "TreeClassifierContext", "TreeRegressorContext")
    NC, NR = internal("wildwood._node", "NodeClassifierContext", "NodeRegressorContext")
    SC, SR = internal("wildwood._split", "SplitClassifier", "SplitRegressor")
    bins = np.stack([rng.randint(0, nb, n) for nb in n_bins], axis=1).astype(np.uint64)
    for j, nb in enumerate(n_bins):
        bins[rng.randint(n), j] = nb - 1
    perm = rng.permutation(n)
    cut = max(1, min(n - 1, int(n * rng.uniform(0.4, 0.8))))
    tr, va = np.sort(perm[:cut]).astype(np.uintp), np.sort(perm[cut:]).astype(np.uintp)
    w = (rng.choice([0.5, 1.0, 2.0, 3.0], n) if weights_ is None else weights_).astype(np.float32)
    is_cat = np.asarray(cat, dtype=bool)
    mf = d if max_features is None else max_features
    fb = array_to_bitarray(bins)
    md = np.iinfo(np.intp).max
    if kind == "clf":
        y = (rng.randint(0, n_classes, n) if y is None else y).astype(np.float32)
        ctx = icall(TC, fb, y, w, tr, va, n_classes, mf, md, mss, msl, agg, 0.5, 1.0, is_cat, strategy,
                    0 if criterion is None else criterion)
        return dict(bins=bins.astype(np.int64), y=y, w=w, tr=tr, va=va, ctx=ctx, node=icall(NC, ctx),
                    split=icall(SC, n_classes, int(ctx.max_n_bins)))
    y = (rng.randint(-8, 9, n) / 2.0 if y is None else y).astype(np.float32)
    ctx = icall(TR, fb, y, w, tr, va, mf, md, mss, msl, agg, 1.0, is_cat, 3)
    return dict(bins=bins.astype(np.int64), y=y, w=w, tr=tr, va=va, ctx=ctx, node=icall(NR, ctx),
                split=icall(SR, int(ctx.max_n_bins)))


def run_C05(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        for t in trees_of(f, 4):
            audit_partition(t)
    over(rec, tier, seed, only, body)

    def kernel(kind):
        split_indices = internal("wildwood._split", "split_indices")
        rng = np.random.RandomState(seed)
        for rep in range(120 if tier == "quick" else 4000):
            n = int(rng.choice([2, 3, 7, 40, 64, 65, 200]))
            d = rng.randint(1, 4)
            n_bins = [int(rng.choice([2, 3, 5, 17, 70, 300])) for _ in range(d)]
            cat = rng.rand(d) < 0.5
            s = kernel_setup(rng, kind, n, d, n_bins, cat)
            ctx, sp = s["ctx"], s["split"]
            ctx.partition_train[:] = rng.permutation(s["tr"])
            ctx.partition_valid[:] = rng.permutation(s["va"])
            for again in range(4):
                j = int(rng.randint(d))
                nt, nv = s["tr"].size, s["va"].size
                a, b = sorted(rng.randint(0, nt + 1, 2))
                c, e = sorted(rng.randint(0, nv + 1, 2))
                sp.feature = j
                sp.is_split_categorical = bool(cat[j])
                thr = int(rng.randint(0, n_bins[j]))
                sp.bin_threshold = thr
                size = int(rng.randint(1, n_bins[j] + 1))
                part = np.sort(rng.choice(n_bins[j], size, replace=False))
                sp.bin_partition_size = size
                sp.bin_partition[:size] = part
                before = np.array(ctx.partition_train).astype(np.int64), np.array(ctx.partition_valid).astype(np.int64)
                pt, pv = icall(split_indices, ctx, sp, int(a), int(b), int(c), int(e))
                pt, pv = int(pt), int(pv)
                after = np.array(ctx.partition_train).astype(np.int64), np.array(ctx.partition_valid).astype(np.int64)
                col = s["bins"][:, j]
                left = np.isin(col, part) if cat[j] else col <= thr
                for nm, bf, af, lo, mid, hi in (("train", before[0], after[0], a, pt, b),
                                                ("valid", before[1], after[1], c, pv, e)):
                    who = "split_indices, %s, %s rule, range [%d, %d) of %d: " % (
                        nm, "categorical" if cat[j] else "threshold", lo, hi, bf.size)
                    require(lo <= mid <= hi, who + "position %d" % mid)
                    require(np.array_equal(bf[:lo], af[:lo]) and np.array_equal(bf[hi:], af[hi:]),
                            who + "samples of other nodes moved")
                    require(np.array_equal(np.sort(bf[lo:hi]), np.sort(af[lo:hi])), who + "samples lost or duplicated")
                    require(left[af[lo:mid]].all() and not left[af[mid:hi]].any(), who + "wrong side")
            rec.checks += 1
            if rec.left() < 0:
                break
    rec.run("kernel-clf", kernel, "clf")
    rec.run("kernel-reg", kernel, "reg")
    rec.run("announced-clf", announced, rec, "clf", tier, seed)
    rec.run("announced-reg", announced, rec, "reg", tier, seed)


def announced(rec, kind, tier, seed):
    """find_node_split announces exactly the counts split_indices then produces"""
    split_indices, find_node_split = internal("wildwood._split", "split_indices", "find_node_split")
    along = internal("wildwood._split", "find_best_split_%s_along_feature" % ("classifier" if kind == "clf" else "regressor"))
    comp = internal("wildwood._node", "compute_node_%s_context" % ("classifier" if kind == "clf" else "regressor"))
    rng = np.random.RandomState(seed + 5)
    for rep in range(60 if tier == "quick" else 2000):
        n = int(rng.choice([5, 9, 40, 120]))
        d = rng.randint(1, 4)
        n_bins = [int(rng.choice([2, 3, 6, 20, 70])) for _ in range(d)]
        cat = rng.rand(d) < 0.5
        agg = bool(rng.randint(2))
        s = kernel_setup(rng, kind, n, d, n_bins, cat, agg=agg)
        ctx, sp, node = s["ctx"], s["split"], s["node"]
        nt, nv = s["tr"].size, s["va"].size
        icall(comp, ctx, node, 0, nt, 0, nv)
        icall(find_node_split, ctx, node, along, sp)
        if not sp.found_split:
            continue
        nl, nr, vl, vr = int(sp.n_samples_train_left), int(sp.n_samples_train_right), int(sp.n_samples_valid_left), int(sp.n_samples_valid_right)
        pt, pv = icall(split_indices, ctx, sp, 0, nt, 0, nv)
        who = "%s, %s split, aggregation=%s: " % (kind, "categorical" if sp.is_split_categorical else "threshold", agg)
        require((nl, nr) == (int(pt), nt - int(pt)), who + "announced %d/%d training samples, got %d/%d" %
                (nl, nr, pt, nt - pt))
        if agg:
            require((vl, vr) == (int(pv), nv - int(pv)), who + "announced %d/%d validation samples, got %d/%d" %
                    (vl, vr, pv, nv - pv))
        rec.checks += 1
        if rec.left() < 0:
            break


# ================================================================== C06
def run_C06(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        for t in trees_of(f, 4):
            audit_structure(t)
    over(rec, tier, seed, only, body)

    def chain(kind):
        """a caterpillar tree: the work stack and the node table grow well beyond their first capacities"""
        n = 6000
        X = np.arange(n, dtype=np.float64).reshape(-1, 1)
        y = np.arange(n) % 2 if kind == "clf" else ((np.arange(n) * 7919) % 101) / 4.0
        f = fit(kind, X, y, None, n_estimators=1, aggregation=False, max_bins=n + 5, max_features=None,
                categorical_features=[False])
        for t in trees_of(f):
            audit_structure(t)
            require(t.nc > 5000, "only %d nodes" % t.nc)
        rec.checks += 1
    rec.run("chain-clf", chain, "clf")
    rec.run("chain-reg", chain, "reg")


# ================================================================== C07
def run_C07(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        for t in trees_of(f, 4):
            audit_limits(t, fparams(f), max_nodes=120 if tier == "quick" else 400, rng=rng)
    over(rec, tier, seed, only, body)

    def grid(kind):
        rng = np.random.RandomState(seed + 3)
        for md, mss, msl, agg in itertools.product((None, 2, 4), (2, 5, 9), (1, 3, 7), (True, False)):
            n = 90
            X, y = make_data(rng, n, d_num=2, d_cat=1, kind=kind, n_classes=2, n_cats=6, levels=rng.choice([4, 25]),
                             noise=2.0)
            f = fit(kind, X, y, None, n_estimators=2, max_depth=md, min_samples_split=mss, min_samples_leaf=msl,
                    aggregation=agg, max_features=None, categorical_features=[False, False, True], dirichlet=0.5) \
                if kind == "clf" else \
                fit(kind, X, y, None, n_estimators=2, max_depth=md, min_samples_split=mss, min_samples_leaf=msl,
                    aggregation=agg, max_features=None, categorical_features=[False, False, True])
            for t in trees_of(f):
                audit_limits(t, fparams(f), rng=rng)
            rec.checks += 1
            if rec.left() < 0:
                break
    rec.run("grid-clf", grid, "clf")
    rec.run("grid-reg", grid, "reg")


# ================================================================== C08
def run_C08(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        Z = new_rows(rng, X)
        aX, aZ = f.apply(X), f.apply(Z)
        for t in trees_of(f, 4):
            audit_routing(t, f, X, Z, aX, aZ)
        one = f.apply(Z.iloc[:1])
        require(np.array_equal(one[:, 0], aZ[:, 0]), "routing a single row differs from routing it among others")
    over(rec, tier, seed, only, body)

    def binpart():
        g = internal("wildwood._split", "is_bin_in_partition")
        rng = np.random.RandomState(seed)
        for rep in range(400):
            m = int(rng.choice([1, 2, 3, 4, 5, 8, 33, 200]))
            part = np.sort(rng.choice(3 * m + 2, m, replace=False)).astype(np.uint64)
            for b in range(0, 3 * m + 4):
                require(bool(icall(g, np.uint64(b), part)) == (b in part), "is_bin_in_partition(%d, %s)" % (b, part))
        rec.checks += 1
    rec.run("membership", binpart)


# ================================================================== C09
def run_C09(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        for t in trees_of(f, 4):
            audit_stats(t, f.dirichlet if t.clf else None, max_nodes=300 if tier == "quick" else 1500, rng=rng)
    over(rec, tier, seed, only, body)

    def kernel(kind):
        comp = internal("wildwood._node", "compute_node_%s_context" % ("classifier" if kind == "clf" else "regressor"))
        rng = np.random.RandomState(seed + 9)
        for rep in range(60 if tier == "quick" else 1500):
            n = int(rng.choice([3, 10, 64, 65, 150]))
            d = rng.randint(1, 5)
            mf = int(rng.randint(1, d + 1))
            n_bins = [int(rng.choice([1, 2, 3, 6, 20, 70])) for _ in range(d)]
            agg = bool(rng.randint(3))
            C = int(rng.choice([1, 2, 3, 6]))
            s = kernel_setup(rng, kind, n, d, n_bins, np.zeros(d, dtype=bool), agg=agg, max_features=mf, n_classes=C)
            ctx, node = s["ctx"], s["node"]
            nt, nv = s["tr"].size, s["va"].size
            for again in range(3):
                a, b = sorted(rng.randint(0, nt + 1, 2))
                if a == b:
                    a, b = 0, nt
                c, e = sorted(rng.randint(0, nv + 1, 2))
                icall(comp, ctx, node, int(a), int(b), int(c), int(e))
                I, V = s["tr"][a:b].astype(int), s["va"][c:e].astype(int)
                w, y = s["w"].astype(np.float64), s["y"].astype(np.float64)
                who = "%s context of training samples [%d, %d): " % (kind, a, b)
                require(close(node.w_samples_train, w[I].sum()), who + "training weight")
                if agg:
                    require(close(node.w_samples_valid, w[V].sum()), who + "validation weight")
                if kind == "clf":
                    al = float(ctx.dirichlet)
                    want = (np.bincount(y[I].astype(int), w[I], minlength=C) + al) / (w[I].sum() + C * al)
                    require(close(node.y_pred, want), who + "prediction %s, expected %s" % (np.array(node.y_pred), want))
                elif w[I].sum() > 0:
                    require(close(node.y_pred, (w[I] * y[I]).sum() / w[I].sum()), who + "prediction")
                for f_, j in enumerate(np.array(node.features_sampled).astype(int)):
                    nb = int(ctx.max_n_bins)
                    bt, bv = s["bins"][I, j], s["bins"][V, j]
                    eq = lambda got, want, nm: require(close(got, want), who + "%s of column %d: %s, expected %s" %
                                                       (nm, j, np.asarray(got), want))
                    eq(node.n_samples_train_in_bins[f_], np.bincount(bt, minlength=nb), "counts per bin")
                    eq(node.w_samples_train_in_bins[f_], np.bincount(bt, w[I], minlength=nb), "weights per bin")
                    if agg:
                        eq(node.n_samples_valid_in_bins[f_], np.bincount(bv, minlength=nb), "validation counts per bin")
                        eq(node.w_samples_valid_in_bins[f_], np.bincount(bv, w[V], minlength=nb), "validation weights")
                        cv = int(node.non_empty_bins_valid_count[f_])
                        require(sorted(map(int, node.non_empty_bins_valid[f_, :cv])) == sorted(set(bv.tolist())),
                                who + "occupied validation bins")
                    ct = int(node.non_empty_bins_train_count[f_])
                    require(sorted(map(int, node.non_empty_bins_train[f_, :ct])) == sorted(set(bt.tolist())),
                            who + "occupied bins")
                    if kind == "clf":
                        for k in range(C):
                            m = y[I] == k
                            eq(node.y_sum[f_, :, k], np.bincount(bt[m], w[I][m], minlength=nb), "class weights per bin")
                    else:
                        eq(node.y_sum[f_], np.bincount(bt, w[I] * y[I], minlength=nb), "target sums per bin")
                        eq(node.y_sq_sum[f_], np.bincount(bt, w[I] * y[I] ** 2, minlength=nb), "squared target sums")
            rec.checks += 1
            if rec.left() < 0:
                break
    rec.run("kernel-clf", kernel, "clf")
    rec.run("kernel-reg", kernel, "reg")

    def one_class():
        rng = np.random.RandomState(seed)
        X, y = make_data(rng, 80, kind="clf", n_classes=2)
        f = fit("clf", X, np.full(len(X), "a"), None, categorical_features=[3], n_estimators=2, aggregation=True)
        for t in trees_of(f):
            require(close(t.y_pred, np.ones_like(t.y_pred)), "one class: node predictions %s" % t.y_pred.ravel()[:3])
        rec.checks += 1
    rec.run("one-class", one_class)


# ================================================================== C10
def run_C10(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        for t in trees_of(f, 2):
            audit_best(t, fparams(f), getattr(f, "cat_split_strategy", None),
                       t.y_pred.shape[1] if t.clf else 0, max_nodes=40 if tier == "quick" else 150, rng=rng)
    over(rec, tier, seed, only, body)

    def kernel(kind):
        find_node_split = internal("wildwood._split", "find_node_split")
        nm = "classifier" if kind == "clf" else "regressor"
        along = internal("wildwood._split", "find_best_split_%s_along_feature" % nm)
        comp = internal("wildwood._node", "compute_node_%s_context" % nm)
        rng = np.random.RandomState(seed + 11)
        for rep in range(150 if tier == "quick" else 4000):
            n = int(rng.choice([4, 8, 20, 60, 150]))
            d = rng.randint(1, 5)
            mf = int(rng.randint(1, d + 1))
            n_bins = [int(rng.choice([2, 3, 5, 12, 70])) for _ in range(d)]
            cat = rng.rand(d) < 0.4
            agg = bool(rng.randint(2))
            C = int(rng.choice([2, 3]))
            crit = int(rng.randint(2))
            strat = int(rng.randint(3))
            msl = int(rng.choice([1, 1, 2, 5]))
            wk = rng.choice([0.5, 1.0, 2.0, 3.0], n)
            if rng.rand() < 0.2:
                wk[rng.rand(n) < 0.4] = 0.0
            s = kernel_setup(rng, kind, n, d, n_bins, cat, agg=agg, max_features=mf, n_classes=C, criterion=crit,
                             strategy=strat, msl=msl, weights_=wk)
            ctx, node, sp = s["ctx"], s["node"], s["split"]
            nt, nv = s["tr"].size, s["va"].size
            if agg and nv == 0 or wk[s["tr"].astype(int)].sum() <= 0:
                continue
            icall(comp, ctx, node, 0, nt, 0, nv)
            icall(find_node_split, ctx, node, along, sp)
            I, V = s["tr"].astype(int), s["va"].astype(int)
            w, y = s["w"].astype(np.float64), s["y"].astype(np.float64)

            def imp(idx):
                W = w[idx].sum()
                if kind == "reg":
                    m = (w[idx] * y[idx]).sum() / W
                    return (w[idx] * (y[idx] - m) ** 2).sum() / W
                p = np.array([w[idx][y[idx] == k].sum() for k in range(C)]) / W
                return 1 - (p ** 2).sum() if crit == 0 else -sum(q * np.log(q) for q in p if q > 0)
            best, arg, fuzzy = -np.inf, None, False
            for j in np.array(node.features_sampled).astype(int):
                bt, bv = s["bins"][I, j], s["bins"][V, j]
                occ = np.unique(bt)
                if cat[j]:
                    ws = np.array([w[I][bt == b].sum() for b in occ])
                    if np.any(ws <= 0):
                        fuzzy = True
                        continue
                    orders = []
                    if kind == "reg":
                        sc_ = [np.array([(w[I] * y[I])[bt == b].sum() for b in occ])]
                    else:
                        cl = [1] if strat == 0 else range(C)
                        sc_ = [np.array([w[I][(bt == b) & (y[I] == k)].sum() for b in occ]) / ws for k in cl]
                    for z in sc_:
                        if np.unique(np.round(z, 5)).size < z.size:
                            fuzzy = True
                        else:
                            orders.append(occ[np.argsort(z)])
                    if kind == "clf" and strat == 2 and len(orders) > 0:
                        fuzzy = True
                        orders = []
                    rules = [o[:c] for o in orders for c in range(1, occ.size)]
                else:
                    rules = [occ[:c] for c in range(1, occ.size)]
                for r in rules:
                    lt = np.isin(bt, r)
                    lv = np.isin(bv, r) if cat[j] else bv <= r[-1]
                    ok = lt.sum() >= msl and (~lt).sum() >= msl
                    if agg:
                        ok = ok and lv.sum() >= msl and (~lv).sum() >= msl
                    if not ok or w[I][lt].sum() <= 0 or w[I][~lt].sum() <= 0:
                        continue
                    g = -w[I][lt].sum() * imp(I[lt]) - w[I][~lt].sum() * imp(I[~lt])
                    if g > best:
                        best, arg = g, (int(j), "cat" if cat[j] else "num", [int(v) for v in r][-6:])
            who = "%s, n=%d, min_samples_leaf=%d, aggregation=%s, criterion=%d, strategy=%d: " % (kind, n, msl, agg, crit, strat)
            tol = 1e-3 * (1 + w[I].sum() * (1 if kind == "clf" else 20))
            if not sp.found_split:
                require(best == -np.inf, lambda: who + "no split found, but %s is admissible with gain proxy %s" % (arg, best))
                continue
            require(sp.gain_proxy >= best - tol, lambda: who + "chosen gain proxy %s, candidate %s has %s" %
                    (sp.gain_proxy, arg, best))
            j = int(sp.feature)
            require(j in set(np.array(node.features_sampled).astype(int).tolist()), who + "split on a column that is not a candidate")
            bt, bv = s["bins"][I, j], s["bins"][V, j]
            if cat[j]:
                part = np.array(sp.bin_partition[:int(sp.bin_partition_size)]).astype(int)
                require(np.all(np.diff(part) > 0), who + "the set of categories is not sorted: %s" % part)
                require(np.isin(part, bt).all(), who + "the set of categories %s contains unoccupied bins" % part)
                lt, lv = np.isin(bt, part), np.isin(bv, part)
            else:
                lt, lv = bt <= int(sp.bin_threshold), bv <= int(sp.bin_threshold)
            g = -w[I][lt].sum() * imp(I[lt]) - w[I][~lt].sum() * imp(I[~lt])
            require(abs(g - sp.gain_proxy) <= tol, who + "reported gain proxy %s, the samples say %s" % (sp.gain_proxy, g))
            require(bool(sp.is_split_categorical) == bool(cat[j]), who + "is_split_categorical")
            for nm_, got, want in (("training samples left", sp.n_samples_train_left, lt.sum()),
                                   ("training samples right", sp.n_samples_train_right, (~lt).sum()),
                                   ("training weight left", sp.w_samples_train_left, w[I][lt].sum()),
                                   ("training weight right", sp.w_samples_train_right, w[I][~lt].sum()),
                                   ("impurity left", sp.impurity_left, imp(I[lt])),
                                   ("impurity right", sp.impurity_right, imp(I[~lt]))) + (
                    (("validation samples left", sp.n_samples_valid_left, lv.sum()),
                     ("validation samples right", sp.n_samples_valid_right, (~lv).sum())) if agg else ()):
                require(abs(float(got) - float(want)) <= 1e-3 * (1 + abs(float(want)) + (20 if "impurity" in nm_ and kind == "reg" else 0)),
                        who + "%s: reported %s, the samples say %s" % (nm_, got, want))
            rec.checks += 1
            if rec.left() < 0:
                break
    rec.run("kernel-clf", kernel, "clf")
    rec.run("kernel-reg", kernel, "reg")


# ================================================================== C11
def run_C11(rec, tier, seed, only):
    rng = np.random.RandomState(seed)
    M = "wildwood._impurity"

    def gini(y):
        p = y / y.sum()
        return 1 - (p ** 2).sum()

    def ent(y):
        p = y[y > 0] / y.sum()
        return -(p * np.log(p)).sum()

    def vec(C):
        k = rng.randint(5)
        y = rng.choice([0.0, 0.0, 1.0, 2.5, 7.0], C) if k == 0 else rng.uniform(0, 10, C) if k == 1 else \
            rng.uniform(0, 1e-3, C) if k == 2 else rng.uniform(0, 1e4, C) if k == 3 else np.eye(C)[rng.randint(C)] * 3.0
        if y.sum() <= 0:
            y[rng.randint(C)] = 1.0
        return y.astype(np.float32)

    def node(fn, ref):
        f = internal(M, fn)
        for rep in range(3000):
            C = int(rng.choice([1, 2, 3, 5, 10, 100]))
            y = vec(C)
            y64 = y.astype(np.float64)
            got = float(icall(f, C, np.float32(y64.sum()), y))
            require(abs(got - ref(y64)) <= 1e-4 * (1 + abs(ref(y64))), "%s(%s) = %s, expected %s" % (fn, y, got, ref(y64)))
            rec.checks += 1

    def childs(fn, ref):
        f = internal(M, fn)
        for rep in range(3000):
            C = int(rng.choice([1, 2, 3, 5, 10, 100]))
            a, b = vec(C), vec(C)
            A, B = a.astype(np.float64), b.astype(np.float64)
            gl, gr = icall(f, float(C), np.float32(A.sum()), np.float32(B.sum()), a, b)
            require(abs(gl - ref(A)) <= 1e-4 * (1 + ref(A)) and abs(gr - ref(B)) <= 1e-4 * (1 + ref(B)),
                    "%s(%s, %s) = %s, expected %s" % (fn, a, b, (gl, gr), (ref(A), ref(B))))
            rec.checks += 1
    for k, r in (("gini", gini), ("entropy", ent)):
        rec.run(k + "_node", node, k + "_node", r)
        rec.run(k + "_childs", childs, k + "_childs", r)

    def mse():
        f, g = internal(M, "mse_node", "mse_childs")
        for rep in range(3000):
            def one():
                n = rng.randint(1, 30)
                w, y = rng.uniform(0.1, 4, n), rng.normal(size=n) * rng.choice([0.1, 1, 10])
                W = w.sum()
                m = (w * y).sum() / W
                return W, (w * y).sum(), (w * y * y).sum(), (w * (y - m) ** 2).sum() / W
            a, b = one(), one()
            tol = lambda q: 1e-4 * (1e-3 + q[2] / q[0])
            v = float(icall(f, *map(np.float32, a[:3])))
            require(abs(v - a[3]) <= tol(a), "mse_node%s = %s, expected %s" % (a[:3], v, a[3]))
            l, r = icall(g, np.float32(a[0]), np.float32(b[0]), np.float32(a[1]), np.float32(b[1]), np.float32(a[2]), np.float32(b[2]))
            require(abs(l - a[3]) <= tol(a) and abs(r - b[3]) <= tol(b), "mse_childs = %s, expected %s" % ((l, r), (a[3], b[3])))
            rec.checks += 1
    rec.run("mse", mse)

    def gain():
        ig, px = internal(M, "information_gain", "information_gain_proxy")
        for rep in range(4000):
            wl, wr = rng.uniform(0.1, 50, 2)
            W = wl + wr
            tot = W * rng.uniform(1, 9)
            ip = rng.uniform(0, 2)
            (l1, r1), (l2, r2) = rng.uniform(0, 2, 2), rng.uniform(0, 2, 2)
            wl2 = rng.uniform(0.1, W - 0.05)
            g1 = float(icall(ig, *map(np.float32, (tot, W, wl, wr, ip, l1, r1))))
            g2 = float(icall(ig, *map(np.float32, (tot, W, wl2, W - wl2, ip, l2, r2))))
            want = W / tot * (ip - wl / W * l1 - wr / W * r1)
            require(abs(g1 - want) <= 1e-4 * (1 + abs(want)), "information_gain = %s, expected %s" % (g1, want))
            p1 = float(icall(px, *map(np.float32, (l1, r1, wl, wr))))
            p2 = float(icall(px, *map(np.float32, (l2, r2, wl2, W - wl2))))
            if abs(g1 - g2) > 1e-3:
                require((g1 > g2) == (p1 > p2), "the proxy ranks two splits differently from the information gain: gains "
                        "%s %s, proxies %s %s" % (g1, g2, p1, p2))
            rec.checks += 1
    rec.run("gain", gain)

    def inside(kind):
        """the impurities the trees store are the criterion's"""
        X, y = make_data(rng, 300, kind=kind, n_classes=3, noise=1.0)
        for crit in (("gini", "entropy") if kind == "clf" else ("mse",)):
            f = fit(kind, X, y, None, n_estimators=1, criterion=crit, max_features=None, categorical_features=[3])
            for t in trees_of(f):
                for k in range(1, t.nc):
                    want = impurity_of(t, t.tr(k))
                    require(abs(float(t.nodes[k]["impurity"]) - want) <= 2e-3 * (1 + abs(want)), "%s: node %d has impurity "
                            "%s, its samples say %s" % (crit, k, t.nodes[k]["impurity"], want))
            rec.checks += 1
    rec.run("in-trees-clf", inside, "clf")
    rec.run("in-trees-reg", inside, "reg")


# ================================================================== C12
def run_C12(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        Z = new_rows(rng, X)
        for t in trees_of(f, 3):
            audit_weights(t, f.step)
            audit_predictions(t, f, X, f.step)
            audit_predictions(t, f, Z, f.step)
        f.step = float(rng.choice([0.05, 0.7, 12.0]))
        for t in trees_of(f, 2):
            audit_weights(t, f.step)
            audit_predictions(t, f, Z, f.step)
    over(rec, tier, seed, only, body)

    def lse():
        g = internal("wildwood._utils", "log_sum_2_exp")
        rng = np.random.RandomState(seed)
        for rep in range(5000):
            a, b = rng.normal(size=2) * rng.choice([1e-3, 1, 30, 1e3, 1e4])
            if rep % 7 == 0:
                b = a
            a, b = float(np.float32(a)), float(np.float32(b))
            got, want = float(icall(g, np.float32(a), np.float32(b))), lse2(a, b)
            require(abs(got - want) <= 1e-5 * (1 + abs(want)), "log_sum_2_exp(%s, %s) = %s, expected %s" % (a, b, got, want))
        rec.checks += 1
    rec.run("log_sum_2_exp", lse)


# ================================================================== C13
def run_C13(rec, tier, seed, only):
    def body(sc, X, y, sw, f, rng):
        Z = new_rows(rng, X)
        for D in (X, Z, Z.iloc[:1]):
            fb = f._encoder.transform(D)
            if sc["kind"] == "clf":
                P = f.predict_proba(D)
                require(P.shape == (len(D), len(f.classes_)), "shape of predict_proba")
                require(np.all(P >= 0) and close(P.sum(axis=1), 1.0, rtol=1e-5), "probabilities are negative or do not sum to 1")
                tp = np.array([t.predict_proba(fb).astype(np.float64) for t in f.trees])
                if f.multiclass == "ovr":
                    E, C = f.n_estimators, len(f.classes_)
                    require(len(f.trees) == E * C, "%d trees for %d classes x %d estimators" % (len(f.trees), C, E))
                    M = np.stack([tp[c * E:(c + 1) * E, :, 1].mean(axis=0) for c in range(C)], axis=1)
                    s = M.sum(axis=1, keepdims=True)
                    want = np.where(s > 1e-6, M / np.maximum(s, 1e-12), 1.0 / C)
                    # the labels each tree was grown on are those of its class
                    for i in range(len(f.trees)):
                        yy = np.array(iget(T(f, i).ctx, "y"))
                        require(np.array_equal(yy, (np.asarray(y) == f.classes_[i // E]).astype(np.float32)),
                                "tree %d was not grown for class %s" % (i, f.classes_[i // E]))
                else:
                    require(len(f.trees) == f.n_estimators, "number of trees")
                    want = tp.mean(axis=0)
                require(close(P, want, rtol=1e-4, atol=1e-5), "forest probabilities are not the mean of the trees'")
                lab = f.predict(D)
                idx = np.searchsorted(f.classes_, lab)
                require(np.array_equal(f.classes_[idx], lab), "predicted label is not a class")
                require(np.all(P[np.arange(len(D)), idx] >= P.max(axis=1) - 1e-12), "predicted label is not a class of "
                        "largest probability")
                if hasattr(f, "predict_proba_trees"):
                    try:
                        pt = f.predict_proba_trees(D)
                    except AttributeError:
                        pt = None
                    if pt is not None:
                        require(close(pt, tp, rtol=1e-5), "predict_proba_trees")
                require(close(tp.sum(axis=2), 1.0, rtol=1e-4) and np.all(tp >= -1e-6), "tree probabilities")
            else:
                p = f.predict(D)
                tp = np.array([t.predict(fb).astype(np.float64) for t in f.trees])
                require(close(p, tp.mean(axis=0), rtol=1e-4, atol=1e-5 * (1 + np.abs(y).max())), "prediction is not the mean of the trees'")
                tol = 1e-4 * (1 + np.abs(y).max())
                require(np.all(p >= y.min() - tol) and np.all(p <= y.max() + tol), "prediction outside the range of the targets")
    over(rec, tier, seed, only, body)

    def jobs():
        """the same mean whatever the number of jobs, below and above the number of trees; nearly pure one-vs-rest leaves"""
        from wildwood import ForestClassifier, ForestRegressor
        rng = np.random.RandomState(seed + 5)
        n = 90
        X = rng.normal(size=(n, 3))
        y = rng.normal(size=n)
        for E in (2, 5, 9):
            f = ForestRegressor(n_estimators=E, random_state=2, n_jobs=8 if E == 2 else 1).fit(X, y)
            fb = f._encoder.transform(X)
            want = np.array([t.predict(fb).astype(np.float64) for t in f.trees]).mean(axis=0)
            for k in (1, 2, 3, 4, 8, -1):
                f.n_jobs = k
                require(close(f.predict(X), want, rtol=1e-4, atol=1e-5), "n_jobs=%d: not the mean of the %d trees" % (k, E))
        for mc in ("multinomial", "ovr"):
            for E, C, d in ((1, 6, 1e-6), (2, 5, 1e-3), (7, 3, 0.5)):
                c = rng.randint(0, C, n)
                c[:C] = np.arange(C)
                f = ForestClassifier(n_estimators=E, multiclass=mc, dirichlet=d, aggregation=E == 7, random_state=3, n_jobs=8 if E == 2 else 1).fit(X, c)
                Z = np.concatenate([X, rng.normal(size=(300, 3)) * 2])
                fb = f._encoder.transform(Z)
                tp = np.array([t.predict_proba(fb).astype(np.float64) for t in f.trees])
                if mc == "ovr":
                    M = np.stack([tp[k * E:(k + 1) * E, :, 1].sum(axis=0) for k in range(C)], axis=1)
                    s = M.sum(axis=1)
                    ok = s > 1e-5
                    want = M[ok] / s[ok, None]
                else:
                    ok, want = slice(None), tp.mean(axis=0)
                for k in (1, 3, 8):
                    f.n_jobs = k
                    P = f.predict_proba(Z)
                    require(np.all(P >= 0) and close(P.sum(axis=1), 1.0, rtol=1e-5), "probabilities do not sum to 1")
                    require(close(P[ok], want, rtol=1e-4, atol=1e-6), "%s, %d trees, n_jobs=%d: not the mean of the trees" % (mc, E, k))
        rec.checks += 1
    rec.run("jobs", jobs)

    def labels():
        """string and shifted labels, more classes, many trees and jobs"""
        from wildwood import ForestClassifier
        rng = np.random.RandomState(seed)
        for mc in ("multinomial", "ovr"):
            for lab in (np.array(["b", "zz", "a", "m"]), np.array([10, -3, 7, 100]), np.array([1.0, 0.0, 2.0, 9.0])):
                n = 240
                c = rng.randint(0, 4, n)
                X = np.stack([c + 0.01 * rng.normal(size=n), rng.normal(size=n)], axis=1)
                f = ForestClassifier(n_estimators=9, n_jobs=3, multiclass=mc, random_state=1, max_features=None).fit(X, lab[c])
                require(np.array_equal(f.classes_, np.sort(lab)), "classes_ %s" % f.classes_)
                acc = np.mean(f.predict(X) == lab[c])
                require(acc > 0.9, "labels permuted? training accuracy %s on separable data (%s)" % (acc, mc))
                P = f.predict_proba(X)
                # per-class columns: samples of class k have their largest mean probability in column k
                for k, cl in enumerate(f.classes_):
                    require(P[lab[c] == cl].mean(axis=0).argmax() == k, "column of class %s" % cl)
                rec.checks += 1
    rec.run("labels", labels)


# ================================================================== C14
def run_C14(rec, tier, seed, only):
    def pred(f, D):
        return f.predict_proba(D) if hasattr(f, "predict_proba") else f.predict(D)

    def refit(sc, X, y, sw, kw, step, dirichlet):
        k = dict(kw)
        k["step"] = step
        if sc["kind"] == "clf":
            k["dirichlet"] = dirichlet
        is_cat = np.array([c.startswith("k") for c in X.columns])
        return fit(sc["kind"], X, y, sw, categorical_features=is_cat, **k)

    def body(sc, X, y, sw, f, rng):
        Z = new_rows(rng, X, 80)
        kw = {k: v for k, v in sc["fit"].items() if k not in ("step", "dirichlet")}
        clf = sc["kind"] == "clf"
        scale = 1.0 if clf else 1 + np.abs(y).max()
        step, diri = f.step, (f.dirichlet if clf else None)
        before = pred(f, Z)
        f.step = step
        if clf:
            f.dirichlet = diri
        require(np.array_equal(before, pred(f, Z)), "setting a parameter to its own value changes the predictions")
        hist = []
        for k in range(4):
            if clf and (k in (1, 2) or k == 3 and rng.rand() < 0.5):
                diri = float(rng.choice([v for v in (0.01, 0.1, 0.5, 2.0) if v != diri]))
                f.dirichlet = diri
                hist.append(("dirichlet", diri))
            else:
                step = float(rng.choice([0.1, 0.5, 1.0, 4.0]))
                f.step = step
                hist.append(("step", step))
            if k in (1, 3):
                g = refit(sc, X, y, sw, kw, step, diri)
                for D, nm in ((Z, "new rows"), (X, "training rows")):
                    a, b = pred(f, D), pred(g, D)
                    require(np.allclose(a, b, rtol=1e-4, atol=2e-5 * scale), lambda: "after %s, predictions on %s differ from a refit by %s" %
                            (hist, nm, np.abs(a - b).max()))
                require(f.step == step and (not clf or f.dirichlet == diri), "the new value is not stored")
                for i in range(min(2, len(f.trees))):
                    ta, tb = T(f, i), T(g, i)
                    require(np.allclose(ta.y_pred, tb.y_pred, rtol=1e-4, atol=1e-6), "node predictions differ from a refit after %s" % hist)
                    if f.aggregation:
                        for fld in ("loss_valid", "log_weight_tree"):
                            require(np.allclose(ta.nodes[fld], tb.nodes[fld], rtol=1e-3, atol=1e-4), "%s differs from a refit "
                                    "after %s" % (fld, hist))
    names = [n for n, s in SCENARIOS if "big" not in n]
    over(rec, tier, seed, only, body, names=names)

    def extra():
        """setting back and forth; interleaved with pickling and predictions"""
        rng = np.random.RandomState(seed)
        for kind in ("clf", "reg"):
            X, y = make_data(rng, 150, kind=kind, n_classes=2)
            f = fit(kind, X, y, None, categorical_features=[3], n_estimators=3, n_jobs=2)
            p0 = pred(f, X)
            f.step = 7.0
            p1 = pred(f, X)
            f = pickle.loads(pickle.dumps(f))
            require(np.allclose(p1, pred(f, X)), "after pickling")
            f.step = 1.0
            require(np.allclose(p0, pred(f, X), rtol=1e-4, atol=1e-5), "setting step back does not give the predictions back")
            if kind == "clf":
                f.dirichlet = 3.0
                f.step = 0.2
                f.dirichlet = 0.5
                f.step = 1.0
                require(np.allclose(p0, pred(f, X), rtol=1e-4, atol=1e-5), "a cycle of assignments changes the predictions")
            rec.checks += 1
    rec.run("cycles", extra)


# ================================================================== C15
def same_core(a, b, what):
    A, B = core_arrays(a), core_arrays(b)
    require(len(A) == len(B), what + ": different numbers of trees")
    for i, (x, z) in enumerate(zip(A, B)):
        require(x[0].shape == z[0].shape, what + ": tree %d has different numbers of nodes" % i)
        for fld in x[0].dtype.names:
            if fld == "is_left":                     # never written by the code
                continue
            u, v = x[0][fld], z[0][fld]
            ok = np.array_equal(u, v, equal_nan=True) if u.dtype.kind == "f" else np.array_equal(u, v)
            require(ok, what + ": tree %d differs in %s" % (i, fld))
        require(np.array_equal(x[1], z[1]), what + ": tree %d has different node predictions" % i)
        require(np.array_equal(x[2], z[2]), what + ": tree %d has different category sets" % i)


def run_C15(rec, tier, seed, only):
    def pred(f, D):
        return f.predict_proba(D) if hasattr(f, "predict_proba") else f.predict(D)

    def body(sc, X, y, sw, f, rng):
        is_cat = np.array([c.startswith("k") for c in X.columns])
        kw = dict(sc["fit"])
        kw["categorical_features"] = is_cat
        kw["n_estimators"] = max(3, kw.get("n_estimators", 2))
        Z = new_rows(rng, X, 60)
        d0 = [digest(v) for v in (X, y, Z) + (() if sw is None else (sw,))]
        fs = []
        for jobs in (1, 4, 1, -1):
            kw["n_jobs"] = jobs
            fs.append(fit(sc["kind"], X, y, sw, **kw))
        p = [pred(g, Z) for g in fs]
        for g, q in zip(fs[1:], p[1:]):
            same_core(fs[0], g, "two fits with the same seed")
            require(np.allclose(p[0], q, rtol=1e-12, atol=1e-12), "predictions depend on n_jobs")
        before = core_arrays(fs[1])
        for _ in range(2):
            q = pred(fs[1], Z)
            fs[1].apply(Z)
            fs[1].predict(X)
            require(np.allclose(q, p[1], rtol=1e-12, atol=1e-12), "predicting twice differs")
        after = core_arrays(fs[1])
        for i, (a, b) in enumerate(zip(before, after)):
            require(all(np.array_equal(u.view(np.uint8) if u.dtype.names else u, v.view(np.uint8) if v.dtype.names else v)
                        for u, v in zip(a, b)), "predicting changed tree %d" % i)
        require(d0 == [digest(v) for v in (X, y, Z) + (() if sw is None else (sw,))], "fit or predict modified its inputs")
    names = [n for n, s in SCENARIOS if "big" not in n and "tiny" not in n]
    over(rec, tier, seed, only, body, names=names, n_random=nrand(tier) // 2)

    def inputs(kind):
        """input types: arrays of several dtypes, read-only arrays, frames, object arrays, weights of several dtypes"""
        rng = np.random.RandomState(seed)
        n = 80
        base = rng.randint(0, 30, size=(n, 3))
        y = rng.randint(0, 3, n) if kind == "clf" else rng.randint(0, 9, n) / 2.0
        for dt in (np.float64, np.float32, np.int64, np.uint8, object):
            for wdt in (np.float32, np.float64, np.int64):
                A = base.astype(dt)
                if dt in (np.float64, np.float32):
                    A[3, 1] = np.nan
                w = rng.choice([1, 2, 3], n).astype(wdt)
                yy = y if kind == "clf" else y * float(rng.choice([1, 3e7, -1e9]))
                yy = yy.astype(np.float32) if rng.rand() < 0.5 else yy
                d0 = [digest(v) for v in (A, yy, w)]
                for v in (A, w):
                    v.setflags(write=bool(rng.randint(2)))
                for kw in (dict(), dict(class_weight="balanced"), dict(multiclass="ovr"), dict(multiclass="ovr", class_weight="balanced")):
                    if kind == "reg" and kw:
                        continue
                    f = fit(kind, A, yy, w, n_estimators=2, **kw)
                    pred(f, A)
                    f.predict(A)
                    f.apply(A)
                    require(d0 == [digest(v) for v in (A, yy, w)], "fit/predict on %s with %s weights and %s modified its "
                            "inputs" % (np.dtype(dt), np.dtype(wdt), kw))
                rec.checks += 1
    rec.run("input-types-clf", inputs, "clf")
    rec.run("input-types-reg", inputs, "reg")

    def subsample(kind):
        rng = np.random.RandomState(seed)
        n = 50200
        X = rng.normal(size=(n, 2))
        y = (X[:, 0] > 0).astype(int) if kind == "clf" else np.round(X[:, 0])
        fs = [fit(kind, X, y, None, n_estimators=2, subsample=50000, max_depth=4, n_jobs=j, categorical_features=[False, False]) for j in (1, 2)]
        same_core(fs[0], fs[1], "two fits with subsampled binning")
    rec.run("subsample-clf", subsample, "clf")
    rec.run("subsample-reg", subsample, "reg")

    def schedule(kind):
        rng = np.random.RandomState(seed)
        n = 400
        X, y = make_data(rng, n, kind=kind, d_num=4, d_cat=2, n_cats=12, n_classes=3)
        ref = None
        for rep in range(3 if tier == "quick" else 30):
            for jobs in (8, 2):
                f = fit(kind, X, y, None, n_estimators=24, n_jobs=jobs, categorical_features=[4, 5], max_features=2,
                        **(dict(cat_split_strategy="random") if kind == "clf" else {}))
                q = pred(f, X)
                if ref is None:
                    ref = (f, q)
                else:
                    same_core(ref[0], f, "24 trees on %d threads" % jobs)
                    require(np.allclose(ref[1], q, rtol=1e-12, atol=1e-12), "predictions depend on the schedule")
        rec.checks += 1
    rec.run("schedule-clf", schedule, "clf")
    rec.run("schedule-reg", schedule, "reg")


# ================================================================== C16
def run_C16(rec, tier, seed, only):
    def pred(f, D):
        return f.predict_proba(D) if hasattr(f, "predict_proba") else f.predict(D)

    def same(f, g, X, Z, what):
        require(type(f) is type(g), what + ": type")
        pa, pb = f.get_params(), g.get_params()
        for k in pa:
            a, b = pa[k], pb[k]
            require(np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object)) if isinstance(a, np.ndarray)
                    else a == b, what + ": parameter %s is %s, was %s" % (k, b, a))
        for i, (u, v) in enumerate(zip(f.trees, g.trees)):
            pa, pb = u.get_params(), v.get_params()
            for k in pa:
                require(repr(pa[k]) == repr(pb[k]), what + ": tree parameter %s" % k)
        same_core(f, g, what)
        for D in (X, Z):
            require(np.array_equal(pred(f, D), pred(g, D)), what + ": predictions differ")
            require(np.array_equal(f.predict(D), g.predict(D)), what + ": predictions differ")
            require(np.array_equal(f.apply(D), g.apply(D)), what + ": leaves differ")
        for i in range(len(f.trees)):
            a, b = T(f, i), T(g, i)
            if a.ctx is not None:
                for fld in ("ptrain", "pvalid", "y", "w", "bins"):
                    require(np.array_equal(getattr(a, fld), getattr(b, fld)), what + ": %s differs" % fld)
                spec = internal("wildwood._tree_context", "tree_classifier_context_type" if a.clf else "tree_regressor_context_type")
                for nm, _ in spec:
                    u, v = iget(a.ctx, nm), iget(b.ctx, nm)
                    if nm == "features_bitarray" or nm in ("left_buffer", "right_buffer"):
                        continue
                    require(np.array_equal(np.asarray(u), np.asarray(v)), what + ": context field %s is %s, was %s" % (nm, v, u))
        if hasattr(f, "classes_"):
            require(np.array_equal(f.classes_, g.classes_), what + ": classes_")
        require(f.n_features_in_ == g.n_features_in_ and f.n_samples_in_ == g.n_samples_in_, what + ": n_*_in_")
        dfa, dfb = f.get_nodes(0), g.get_nodes(0)
        require(dfa.drop(columns=["is_left"], errors="ignore").equals(dfb.drop(columns=["is_left"], errors="ignore")), what + ": get_nodes()")

    def body(sc, X, y, sw, f, rng):
        Z = new_rows(rng, X, 60)
        clf = sc["kind"] == "clf"
        for proto in (2, pickle.HIGHEST_PROTOCOL):
            g = pickle.loads(pickle.dumps(f, protocol=proto))
            same(f, g, X, Z, "pickled")
        g = pickle.loads(pickle.dumps(g))
        same(f, g, X, Z, "pickled twice")
        for k in range(3):
            val = float(rng.choice([0.2, 0.9, 3.0]))
            f.step = val
            g.step = val
            same(f, g, X, Z, "step set on the original and the copy")
            if clf:
                val = float(rng.choice([0.02, 0.4, 2.0]))
                f.dirichlet = val
                g.dirichlet = val
                same(f, g, X, Z, "dirichlet set on the original and the copy")
            g = pickle.loads(pickle.dumps(g))
            same(f, g, X, Z, "pickled after changes")
        import copy
        same(f, copy.deepcopy(f), X, Z, "deepcopy")
        f.lighten()
        p = pred(f, Z)
        g = pickle.loads(pickle.dumps(f))
        require(np.array_equal(p, pred(g, Z)) and np.array_equal(f.apply(X), g.apply(X)), "pickled after lighten")
        f.step = 0.33
        g.step = 0.33
        require(np.array_equal(pred(f, Z), pred(g, Z)), "step set after lighten and pickling")
    names = [n for n, s in SCENARIOS]
    over(rec, tier, seed, only, body, names=names)


# ================================================================== C17
def run_C17(rec, tier, seed, only):
    rng = np.random.RandomState(seed)

    def direct():
        g = internal("wildwood._utils", "sample_without_replacement")
        for n in list(range(1, 30)) + [64, 100, 257]:
            for k in sorted({1, 2, n // 2, n - 1, n}):
                if not 1 <= k <= n:
                    continue
                pool, out = np.arange(n, dtype=np.uintp), np.arange(k, dtype=np.uintp)
                for rep in range(25):
                    icall(g, pool, out)
                    o = out.astype(int)
                    require(len(set(o.tolist())) == k and o.min() >= 0 and o.max() < n, "sample of %d among %d: %s" % (k, n, o))
                    if rep % 5 == 0:
                        pool[:] = rng.randint(0, n, n)
                rec.checks += 1
    rec.run("sampling", direct)

    def number():
        from wildwood import ForestClassifier, ForestRegressor
        for n in list(range(1, 40)) + [100, 1000, 12345]:
            for mf in [None, "auto", "sqrt", "log2"] + [1, 2, 3, n, n + 1, n - 1] + [1.0, 0.5, 0.01, 0.999, 1e-9, 1 / 3]:
                if isinstance(mf, int) and mf < 1:
                    continue
                try:
                    v = ForestClassifier._get_max_features_(mf, n)
                except ValueError:
                    require(isinstance(mf, int) and mf > n, "max_features=%r with %d columns raises" % (mf, n))
                    continue
                except AttributeError as e:
                    raise Unavailable(str(e))
                require(1 <= v <= n, "max_features=%r with %d columns gives %s" % (mf, n, v))
                require(not (isinstance(mf, int) and mf > n), "max_features=%r accepted with %d columns" % (mf, n))
                if mf is None:
                    require(v == n, "max_features=None with %d columns gives %d" % (n, v))
                if isinstance(mf, int):
                    require(v == mf, "max_features=%r gives %r" % (mf, v))
                rec.checks += 1
    rec.run("number", number)

    def public():
        from wildwood import ForestClassifier, ForestRegressor
        for F in (ForestClassifier, ForestRegressor):
            for d in (1, 2, 3, 5, 9):
                X, y = rng.normal(size=(60, d)), rng.randint(0, 2, 60)
                for mf in (None, "auto", "sqrt", "log2", 1, d, 0.5, 1.0, d + 1):
                    try:
                        f = F(n_estimators=1, max_features=mf, random_state=2).fit(X, y)
                    except ValueError:
                        require(mf == d + 1 and not isinstance(mf, (float, str)), "max_features=%r on %d columns raised" % (mf, d))
                        continue
                    require(not (isinstance(mf, int) and mf > d), "max_features=%r on %d columns accepted" % (mf, d))
                    require(1 <= f.max_features_ <= d, "max_features_ = %s" % f.max_features_)
                    t = T(f, 0)
                    require(np.all(t.nodes["feature"][~t.nodes["is_leaf"]] < d), "split on a column that does not exist")
                    require(int(iget(t.ctx, "max_features")) == f.max_features_, "the tree uses another number of candidates")
                rec.checks += 1
    rec.run("public", public)

    def nodes(kind):
        nm = "classifier" if kind == "clf" else "regressor"
        comp = internal("wildwood._node", "compute_node_%s_context" % nm)
        for rep in range(40 if tier == "quick" else 600):
            d = int(rng.choice([1, 2, 3, 7, 20, 64]))
            mf = int(rng.randint(1, d + 1))
            n = 30
            s = kernel_setup(rng, kind, n, d, [3] * d, np.zeros(d, dtype=bool), max_features=mf)
            ctx, node = s["ctx"], s["node"]
            seen = set()
            for k in range(12):
                icall(comp, ctx, node, 0, s["tr"].size, 0, s["va"].size)
                o = np.array(node.features_sampled).astype(int)
                require(o.size == mf and len(set(o.tolist())) == mf and o.min() >= 0 and o.max() < d,
                        "%d candidates among %d columns: %s" % (mf, d, o))
                if mf == d:
                    require(sorted(o.tolist()) == list(range(d)), "not all columns are candidates")
                seen |= set(o.tolist())
            rec.checks += 1
    rec.run("nodes-clf", nodes, "clf")
    rec.run("nodes-reg", nodes, "reg")

    def constant(kind):
        """all columns but one are constant: with max_features = number of columns the informative one is always found"""
        for d in (3, 6, 11):
            for j in range(d):
                X = np.zeros((80, d))
                X[:, j] = np.arange(80)
                y = (np.arange(80) >= 40).astype(int)
                f = fit(kind, X, y, None, n_estimators=2, max_features=None, categorical_features=np.zeros(d, dtype=bool))
                for t in trees_of(f):
                    require(t.nc > 1 and int(t.nodes[0]["feature"]) == j, "column %d of %d is not a candidate" % (j, d))
        rec.checks += 1
    rec.run("all-columns-clf", constant, "clf")
    rec.run("all-columns-reg", constant, "reg")


# ================================================================== C18
def run_C18(rec, tier, seed, only):
    from wildwood import ForestClassifier, ForestRegressor
    from wildwood.preprocessing import Encoder
    rng = np.random.RandomState(seed)
    junk = [None, "x", "", [], {}, (1,), object(), 1 + 2j, b"a", np.array([1, 2]), {"a"}]

    def ints(lo, extra=()):
        good = [lo, lo + 1, lo + 7, 1000, 10 ** 6] + list(extra)
        bad = [lo - 1, lo - 2, -1, -5, -10 ** 9, 1.5, 3.0, float("nan"), float("inf"), "3"] + [j for j in junk if j is not None]
        return good, [b for b in bad if not any(type(b) is type(g) and b == g for g in good)]

    table = []
    for F in (ForestClassifier, ForestRegressor):
        g, b = ints(1)
        table.append((F, "n_estimators", g, b + [None]))
        table.append((F, "step", [0.5, 1.0, 1e-9, 100.0], [0.0, -1.0, -1e-12, float("nan"), 1, "1", None] + junk))
        table.append((F, "aggregation", [True, False], [0, 1, "True", None, 1.0] + junk))
        g, b = ints(2)
        table.append((F, "max_depth", g + [None], [x for x in b if x is not None] + [1, 0]))
        table.append((F, "min_samples_split", g, b + [None, 1]))
        g, b = ints(1)
        table.append((F, "min_samples_leaf", g, b + [None, 0]))
        g, b = ints(3)
        table.append((F, "max_bins", g, b + [None, 2]))
        table.append((F, "max_features", [None, "sqrt", "log2", "auto", 1, 2, 50, 1.0, 0.5, 1e-6],
                      [0, -1, 1.0001, 0.0, -0.5, 2.0, float("nan"), "SQRT", "foo", "", [], (1,), object(), {}]))
        table.append((F, "n_jobs", [1, 2, -1, 8], [0, -2, -3, 1.0, "1", None, []]))
        table.append((F, "random_state", [None, 0, 1, 42, 2 ** 31], [-1, -10, 1.5, "a", [], (1,)]))
        table.append((F, "verbose", [True, False], [0, 1, "yes", None, []]))
        table.append((F, "loss", ["log"] if F is ForestClassifier else ["mse"], ["foo", "LOG", "", 1, None, [], "mse" if F is ForestClassifier else "log"]))
        table.append((F, "criterion", ["gini", "entropy"] if F is ForestClassifier else ["mse"],
                      ["foo", "", 1, None, [], "Gini", "mse" if F is ForestClassifier else "gini"]))
    table.append((ForestClassifier, "dirichlet", [0.0, 1e-7, 0.5, 10.0], [-0.1, -1e-12, float("nan"), 1, "1", None, []]))
    table.append((ForestClassifier, "class_weight", [None, "balanced"], ["foo", "", 1, {}, [], 0.5, "Balanced"]))
    table.append((ForestClassifier, "multiclass", ["multinomial", "ovr"], ["foo", "", 1, None, [], "OVR"]))
    table.append((ForestClassifier, "cat_split_strategy", ["binary", "all", "random"], ["foo", "", 1, None, []]))
    table.append((Encoder, "max_bins", [3, 4, 256, 10000], [2, 1, 0, -1, 3.0, "3", None, []]))
    table.append((Encoder, "subsample", [None, 50000, 50001, 200000, 10 ** 7], [49999, 1, 0, -1, "a", [], {}]))
    table.append((Encoder, "handle_unknown", ["error", "consider_missing"], ["foo", "", 1, None]))
    table.append((Encoder, "cat_min_categories", ["log", "sqrt", 4, 5, 100], [3, 2, 0, -1, "foo", "", None, 4.5, [], 3.0]))

    def same(a, b):
        return a is b or (type(a) is type(b) and a == b)

    def one(F, name, good, bad):
        for v in good:
            o = F(**{name: v})
            require(same(getattr(o, name), v), "%s(%s=%r) stores %r" % (F.__name__, name, v, getattr(o, name)))
            o = F()
            setattr(o, name, v)
            require(same(getattr(o, name), v), "%s.%s = %r stores %r" % (F.__name__, name, v, getattr(o, name)))
            for b in bad:
                try:
                    setattr(o, name, b)
                except Exception:
                    require(same(getattr(o, name), v), "%s.%s = %r raises but replaces %r by %r" %
                            (F.__name__, name, b, v, getattr(o, name)))
                    continue
                fail("%s.%s = %r is accepted" % (F.__name__, name, b))
        for b in bad:
            try:
                F(**{name: b})
            except Exception:
                continue
            fail("%s(%s=%r) is accepted" % (F.__name__, name, b))
        rec.checks += 1
    for F, name, good, bad in table:
        rec.run("%s.%s" % (F.__name__, name), one, F, name, good, bad)

    def combined():
        """many parameters at once: each is stored unchanged"""
        for F in (ForestClassifier, ForestRegressor):
            t = [(n, g) for C, n, g, b in table if C is F]
            for rep in range(300):
                kw = {n: g[rng.randint(len(g))] for n, g in t if rng.rand() < 0.7}
                o = F(**kw)
                for n, v in kw.items():
                    require(same(getattr(o, n), v), "%s(%s): %s is %r" % (F.__name__, kw, n, getattr(o, n)))
                p = o.get_params()
                for n, v in kw.items():
                    require(same(p[n], v), "get_params()[%r] is %r, given %r" % (n, p[n], v))
        t = [(n, g) for C, n, g, b in table if C is Encoder]
        for rep in range(200):
            kw = {n: g[rng.randint(len(g))] for n, g in t if rng.rand() < 0.7}
            o = Encoder(**kw)
            for n, v in kw.items():
                require(same(getattr(o, n), v), "Encoder(%s): %s is %r" % (kw, n, getattr(o, n)))
        rec.checks += 1
    rec.run("combined", combined)

    def fixed():
        X, y = rng.normal(size=(40, 2)), np.arange(40) % 3
        for F in (ForestClassifier, ForestRegressor):
            f = F(n_estimators=2, random_state=3).fit(X, y)
            frozen = [("n_estimators", [2, 3, 5]), ("random_state", [3, 4, None])]
            if F is ForestClassifier:
                frozen += [("multiclass", ["ovr", "multinomial"]), ("cat_split_strategy", ["all", "binary"]),
                           ("classes_", [1, np.arange(3)]), ("n_classes_", [2, 3])]
            for n, vals in frozen:
                for v in vals:
                    old = getattr(f, n)
                    try:
                        setattr(f, n, v)
                    except Exception:
                        require(np.array_equal(np.asarray(getattr(f, n), dtype=object), np.asarray(old, dtype=object)), "%s changed" % n)
                        continue
                    fail("%s.%s can be set to %r after fit" % (F.__name__, n, v))
            # rejected post-fit values leave everything as it was
            p0 = f.predict(X)
            for n, bads in (("step", [0.0, -1.0, float("nan"), 1, "a", None]),) + ((("dirichlet", [-1.0, float("nan"), 1, None, "a"]),) if F is ForestClassifier else ()):
                for b in bads:
                    try:
                        setattr(f, n, b)
                    except Exception:
                        continue
                    fail("%s.%s = %r accepted after fit" % (F.__name__, n, b))
            require(np.array_equal(p0, f.predict(X)), "a rejected value changed the predictions")
            g = F()
            for n in ("n_features_in_", "n_samples_in_"):
                try:
                    getattr(g, n)
                except Exception:
                    continue
                fail("%s readable before fit" % n)
        try:
            ForestClassifier(dirichlet=0.0, aggregation=True).fit(X, y)
        except ValueError:
            pass
        else:
            fail("dirichlet=0 with aggregation accepted by fit")
        ForestClassifier(dirichlet=0.0, aggregation=False, n_estimators=1).fit(X, y)
        rec.checks += 1
    rec.run("after-fit", fixed)


# ================================================================== C19
def run_C19(rec, tier, seed, only):
    """Runs with the compiler's bounds checks enabled (NUMBA_BOUNDSCHECK=1 in the environment)."""
    def body(sc, X, y, sw, f, rng):
        Z = new_rows(rng, X)
        f.apply(Z)
        f.predict(Z)
        f.step = 0.7
        if sc["kind"] == "clf":
            f.dirichlet = 0.9
        for t in trees_of(f, 3):
            audit_structure(t)
            require(int(iget(t.core, "node_count")) <= int(iget(t.core, "capacity")), "more nodes than capacity")
            require(int(iget(t.core, "bin_partitions_end")) <= np.array(iget(t.core, "bin_partitions")).size, "category storage overrun")
            audit_stats(t, f.dirichlet if t.clf else None, max_nodes=100, rng=rng)
            got = f.apply(Z)[t.idx].astype(np.int64)
            from wildwood.preprocessing import features_bitarray_to_array
            require(np.array_equal(got, t.route(features_bitarray_to_array(f._encoder.transform(Z)).astype(np.int64))), "routing")
            for k in np.flatnonzero(t.nodes["is_split_categorical"] & ~t.nodes["is_leaf"])[:200]:
                a, b = int(t.nodes[k]["bin_partition_start"]), int(t.nodes[k]["bin_partition_end"])
                p = t.parts[a:b].astype(np.int64)
                require(p.size > 0 and np.all(np.diff(p) > 0), "category set of node %d was overwritten: %s" % (k, p))
    over(rec, tier, seed, only, body)

    def resizes():
        resize = internal("wildwood._utils", "resize")
        rng = np.random.RandomState(seed)
        for dt in (np.float32, np.uint64):
            for shape in ((0,), (1,), (5,), (0, 3), (4, 3), (2, 3, 2)):
                a = rng.randint(0, 9, size=shape).astype(dt)
                for extra in (0, 1, 7):
                    for z in (True, False):
                        b = icall(resize, a, shape[0] + extra, z)
                        require(b.shape == (shape[0] + extra,) + shape[1:], "resize shape")
                        require(np.array_equal(b[:shape[0]], a), "resize loses contents")
                        require(not z or not b[shape[0]:].any(), "resize with zeros=True leaves other values")
        rec.checks += 1
    rec.run("resize", resizes)

    def stack():
        Records, push, pop, has = internal("wildwood._grow", "Records", "push_record", "pop_node_record", "has_records")
        rng = np.random.RandomState(seed)
        r = icall(Records, 10)
        model = []
        for k in range(3000):
            if model and rng.rand() < 0.35:
                got = tuple(float(v) for v in icall(pop, r))
                require(got == model.pop(), "the work stack returns %s" % (got,))
            else:
                v = (int(rng.randint(-2, 100)), int(rng.randint(50)), bool(rng.randint(2)), float(rng.randint(9)) / 4,
                     *[int(x) for x in rng.randint(0, 10 ** 6, 4)])
                icall(push, r, *v)
                model.append(tuple(float(x) for x in v))
            require(bool(icall(has, r)) == (len(model) > 0), "has_records")
        rec.checks += 1
    rec.run("stack", stack)

    def bitarrays():
        run_C01(rec, "quick", seed, only)
    if tier == "thorough":
        bitarrays()

    def chain(kind):
        n = 3000
        X = np.arange(n, dtype=np.float64).reshape(-1, 1)
        y = np.arange(n) % 2 if kind == "clf" else ((np.arange(n) * 7919) % 101) / 4.0
        f = fit(kind, X, y, None, n_estimators=1, aggregation=False, max_bins=n + 5, max_features=None, categorical_features=[False])
        for t in trees_of(f):
            audit_structure(t)
            require(t.nc > 2047, "only %d nodes" % t.nc)
        f = fit(kind, X.astype(str).astype(object), y, None, n_estimators=1, aggregation=False, max_features=None, categorical_features=[True])
        for t in trees_of(f):
            audit_structure(t)
    def one_class():
        from wildwood import ForestClassifier
        rng = np.random.RandomState(seed)
        n = 60
        X = pd.DataFrame({"a": pd.Series(rng.choice(list("abcdef"), n), dtype="category"), "b": rng.randn(n)})
        for strat in ("binary", "all", "random"):
            for crit in ("gini", "entropy"):
                f = ForestClassifier(n_estimators=2, random_state=seed, cat_split_strategy=strat, criterion=crit, categorical_features=[True, False])
                f.fit(X, np.zeros(n, int))
                require(np.array_equal(f.predict_proba(X), np.ones((n, 1))), "one-class probabilities are not 1")
                for t in trees_of(f):
                    audit_structure(t)
        rec.checks += 1
    rec.run("one-class", one_class)

    rec.run("chain-clf", chain, "clf")
    rec.run("chain-reg", chain, "reg")
