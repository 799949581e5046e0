"""Audits of fitted trees: each function checks one property on one tree, from the property's statement."""
import numpy as np
from common import *

UNDEF = np.iinfo(np.uintp).max - 1            # intp(-2) stored in an unsigned field


def close(a, b, rtol=2e-4, atol=1e-6):
    return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False)


# ------------------------------------------------------------------ C04
def audit_samples(t, n, w_user):
    ti = np.array(iget(t.tree, "_train_indices")).astype(np.int64)
    vi = np.array(iget(t.tree, "_valid_indices")).astype(np.int64)
    who = "tree %d" % t.idx
    require(ti.size > 0 and vi.size > 0, who + ": empty in-bag or out-of-bag set")
    require(len(np.unique(ti)) == ti.size, who + ": duplicate in-bag sample")
    require(len(np.unique(vi)) == vi.size, who + ": duplicate out-of-bag sample")
    require(np.array_equal(np.sort(np.concatenate([ti, vi])), np.arange(n)),
            who + ": in-bag and out-of-bag samples do not make up the data")
    require(np.array_equal(np.sort(t.ptrain), np.sort(ti)), who + ": partition_train is not the in-bag set")
    require(np.array_equal(np.sort(t.pvalid), np.sort(vi)), who + ": partition_valid is not the out-of-bag set")
    require(close(t.w[vi], w_user[vi], rtol=1e-5), who + ": out-of-bag weights changed")
    pos = w_user[ti] > 0
    mult = t.w[ti][pos] / w_user[ti][pos]
    r = np.round(mult)
    require(np.all(r >= 1) and close(mult, r, rtol=1e-4), lambda: who + ": in-bag weight is not weight x multiplicity: "
            + str(mult[:10]))
    require(np.all(t.w[ti][~pos] == 0), who + ": zero weight became non zero")
    if pos.all():
        require(int(r.sum()) == n, who + ": multiplicities sum to %d, not %d" % (r.sum(), n))
    else:
        require(int(r.sum()) + int((~pos).sum()) <= n, who + ": multiplicities sum to more than n_samples")


# ------------------------------------------------------------------ C05
def audit_partition(t):
    nd = t.nodes
    for k in range(t.nc):
        if nd[k]["is_leaf"]:
            continue
        lc, rc = int(nd[k]["left_child"]), int(nd[k]["right_child"])
        for name, get in (("training", t.tr), ("validation", t.va)):
            left, right, mine = get(lc), get(rc), get(k)
            require(t.rule(k, t.bins[left]).all(), "tree %d node %d: a %s sample of the left child does not satisfy the "
                    "split rule" % (t.idx, k, name))
            require(not t.rule(k, t.bins[right]).any(), "tree %d node %d: a %s sample of the right child satisfies the "
                    "split rule" % (t.idx, k, name))
            require(np.array_equal(np.sort(np.concatenate([left, right])), np.sort(mine)),
                    "tree %d node %d: %s samples lost or duplicated by the split" % (t.idx, k, name))
    ti = np.array(iget(t.tree, "_train_indices")).astype(np.int64)
    vi = np.array(iget(t.tree, "_valid_indices")).astype(np.int64)
    require(np.array_equal(np.sort(t.ptrain), np.sort(ti)), "partition_train is not a permutation of the in-bag samples")
    require(np.array_equal(np.sort(t.pvalid), np.sort(vi)), "partition_valid is not a permutation of the OOB samples")


# ------------------------------------------------------------------ C06
def audit_structure(t):
    nd, nc = t.nodes, t.nc
    who = "tree %d: " % t.idx
    require(nc >= 1, who + "no node")
    require(np.array_equal(nd["node_id"].astype(np.int64), np.arange(nc)), who + "node_id differs from the position")
    r = nd[0]
    require(int(r["parent"]) == UNDEF or int(r["parent"]) >= nc, who + "the root has a parent")
    require(int(r["depth"]) == 0, who + "root depth %d" % r["depth"])
    require((int(r["start_train"]), int(r["end_train"])) == (0, t.ptrain.size), who + "root training range")
    require((int(r["start_valid"]), int(r["end_valid"])) == (0, t.pvalid.size), who + "root validation range")
    seen = np.zeros(nc, dtype=int)
    for k in range(nc):
        x = nd[k]
        st, et, sv, ev = [int(x[f]) for f in ("start_train", "end_train", "start_valid", "end_valid")]
        require(0 <= st <= et <= t.ptrain.size and 0 <= sv <= ev <= t.pvalid.size, who + "node %d range" % k)
        require(int(x["n_samples_train"]) == et - st and int(x["n_samples_valid"]) == ev - sv,
                who + "node %d: counts are not the lengths of the ranges" % k)
        lc, rc = int(x["left_child"]), int(x["right_child"])
        if x["is_leaf"]:
            require(lc < 0 and rc < 0, who + "leaf %d has children %d, %d" % (k, lc, rc))
            continue
        require(0 < lc < nc and 0 < rc < nc and lc != rc, who + "node %d: children %d, %d" % (k, lc, rc))
        seen[lc] += 1
        seen[rc] += 1
        for c in (lc, rc):
            require(int(nd[c]["parent"]) == k, who + "child %d of %d has parent %d" % (c, k, nd[c]["parent"]))
            require(k < c, who + "parent %d is not before its child %d" % (k, c))
            require(int(nd[c]["depth"]) == int(x["depth"]) + 1, who + "depth of node %d" % c)
        for s, e in (("start_train", "end_train"), ("start_valid", "end_valid")):
            require(nd[lc][s] == x[s] and nd[lc][e] == nd[rc][s] and nd[rc][e] == x[e],
                    who + "node %d: the children's %s ranges do not make up its range" % (k, s[6:]))
    require(seen[0] == 0 and np.all(seen[1:] == 1), who + "a non-root node does not have exactly one parent")
    # the public table
    df = t.tree.get_nodes()
    require(len(df) == nc, who + "get_nodes() lists %d of %d nodes" % (len(df), nc))
    for c in ("node_id", "parent", "left_child", "right_child", "is_leaf", "depth", "feature", "bin_threshold",
              "n_samples_train", "n_samples_valid", "start_train", "end_train", "start_valid", "end_valid"):
        if c in df.columns:
            require(np.array_equal(df[c].values.astype(nd[c].dtype), nd[c]), who + "get_nodes() column " + c)
    internal_ = ~nd["is_leaf"]
    require(np.all(nd["feature"][internal_] < t.bins.shape[1]), who + "split on a column that does not exist")


# ------------------------------------------------------------------ C07
def impurity_of(t, idx):
    w = t.w[idx]
    W = w.sum()
    if W <= 0:
        return 0.0
    if t.clf:
        p = np.array([w[t.y[idx] == c].sum() for c in np.unique(t.y[idx])]) / W
        if int(iget(t.ctx, "criterion")) == 1:
            p = p[p > 0]
            return float(-(p * np.log(p)).sum())
        return float(1 - (p ** 2).sum())
    m = (w * t.y[idx]).sum() / W
    return float((w * (t.y[idx] - m) ** 2).sum() / W)


def candidates(t, k, msl, agg, orders):
    """All candidate splits of node k: yields (feature, key, left mask on training samples, admissible, near, counts)."""
    tr, va = t.tr(k), t.va(k)
    is_cat = np.array(iget(t.ctx, "is_categorical")).astype(bool)
    for j in range(t.bins.shape[1]):
        bt, bv = t.bins[tr, j], t.bins[va, j]
        occ = np.unique(bt)
        if occ.size < 2:
            continue
        if is_cat[j]:
            os_ = orders(t, j, tr, bt, occ)
            if os_ is None:
                w = t.w[tr]
                ws = np.array([w[bt == b].sum() for b in occ])
                s = np.array([(w * t.y[tr])[bt == b].sum() for b in occ])
                os_ = [] if np.any(ws <= 0) or np.unique(np.round(s, 4)).size < s.size else [occ[np.argsort(s)]]
            for order in os_:
                for c in range(1, occ.size):
                    s = order[:c]
                    yield j, ("cat", tuple(sorted(int(v) for v in s))), np.isin(bt, s), np.isin(bv, s)
        else:
            for b in occ[:-1]:
                yield j, ("num", int(b)), bt <= b, bv <= b


def no_orders(t, j, tr, bt, occ):
    return []


def admissible(t, k, lt, lv, msl, agg):
    w = t.w[t.tr(k)]
    ok = lt.sum() >= msl and (~lt).sum() >= msl
    if agg:
        ok = ok and lv.sum() >= msl and (~lv).sum() >= msl
    return bool(ok) and w[lt].sum() > 1e-3 and w[~lt].sum() > 1e-3


def audit_limits(t, params, max_nodes=400, rng=None):
    nd = t.nodes
    md, mss, msl, agg = params["max_depth"], params["min_samples_split"], params["min_samples_leaf"], params["aggregation"]
    who = "tree %d: " % t.idx
    if md is not None:
        require(int(nd["depth"].max()) <= md, who + "a node has depth %d > max_depth=%d" % (nd["depth"].max(), md))
    inner = np.flatnonzero(~nd["is_leaf"])
    for k in inner:
        require(nd[k]["n_samples_train"] >= mss, who + "node %d was split with %d < min_samples_split training samples"
                % (k, nd[k]["n_samples_train"]))
        if agg:
            require(nd[k]["n_samples_valid"] >= mss, who + "node %d was split with %d < min_samples_split validation "
                    "samples" % (k, nd[k]["n_samples_valid"]))
        for c in (int(nd[k]["left_child"]), int(nd[k]["right_child"])):
            require(t.tr(c).size >= msl, who + "child %d has %d < min_samples_leaf training samples" % (c, t.tr(c).size))
            if agg:
                require(t.va(c).size >= msl, who + "child %d has %d < min_samples_leaf validation samples" %
                        (c, t.va(c).size))
    if params.get("max_features", "auto") is not None:
        return
    leaves = np.flatnonzero(nd["is_leaf"])
    if leaves.size > max_nodes:
        leaves = rng.choice(leaves, max_nodes, replace=False)
    for k in leaves:
        x = nd[k]
        if md is not None and x["depth"] >= md:
            continue
        if t.tr(k).size < mss or (agg and t.va(k).size < mss):
            continue
        if impurity_of(t, t.tr(k)) < 1e-3:
            continue
        for j, key, lt, lv in candidates(t, k, msl, agg, no_orders):
            if admissible(t, k, lt, lv, msl, agg):
                fail(who + "node %d (depth %d, %d training and %d validation samples) is a leaf although the split %s of "
                     "column %d is admissible and the node is not pure" % (k, x["depth"], t.tr(k).size, t.va(k).size,
                                                                            key, j))


# ------------------------------------------------------------------ C08
def audit_routing(t, forest, X, X_new, apply_X, apply_new):
    from wildwood.preprocessing import features_bitarray_to_array
    nd = t.nodes
    own = np.full(t.bins.shape[0], -1)
    for k in np.flatnonzero(nd["is_leaf"]):
        own[t.tr(k)] = k
        own[t.va(k)] = k
    got = apply_X[t.idx].astype(np.int64)
    bad = np.flatnonzero(own != got)
    require(bad.size == 0, lambda: "tree %d: sample %d was trained in leaf %d but is routed to node %d" %
            (t.idx, bad[0], own[bad[0]], got[bad[0]]))
    bins = features_bitarray_to_array(forest._encoder.transform(X_new)).astype(np.int64)
    want = t.route(bins)
    got = apply_new[t.idx].astype(np.int64)
    bad = np.flatnonzero(want != got)
    require(bad.size == 0, lambda: "tree %d: new row %d must reach leaf %d but is routed to node %d" %
            (t.idx, bad[0], want[bad[0]], got[bad[0]]))
    require(nd["is_leaf"][got].all(), "routing ends in an internal node")


# ------------------------------------------------------------------ C09
def audit_stats(t, dirichlet, max_nodes=1500, rng=None):
    nd = t.nodes
    ks = np.arange(t.nc)
    if ks.size > max_nodes:
        ks = np.concatenate([ks[:100], rng.choice(ks[100:], max_nodes - 100, replace=False)])
    C = t.y_pred.shape[1] if t.clf else 0
    for k in ks:
        k = int(k)
        tr, va, x = t.tr(k), t.va(k), nd[k]
        who = "tree %d node %d: " % (t.idx, k)
        require(int(x["n_samples_train"]) == tr.size and int(x["n_samples_valid"]) == va.size, who + "sample counts")
        W = t.w[tr].sum()
        require(close(x["w_samples_train"], W), who + "training weight %s, the samples say %s" %
                (x["w_samples_train"], W))
        if t.aggregation:
            require(close(x["w_samples_valid"], t.w[va].sum()), who + "validation weight %s, the samples say %s" %
                    (x["w_samples_valid"], t.w[va].sum()))
        if t.clf:
            p = np.array([t.w[tr][t.y[tr] == c].sum() for c in range(C)])
            p = (p + dirichlet) / (W + C * dirichlet)
            require(close(t.y_pred[k], p, rtol=1e-3), lambda: who + "prediction %s, the samples say %s" % (t.y_pred[k], p))
            if t.aggregation:
                L = -(t.w[va] * np.log(p[t.y[va].astype(int)])).sum()
                require(close(x["loss_valid"], L, rtol=1e-3, atol=1e-4), lambda: who + "validation loss %s, expected %s" %
                        (x["loss_valid"], L))
        else:
            if W <= 0:
                continue
            m = (t.w[tr] * t.y[tr]).sum() / W
            sc = np.abs(t.w[tr] * t.y[tr]).sum() / W + 1e-6
            require(abs(t.y_pred[k] - m) <= 1e-3 * sc, who + "prediction %s, the weighted mean is %s" % (t.y_pred[k], m))
            if t.aggregation:
                L = (t.w[va] * (t.y[va] - m) ** 2).sum()
                require(close(x["loss_valid"], L, rtol=2e-3, atol=1e-3), who + "validation loss %s, expected %s" %
                        (x["loss_valid"], L))


# ------------------------------------------------------------------ C10
def gain_terms(t, tr, lt, crit):
    """(w_left * impurity_left + w_right * impurity_right) of a candidate, in float64."""
    tot, imps = 0.0, []
    for m in (lt, ~lt):
        idx = tr[m]
        i = impurity_of(t, idx)
        imps.append(i)
        tot += t.w[idx].sum() * i
    return tot, imps


def orders_oracle(strategy, n_classes, kind):
    def go(t, j, tr, bt, occ):
        w = t.w[tr]
        ws = np.array([w[bt == b].sum() for b in occ])
        if np.any(ws <= 0):
            return []
        if kind == "clf":
            if strategy == "binary":
                cl = [1]
            elif strategy == "all":
                cl = range(n_classes)
            else:
                return []
            out = []
            for c in cl:
                s = np.array([w[(bt == b) & (t.y[tr] == c)].sum() for b in occ]) / ws
                if np.unique(np.round(s, 5)).size < s.size:
                    continue                          # ties: any order of tied bins is fine, skip
                out.append(occ[np.argsort(s)])
            return out
        # regression: the code orders by the sum of the targets, the usual choice is their mean; accept either
        return None
    return go


def audit_best(t, params, strategy, n_classes, max_nodes=60, rng=None):
    if params.get("max_features", "auto") is not None:
        return
    nd = t.nodes
    inner = np.flatnonzero(~nd["is_leaf"])
    if inner.size > max_nodes:
        inner = np.concatenate([inner[:20], rng.choice(inner[20:], max_nodes - 20, replace=False)])
    crit = int(iget(t.ctx, "criterion"))
    kind = "clf" if t.clf else "reg"
    msl, agg = params["min_samples_leaf"], params["aggregation"]
    for k in inner:
        k = int(k)
        tr = t.tr(k)
        lt = t.rule(k, t.bins[tr])
        mine, imps = gain_terms(t, tr, lt, crit)
        scale = t.w[tr].sum() * (max(impurity_of(t, tr), 1e-3) if kind == "clf" else
                                 ((t.w[tr] * t.y[tr] ** 2).sum() / max(t.w[tr].sum(), 1e-9) + 1e-3))
        who = "tree %d node %d: " % (t.idx, k)
        for side, c in ((0, int(nd[k]["left_child"])), (1, int(nd[k]["right_child"]))):
            tol = 2e-3 * (1.0 if kind == "clf" else max(1.0, scale / max(t.w[tr].sum(), 1e-9)))
            require(abs(float(nd[c]["impurity"]) - imps[side]) <= tol, who + "impurity %s reported for child %d, the "
                    "samples say %s" % (nd[c]["impurity"], c, imps[side]))
        best, arg = np.inf, None
        for j, key, l2, v2 in candidates(t, k, msl, agg, orders_oracle(strategy, n_classes, kind)):
            if not admissible(t, k, l2, v2, msl, agg):
                continue
            g, _ = gain_terms(t, tr, l2, crit)
            if g < best:
                best, arg = g, (j, key)
        require(mine <= best + 2e-3 * scale, lambda: who + "the chosen split (column %d) leaves impurity %.6f, candidate "
                "%s leaves %.6f" % (nd[k]["feature"], mine, arg, best))


# ------------------------------------------------------------------ C12
def lse2(a, b):
    m = max(a, b)
    return m + np.log((np.exp(a - m) + np.exp(b - m)) / 2)


def audit_weights(t, step):
    if not t.aggregation:
        return
    nd = t.nodes
    lw = np.zeros(t.nc)
    for k in range(t.nc - 1, -1, -1):
        own = -step * float(nd[k]["loss_valid"])
        if nd[k]["is_leaf"]:
            want = own
        else:
            want = lse2(own, lw[int(nd[k]["left_child"])] + lw[int(nd[k]["right_child"])])
        got = float(nd[k]["log_weight_tree"])
        require(abs(got - want) <= 1e-4 * (1 + abs(want)), "tree %d node %d: log weight %s, the recursion gives %s" %
                (t.idx, k, got, want))
        lw[k] = got


def tree_predictions(t, leaves, step, aggregation):
    nd = t.nodes
    out = []
    for k in leaves:
        k = int(k)
        p = t.y_pred[k].copy() if t.clf else float(t.y_pred[k])
        n = 0
        while aggregation and k != 0:
            k = int(nd[k]["parent"])
            n += 1
            require(n <= t.nc, "a path does not reach the root")
            e = -step * float(nd[k]["loss_valid"]) - float(nd[k]["log_weight_tree"])
            a = 0.5 * np.exp(e)
            p = a * t.y_pred[k] + (1 - a) * p
        out.append(p)
    return np.array(out)


def audit_predictions(t, forest, X, step, limit=400):
    fb = forest._encoder.transform(X)
    from wildwood.preprocessing import features_bitarray_to_array
    bins = features_bitarray_to_array(fb).astype(np.int64)
    leaves = t.route(bins)
    rows = np.arange(bins.shape[0])[:limit]
    want = tree_predictions(t, leaves[rows], step, forest.aggregation)
    got = (t.tree.predict_proba(fb) if t.clf else t.tree.predict(fb))[rows].astype(np.float64)
    sc = 1.0 if t.clf else np.abs(t.y).max() + 1e-3
    d = np.abs(got - want)
    if d.ndim > 1:
        d = d.max(axis=1)
    # float32 log weights of large magnitude carry an absolute error, which alpha inherits
    mag = np.abs(t.nodes["log_weight_tree"][~t.nodes["is_leaf"]]).max() if (~t.nodes["is_leaf"]).any() and forest.aggregation else 0
    tol = sc * (1e-4 + 3e-6 * mag)
    bad = np.flatnonzero(~(d <= tol))
    require(bad.size == 0, lambda: "tree %d: prediction %s for row %d, the recursion gives %s" %
            (t.idx, got[bad[0]], bad[0], want[bad[0]]))
    if not t.clf and forest.aggregation and hasattr(t.tree, "weighted_depth"):
        wd = t.tree.weighted_depth(fb)[rows]
        for r in rows[:60]:
            k = int(leaves[r])
            p = float(t.nodes[k]["depth"])
            while k != 0:
                k = int(t.nodes[k]["parent"])
                a = 0.5 * np.exp(-step * float(t.nodes[k]["loss_valid"]) - float(t.nodes[k]["log_weight_tree"]))
                p = a * float(t.nodes[k]["depth"]) + (1 - a) * p
            require(abs(p - float(wd[r])) <= 1e-3 * (1 + abs(p)) + 3e-5 * mag, "weighted depth %s of row %d, expected %s" %
                    (wd[r], r, p))
