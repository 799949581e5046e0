"""Per-node statistics (histograms, predictions, validation loss) and the contexts that hold them."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

_NT, _NV, _WT, _WV = "n_samples_train_in_bins", "n_samples_valid_in_bins", "w_samples_train_in_bins", "w_samples_valid_in_bins"
_NET, _NEV = "non_empty_bins_train", "non_empty_bins_valid"
_NETC, _NEVC = "non_empty_bins_train_count", "non_empty_bins_valid_count"

# every bin met in the data has a slot in the histograms
define("bins_ok", ["tc"],
       "all(trig(implies(0 <= j and j < tc.n_features and 0 <= i and i < tc.n_samples,"
       " 0 <= xb(fbcol(tc.features_bitarray, j), i) and xb(fbcol(tc.features_bitarray, j), i) < tc.max_n_bins),"
       " xb(fbcol(tc.features_bitarray, j), i)) for i in Int for j in Int)")
define("weights_ok", ["tc"], "all(trig(tc.sample_weights[i] >= 0, tc.sample_weights[i]) for i in range(tc.n_samples))")
define("labels_ok", ["tc"], "all(trig(0 <= tc.y[i] and toint(tc.y[i]) < tc.n_classes, tc.y[i]) for i in range(tc.n_samples))")
# the features a node looks at are distinct existing features
define("feats_ok", ["a", "n"], "all(trig(0 <= a[p] and a[p] < n, a[p]) for p in range(len(a)))"
       " and all(trig(implies(p < q, a[p] != a[q]), a[p], a[q]) for p in range(len(a)) for q in range(len(a)))")
_shapes = " and ".join(f"nc.{x}.shape[0] == tc.max_features and nc.{x}.shape[1] == tc.max_n_bins" for x in (_NT, _NV, _WT, _WV, _NET, _NEV))
define("nc_ok", ["nc", "tc"],
       "1 <= tc.max_features and tc.max_features <= tc.n_features and nc.max_n_bins == tc.max_n_bins"
       " and tc.max_n_bins <= 281474976710656 and len(nc.features_sampled) == tc.max_features and len(nc.features_pool) == tc.n_features"
       f" and feats_ok(nc.features_sampled, tc.n_features) and len(nc.{_NETC}) == tc.max_features and len(nc.{_NEVC}) == tc.max_features"
       f" and {_shapes}")
define("nc_clf_ok", ["nc", "tc"],
       "nc_ok(nc, tc) and nc.y_sum.shape[0] == tc.max_features and nc.y_sum.shape[1] == tc.max_n_bins and nc.y_sum.shape[2] == tc.n_classes"
       " and len(nc.y_pred) == tc.n_classes")
define("nc_reg_ok", ["nc", "tc"],
       "nc_ok(nc, tc) and nc.y_sum.shape[0] == tc.max_features and nc.y_sum.shape[1] == tc.max_n_bins"
       " and nc.y_sq_sum.shape[0] == tc.max_features and nc.y_sq_sum.shape[1] == tc.max_n_bins")


def _col(pfx, p):
    return f"fbcol({pfx}features_bitarray, {p})"


class Side:
    """the histogram statements about one side (train / valid)"""

    def __init__(self, clf, train):
        self.clf, self.train = clf, train
        self.P, self.s, self.e = ("partition_train", "start_train", "end_train") if train else ("partition_valid", "start_valid", "end_valid")
        self.n, self.w, self.ne, self.nec = (_NT, _WT, _NET, _NETC) if train else (_NV, _WV, _NEV, _NEVC)

    def tables(self):
        """(array, extra index variables, sum expression with {c} the column, {hi} the upper bound)"""
        P, s = self.P, self.s
        out = [(self.n, "", "CNT({c}, %s, b, %s, {hi})" % (P, s)), (self.w, "", "WCNT({c}, %s, sample_weights, b, %s, {hi})" % (P, s))]
        if self.train and self.clf:
            out.append(("y_sum", "l", "YCNT({c}, %s, sample_weights, y, b, l, %s, {hi})" % (P, s)))
        if self.train and not self.clf:
            out.append(("y_sum", "", "YB({c}, %s, sample_weights, y, b, %s, {hi})" % (P, s)))
            out.append(("y_sq_sum", "", "Y2B({c}, %s, sample_weights, y, b, %s, {hi})" % (P, s)))
        return out

    def rows(self, cond, hi):
        """cell values of the rows p satisfying cond: the sums up to hi"""
        out = []
        for a, x, sm in self.tables():
            v, d = ("b, l", " for b in range(max_n_bins) for l in range(n_classes)") if x else ("b", " for b in range(max_n_bins)")
            body = sm.format(c=_col("", "features[p]"), hi=hi) if hi else "0"
            out.append(f"all(trig(implies({cond}, {a}[p, {v}] == {body}), {a}[p, {v}]) for p in range(max_features){d})")
        return out

    def lists(self, post=False):
        n, ne, nec = self.n, self.ne, self.nec
        bound = [f"all(trig({nec}[p] <= max_n_bins, {nec}[p]) for p in range(max_features))"] if post else []
        return bound + [f"all(trig({nec}[p] == NZ({n}[p], 0, max_n_bins), {nec}[p]) for p in range(max_features))",
                f"all(trig({ne}[p, q] < max_n_bins and {n}[p, {ne}[p, q]] > 0, {ne}[p, q]) for p in range(max_features) for q in range({nec}[p]))",
                f"all(trig(implies(q < r, {ne}[p, q] != {ne}[p, r]), {ne}[p, q], {ne}[p, r]) for p in range(max_features)"
                f" for q in range({nec}[p]) for r in range({nec}[p]))",
                f"all(trig(implies({n}[p, b] > 0, inb({ne}[p], 0, {nec}[p], b)), {n}[p, b]) for p in range(max_features) for b in range(max_n_bins))"]

    def steps(self, j, f):
        """definitional unfoldings for sample number n of the current row"""
        hi = f"{self.s} + (n + 1)"
        out = []
        for a, x, sm in self.tables():
            t = sm.format(c=_col("", j), hi=hi)
            out.append(f"all(trig(unfold({t}), {t}) for b in Int" + (" for l in Int)" if x else ")"))
        bin_ = f"xb({_col('', j)}, {self.P}[{self.s} + n])"
        out.append(f"L_nz_set({self.n}[{f}], {bin_}, {self.n}[{f}, {bin_}] + 1, max_n_bins)")
        return out


# ---- the histograms summed over lists of bins
define("dlist", ["O", "m", "B"],
       "0 <= m and all(trig(0 <= O[p] and O[p] < B, O[p]) for p in range(m))"
       " and all(trig(implies(p < q, O[p] != O[q]), O[p], O[q]) for p in range(m) for q in range(m))")
define("covers", ["h", "O", "m", "B"], "all(trig(implies(h[b] > 0, inb(O, 0, m, b)), inb(O, 0, m, b)) for b in range(B))")
_PL = "for p in range(tc.max_features) for O in List for m in Int)"
_cp = "fbcol(tc.features_bitarray, nc.features_sampled[p])"
# every list of bins without repetition: never more samples than in the node, all of them when the list covers the node's bins
define("tot_ok", ["nc", "tc"],
       f"all(trig(implies(dlist(O, m, tc.max_n_bins) and covers(nc.{_NT}[p], O, m, tc.max_n_bins), PSUMI(nc.{_NT}[p], O, 0, m) == nc.n_samples_train), PSUMI(nc.{_NT}[p], O, 0, m)) {_PL}"
       f" and all(trig(implies(dlist(O, m, tc.max_n_bins), PSUMI(nc.{_NV}[p], O, 0, m) <= nc.n_samples_valid), PSUMI(nc.{_NV}[p], O, 0, m)) {_PL}")
# empty bins carry no weight
define("zero_clf", ["nc", "tc"],
       f"all(trig(implies(nc.{_NT}[p, b] == 0, nc.{_WT}[p, b] == 0), nc.{_WT}[p, b]) for p in range(tc.max_features) for b in range(tc.max_n_bins))"
       f" and all(trig(implies(nc.{_NT}[p, b] == 0, nc.y_sum[p, b, l] == 0), nc.y_sum[p, b, l]) for p in range(tc.max_features) for b in range(tc.max_n_bins) for l in range(tc.n_classes))")
define("zero_reg", ["nc", "tc"], " and ".join(
       f"all(trig(implies(nc.{_NT}[p, b] == 0, nc.{y}[p, b] == 0), nc.{y}[p, b]) for p in range(tc.max_features) for b in range(tc.max_n_bins))" for y in (_WT, "y_sum", "y_sq_sum")))
# sums over a list of bins are sums over the samples whose bin is in the list; s..e: the node's sample range
define("bysample", ["nc", "tc", "s", "e", "sv", "ev"],
       f"all(trig(implies(dlist(O, m, tc.max_n_bins), PSUMI(nc.{_NT}[p], O, 0, m) == CNTIN({_cp}, tc.partition_train, O, 0, m, s, e)), PSUMI(nc.{_NT}[p], O, 0, m)) {_PL}"
       f" and all(trig(implies(dlist(O, m, tc.max_n_bins), PSUMR(nc.{_WT}[p], O, 0, m) == WIN({_cp}, tc.partition_train, tc.sample_weights, O, 0, m, s, e)), PSUMR(nc.{_WT}[p], O, 0, m)) {_PL}"
       f" and all(trig(implies(tc.aggregation and dlist(O, m, tc.max_n_bins), PSUMI(nc.{_NV}[p], O, 0, m) == CNTIN({_cp}, tc.partition_valid, O, 0, m, sv, ev)), PSUMI(nc.{_NV}[p], O, 0, m)) {_PL}")


def _listfacts(clf):
    tc, nc = "tree_context", "node_context"
    c = "fbcol(tree_context.features_bitarray, node_context.features_sampled[p])"
    PT, PV, W = f"{tc}.partition_train", f"{tc}.partition_valid", f"{tc}.sample_weights"
    R, Q = f"for p in range({tc}.max_features) for O in List for m in Int)", f"for p in range({tc}.max_features) for b in range({tc}.max_n_bins)"
    st, sv = "start_train, end_train", "start_valid, end_valid"
    out = [f"all(trig(L_x_PSUMI_PCNT({nc}.{_NT}[p], O, {c}, {PT}, O, {st}, 0, 0, m) and L_PCNT_CNTIN({c}, {PT}, O, m, {st}) and L_cntin_all({c}, {PT}, O, 0, m, {st}), PSUMI({nc}.{_NT}[p], O, 0, m)) {R}",
           f"all(trig(L_zero_PSUMI({nc}.{_NV}[p], O, 0, m) and L_x_PSUMI_PCNT({nc}.{_NV}[p], O, {c}, {PV}, O, {sv}, 0, 0, m) and L_PCNT_CNTIN({c}, {PV}, O, m, {sv}) and L_cntin_all({c}, {PV}, O, 0, m, {sv}), PSUMI({nc}.{_NV}[p], O, 0, m)) {R}",
           f"all(trig(L_x_PSUMR_PWCNT({nc}.{_WT}[p], O, {c}, {PT}, {W}, O, {st}, 0, 0, m) and L_PWCNT_WIN({c}, {PT}, {W}, O, m, {st}), PSUMR({nc}.{_WT}[p], O, 0, m)) {R}",
           f"all(trig(L_cnt_pos({c}, {PT}, xb({c}, {PT}[k]), k, {st}), xb({c}, {PT}[k])) for p in range({tc}.max_features) for k in Int)",
           f"all(trig(L_cnt0_WCNT({c}, {PT}, {W}, b, {st}), {nc}.{_WT}[p, b]) {Q})"]
    if clf:
        out.append(f"all(trig(L_cnt0_YCNT({c}, {PT}, {W}, {tc}.y, b, l, {st}), {nc}.y_sum[p, b, l]) {Q} for l in range({tc}.n_classes))")
    else:
        out.append(f"all(trig(L_cnt0_YB({c}, {PT}, {W}, {tc}.y, b, {st}), {nc}.y_sum[p, b]) {Q})")
        out.append(f"all(trig(L_cnt0_Y2B({c}, {PT}, {W}, {tc}.y, b, {st}), {nc}.y_sq_sum[p, b]) {Q})")
    return out


_nonempty = [f"typed(node_context.{_NET})", f"typed(node_context.{_NEV})"]
for _n, _c, _P, _s, _g in ((_NT, _NETC, "train", "start_train", "start_train < end_train"),
                           (_NV, _NEVC, "valid", "start_valid", "tree_context.aggregation and start_valid < end_valid")):
    _cc = "fbcol(tree_context.features_bitarray, node_context.features_sampled[p])"
    _xx = f"xb({_cc}, tree_context.partition_{_P}[{_s}])"
    _nonempty += [f"all(trig(L_cnt_pos({_cc}, tree_context.partition_{_P}, {_xx}, {_s}, start_{_P}, end_{_P}), node_context.{_c}[p]) for p in range(tree_context.max_features))",
                  ("assert", f"implies({_g}, all(trig(node_context.{_n}[p, {_xx}] > 0, node_context.{_c}[p]) for p in range(tree_context.max_features)))"),
                  ("assert", f"implies({_g}, all(trig(inb(node_context.{_NET if _P == 'train' else _NEV}[p], 0, node_context.{_c}[p], {_xx}), node_context.{_c}[p]) for p in range(tree_context.max_features)))"),
                  ("assert", f"implies({_g}, all(trig(node_context.{_c}[p] >= 1, node_context.{_c}[p]) for p in range(tree_context.max_features)))")]


def _sub(t, tc="tree_context", nc="node_context"):
    """spec text over locals -> over the parameters"""
    import re
    for x in (_NT, _NV, _WT, _WV, _NETC, _NEVC, _NET, _NEV, "y_sum", "y_sq_sum"):
        t = re.sub(rf"(?<![\w.]){x}(?!\w)", f"{nc}.{x}", t)
    for x in ("partition_train", "partition_valid", "sample_weights", "features_bitarray", "y", "max_features", "max_n_bins", "n_classes"):
        t = re.sub(rf"(?<![\w.]){x}(?!\w)", f"{tc}.{x}", t)
    return re.sub(r"(?<![\w.])features(?!\w)", f"{nc}.features_sampled", t)


def _loc(t):
    """max_features etc. are not locals of the kernels"""
    import re
    for x in ("max_features", "max_n_bins"):
        t = re.sub(rf"(?<![\w.]){x}(?!\w)", f"tree_context.{x}", t)
    return t


def _ctx(clf):
    tr, va = Side(clf, True), Side(clf, False)
    W = lambda s, hi: f"WSUM(partition_{s}, sample_weights, start_{s}, {hi})"
    ALL_T, ALL_V = "end_train", "end_valid"
    tot = f"({W('train', ALL_T)} + n_classes * dirichlet)"
    if clf:
        L = lambda c, hi: f"LSUM(partition_train, sample_weights, y, {c}, start_train, {hi})"
        final = lambda c: f"({L(c, ALL_T)} + dirichlet) / {tot}"
        loss = lambda hi: f"LOSSC(partition_valid, sample_weights, y, y_pred, start_valid, {hi})"
        pred_done = [f"all(trig(y_pred[c] == {final('c')}, y_pred[c]) for c in range(n_classes))",
                     "all(trig(y_pred[c] > 0, y_pred[c]) for c in range(n_classes))"]
        pred0 = ["all(trig(y_pred[c] == 0, y_pred[c]) for c in range(n_classes))"]
    else:
        YW = lambda hi: f"YWSUM(partition_train, sample_weights, y, start_train, {hi})"
        loss = lambda hi: f"LOSSR(partition_valid, sample_weights, y, y_pred, start_valid, {hi})"
        pred_done = [f"y_pred == {YW(ALL_T)} / {W('train', ALL_T)}"]
        pred0 = ["y_pred == 0"]
    imp = lambda c, fs: [f"implies({c}, {x})" for x in fs]
    T, A = "True", "aggregation"

    def common(done, cur, nt, nv):
        """statements shared by the loops: rows before fk complete, row fk summed up to nt / nv, later rows zero"""
        out = []
        for sd, hi, full in ((tr, nt, ALL_T), (va, nv, ALL_V)):
            out += sd.rows("p < fk", full) if sd.train else imp("aggregation", sd.rows("p < fk", full))
            if hi:
                out += sd.rows("p == fk", hi)
                out += sd.rows("p > fk", None)
            else:
                out += sd.rows("p >= fk", None)
            if not sd.train:
                out += imp("not aggregation", sd.rows("True", None))
            out += sd.lists()
        return out
    base0 = ["implies(fk == 0, w_samples_train == 0 and w_samples_valid == 0 and loss_valid == 0)",
             f"implies(fk > 0, w_samples_train == {W('train', ALL_T)})",
             f"implies(fk > 0, w_samples_valid == ({W('valid', ALL_V)} if aggregation else 0))",
             f"implies(fk > 0, loss_valid == ({loss(ALL_V)} if aggregation else 0))"]
    nzero = [f"all(trig(L_nz_zero({sd.n}[p], max_n_bins), NZ({sd.n}[p], 0, max_n_bins)) for p in range(max_features))" for sd in (tr, va)]
    loop0 = Loop(counter="fk", pre=[_loc(x) for x in nzero], inv=[_loc(x) for x in common(0, 0, None, None) + base0 + imp("fk == 0", pred0) + imp("fk > 0", pred_done)])
    keep = ["implies(fk > 0, keeps(y_pred))"] if clf else ["implies(fk > 0, y_pred == pre(y_pred))"]
    inv1 = common(0, 0, "start_train + n", None) + [f"all({_NT}[fk, b] <= n for b in range(max_n_bins))"]
    inv1 += [f"implies(fk == 0, w_samples_train == {W('train', 'start_train + n')})", "implies(fk > 0, w_samples_train == pre(w_samples_train))"] + keep
    inv1 += ([f"implies(fk == 0, all(trig(y_pred[c] == {L('c', 'start_train + n')}, y_pred[c]) for c in range(n_classes)))"] if clf
             else [f"implies(fk == 0, y_pred == {YW('start_train + n')})"])
    head1 = tr.steps("j", "fk") + [f"unfold({W('train', 'start_train + (n + 1)')})"]
    if clf:
        u = L("c", "start_train + (n + 1)")
        head1.append(f"all(trig(unfold({u}), {u}) for c in Int)")
    else:
        head1.append(f"unfold({YW('start_train + (n + 1)')})")
    loops = {0: loop0, 1: Loop(counter="n", inv=[_loc(x) for x in inv1], head=[_loc(x) for x in head1],
                               exit=[("assert", "start_train + n == end_train")])}
    nn = 2
    if clf:
        loops[2] = Loop(counter="c0", inv=[f"all(trig(implies(c < c0, y_pred[c] == {final('c')}), y_pred[c]) for c in range(n_classes))",
                                           "all(trig(implies(c < c0, y_pred[c] > 0), y_pred[c]) for c in range(n_classes))",
                                           f"all(trig(implies(c >= c0, y_pred[c] == {L('c', ALL_T)}), y_pred[c]) for c in range(n_classes))"],
                        pre=[f"L_nonneg_WSUM(partition_train, sample_weights, start_train, end_train)", ("assert", f"{W('train', ALL_T)} >= 0"),
                             ("assert", f"n_classes * dirichlet >= 0"), ("assert", f"w_samples_train == {W('train', ALL_T)}")],
                        head=["L_nonneg_LSUM(partition_train, sample_weights, y, c0, start_train, end_train)",
                              ("assert", f"{L('c0', ALL_T)} >= 0"), ("assert", f"{tot} > 0"), f"L_div_pos({L('c0', ALL_T)} + dirichlet, {tot})"])
        nn = 3
    inv3 = []
    for x in common(0, 0, "end_train", "start_valid + n"):
        inv3.append(x)
    inv3.append(f"all({_NV}[fk, b] <= n for b in range(max_n_bins))")
    inv3 += [f"implies(fk == 0, w_samples_valid == {W('valid', 'start_valid + n')} and loss_valid == {loss('start_valid + n')})",
             "implies(fk > 0, w_samples_valid == pre(w_samples_valid) and loss_valid == pre(loss_valid))"]
    head3 = va.steps("j", "fk") + [f"unfold({W('valid', 'start_valid + (n + 1)')})", f"unfold({loss('start_valid + (n + 1)')})"]
    loops[nn] = Loop(counter="n", inv=[_loc(x) for x in inv3], head=[_loc(x) for x in head3], exit=[("assert", "start_valid + n == end_valid")])
    req = ["tc_ok(tree_context)", "part_ok(tree_context.partition_train, tree_context.n_samples)",
           "part_ok(tree_context.partition_valid, tree_context.n_samples)", "bins_ok(tree_context)", "weights_ok(tree_context)",
           f"nc_{'clf' if clf else 'reg'}_ok(node_context, tree_context)",
           "start_train <= end_train and end_train <= len(tree_context.partition_train)",
           "start_valid <= end_valid and end_valid <= len(tree_context.partition_valid)"]
    if clf:
        req += ["labels_ok(tree_context)", "tree_context.dirichlet > 0", "1 <= tree_context.n_classes and tree_context.n_classes <= 281474976710656"]
    else:
        req += [_sub(W("train", ALL_T)) + " > 0"]
    ens = ["node_context.n_samples_train == end_train - start_train", "node_context.n_samples_valid == end_valid - start_valid",
           "node_context.w_samples_train == " + _sub(W("train", ALL_T)),
           "node_context.w_samples_valid == (" + _sub(W("valid", ALL_V)) + " if tree_context.aggregation else 0)"]
    PR = "node_context.y_pred"
    fix = lambda t: _sub(t.replace("y_pred", PR).replace("dirichlet", "tree_context.dirichlet").replace("aggregation", "tree_context.aggregation"))
    ens += [fix(f"node_context.loss_valid == ({loss(ALL_V)} if aggregation else 0)")] + [fix(x) for x in pred_done]
    ens += [fix(x) for x in tr.rows("True", ALL_T) + imp("aggregation", va.rows("True", ALL_V)) + imp("not aggregation", va.rows("True", None))]
    ens += [fix(x) for x in tr.lists(True) + va.lists(True)]
    ens += ["feats_ok(node_context.features_sampled, tree_context.n_features)"]
    LST = ["tot_ok(node_context, tree_context)", f"zero_{'clf' if clf else 'reg'}(node_context, tree_context)",
           "bysample(node_context, tree_context, start_train, end_train, start_valid, end_valid)"]
    ens += LST + ["implies(start_train < end_train and implies(tree_context.aggregation, start_valid < end_valid), lists_ok(node_context, tree_context))",
                  "novalid(node_context, tree_context)"]
    mods = [f"node_context.{x}[*]" for x in (_NT, _NV, _WT, _WV, _NET, _NEV, _NETC, _NEVC, "y_sum", "features_pool", "features_sampled")]
    mods += [f"node_context.{x}" for x in ("n_samples_train", "n_samples_valid", "loss_valid", "w_samples_train", "w_samples_valid")]
    mods += ["node_context.y_pred[*]"] if clf else ["node_context.y_sq_sum[*]", "node_context.y_pred"]
    reg(Contract(f"_node.compute_node_{'classifier' if clf else 'regressor'}_context", requires=req, ensures=ens, modifies=mods, loops=loops,
                 exit_facts=[_loc(f"all(trig(L_nz_le({sd.n}[p], max_n_bins), {sd.nec}[p]) for p in range(max_features))") for sd in (tr, va)]
                 + _listfacts(clf) + _nonempty))


_ctx(True)
_ctx(False)
