"""The node table: growth, routing, prediction, aggregation weights."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

# ---- sizes of the tables
define("tab_ok", ["tree"],
       "tree.node_count <= tree.capacity and len(tree.nodes) == tree.capacity and tree.y_pred.shape[0] == tree.capacity"
       " and tree.bin_partitions_end <= tree.bin_partitions_capacity"
       " and len(tree.bin_partitions) == tree.bin_partitions_capacity")
# ---- shape of a complete tree: parents precede children, children point back, rules are usable
_N = "tree.nodes[k]"
define("down_ok", ["tree"],
       f"all(trig(implies(nodeat(k) and not {_N}.is_leaf, k < {_N}.left_child and {_N}.left_child < tree.node_count"
       f" and k < {_N}.right_child and {_N}.right_child < tree.node_count and {_N}.left_child != {_N}.right_child"
       f" and tree.nodes[{_N}.left_child].parent == k and tree.nodes[{_N}.right_child].parent == k"
       f" and {_N}.feature < tree.n_features), {_N}.is_leaf) for k in range(tree.node_count))")
define("cat_ok", ["tree"],
       f"all(trig(implies(nodeat(k) and not {_N}.is_leaf and {_N}.is_split_categorical, {_N}.bin_partition_start < {_N}.bin_partition_end"
       f" and {_N}.bin_partition_end <= tree.bin_partitions_end), {_N}.is_leaf) for k in range(tree.node_count))"
       f" and all(trig(implies(nodeat(k) and not {_N}.is_leaf and {_N}.is_split_categorical and binat(p) and binat(q) and {_N}.bin_partition_start <= p and p <= q"
       f" and q < {_N}.bin_partition_end, tree.bin_partitions[p] <= tree.bin_partitions[q]), {_N}.is_leaf, tree.bin_partitions[p], tree.bin_partitions[q])"
       " for k in range(tree.node_count) for p in Int for q in Int)")
define("up_ok", ["tree"], f"all(trig(implies(nodeat(k) and 0 < k, {_N}.parent < k), {_N}.parent) for k in range(tree.node_count))")
define("tree_ok", ["tree"], "1 <= tree.node_count and tab_ok(tree) and down_ok(tree) and cat_ok(tree) and up_ok(tree)")
define("fits", ["tree", "fb"], "fb_ok(fb) and tree.n_features == fb.n_features")

_V2 = [dict(name="clf", sig=0), dict(name="reg", sig=1)]
reg(Contract(
    "_tree.find_leaf", variants=_V2,
    requires=["tree_ok(tree)", "fits(tree, features_bitarray)", "i < features_bitarray.n_samples"],
    ensures=["result < tree.node_count", "tree.nodes[result].is_leaf", "result == leafof(tree, features_bitarray, i, 0)",
             "onpath(tree, features_bitarray, i, result)"],
    entry_facts=["unfold(onpath(tree, features_bitarray, i, 0))"],
    loops={0: Loop(inv=["0 <= leaf_idx and leaf_idx < tree.node_count", "same_node(node, nodes, leaf_idx)",
                        "leafof(tree, features_bitarray, i, 0) == leafof(tree, features_bitarray, i, leaf_idx)",
                        "onpath(tree, features_bitarray, i, leaf_idx)"],
                   head=["unfold(goleft(tree, features_bitarray, i, leaf_idx))", "unfold(leafof(tree, features_bitarray, i, leaf_idx))",
                         "unfold(onpath(tree, features_bitarray, i, tree.nodes[leaf_idx].left_child))",
                         "unfold(onpath(tree, features_bitarray, i, tree.nodes[leaf_idx].right_child))"],
                   exit=["unfold(leafof(tree, features_bitarray, i, leaf_idx))"],
                   decreases="tree.node_count - leaf_idx")}))

reg(Contract(
    "_tree.tree_apply", variants=_V2,
    requires=["tree_ok(tree)", "fits(tree, features_bitarray)"],
    ensures=["len(result) == features_bitarray.n_samples",
             "all(trig(result[i] == leafof(tree, features_bitarray, i, 0), result[i]) for i in range(features_bitarray.n_samples))",
             "all(trig(result[i] < tree.node_count and tree.nodes[result[i]].is_leaf, result[i]) for i in range(features_bitarray.n_samples))"],
    loops={0: Loop(counter="n", inv=[
        "all(trig(out[p] == leafof(tree, features_bitarray, p, 0), out[p]) for p in range(n))",
        "all(trig(out[p] < tree.node_count and tree.nodes[out[p]].is_leaf, out[p]) for p in range(n))"])}))

# ---- prediction: the path's aggregated value at the root (or the leaf's value without aggregation)
_FB = "tree, features_bitarray"


def _pred(kind, out, idx, dom):
    a = "aggc" if kind == "clf" else ("aggr" if kind == "reg" else "aggd")
    c = ", c" if kind == "clf" else ""
    agg = lambda p, k: f"{a}({_FB}, step, {p}, {k}{c})"
    leafv = lambda p: f"tree.y_pred[leafof({_FB}, {p}, 0){c}]"
    rows = [f"all(trig(implies({{ag}}, {out} == {agg('p', '0')}), {out}) for p in range({{n}}){dom})"]
    if kind != "dep":
        rows.append(f"all(trig(implies(not ({{ag}}), {out} == {leafv('p')}), {out}) for p in range({{n}}){dom})")
    ag = "aggregation" if kind != "dep" else "True"
    rows = [r.replace("{ag}", ag) for r in rows]
    cur = {"clf": "pred_i[c]", "reg": "pred_i", "dep": "weighted_depth"}[kind]
    q = (lambda f: f"all(trig({f}, {cur}) for c in range(n_classes))") if kind == "clf" else (lambda f: f)
    qf = (lambda f, t: f"all(trig({f}, {t}) for c in range(n_classes))") if kind == "clf" else (lambda f, t: f)
    leafnow = f"leafof({_FB}, n, 0)"
    inner = Loop(
        pre=[qf(f"unfold({agg('n', leafnow)})", agg('n', leafnow))],
        inv=["idx_current < tree.node_count", f"onpath({_FB}, n, idx_current)", q(f"{cur} == {agg('n', 'idx_current')}")]
            + ([r.replace("{n}", "n") for r in rows] if kind == "clf" else []),
        head=[f"unfold(onpath({_FB}, n, idx_current))", qf(f"unfold({agg('n', 'tree.nodes[idx_current].parent')})", agg('n', 'tree.nodes[idx_current].parent'))],
        exit=[], decreases="idx_current")
    return Loop(counter="n", inv=[r.replace("{n}", "n") for r in rows], head=[]), inner, rows


def _rename(x, frm, to):
    return x.replace(frm, to)


for _q, _kind, _view, _dom in (("tree_classifier_predict_proba", "clf", "out[p, c]", " for c in range(n_classes)"),
                               ("tree_regressor_predict", "reg", "out[p]", ""), ("tree_regressor_weighted_depth", "dep", "out[p]", "")):
    _o, _i, _rows = _pred(_kind, _view, None, _dom)
    _post = [r.replace("{n}", "features_bitarray.n_samples").replace("out[", "result[").replace("range(n_classes)", "range(tree.n_classes)") for r in _rows]
    reg(Contract(
        "_tree." + _q,
        requires=["tree_ok(tree)", f"fits({_FB})"] + (["tree.y_pred.shape[1] == tree.n_classes"] if _kind == "clf" else []),
        ensures=["result.shape[0] == features_bitarray.n_samples"] + (["result.shape[1] == tree.n_classes"] if _kind == "clf" else []) + _post,
        loops={0: _o, 1: _i}))

# ---- context-tree weights
define("kids_ok", ["nodes", "n"],
       "all(trig(implies(nodeat(k) and not nodes[k].is_leaf, k < nodes[k].left_child and nodes[k].left_child < n and k < nodes[k].right_child"
       " and nodes[k].right_child < n), nodes[k].is_leaf) for k in range(n))")
define("w_leaf", ["nodes", "k", "step"], "nodes[k].log_weight_tree == -step * nodes[k].loss_valid")
define("w_node", ["nodes", "k", "step"],
       "exp(nodes[k].log_weight_tree) == (exp(-step * nodes[k].loss_valid) + exp(nodes[nodes[k].left_child].log_weight_tree"
       " + nodes[nodes[k].right_child].log_weight_tree)) / 2")
define("weights_from", ["nodes", "lo", "n", "step"],
       "all(trig(implies(nodes[k].is_leaf, w_leaf(nodes, k, step)) and implies(not nodes[k].is_leaf, w_node(nodes, k, step)),"
       " nodes[k].log_weight_tree) for k in range(lo, n))")
reg(Contract(
    "_grow.compute_tree_weights",
    requires=["0 <= node_count and node_count <= len(nodes)", "kids_ok(nodes, node_count)"],
    ensures=["weights_from(nodes, 0, node_count, step)"],
    modifies=["nodes[*].log_weight_tree"],
    loops={0: Loop(counter="n", inv=["weights_from(nodes, node_count - n, node_count, step)"])}))

# ---- node predictions recomputed after a change of dirichlet (classification)
define("range_ok", ["tree", "tc"],
       f"all(trig({_N}.start_train <= {_N}.end_train and {_N}.end_train <= len(tc.partition_train)"
       f" and {_N}.start_valid <= {_N}.end_valid and {_N}.end_valid <= len(tc.partition_valid), {_N}.start_train) for k in range(tree.node_count))")
_PT, _PV = "tc.partition_train", "tc.partition_valid"


def _np(k="k", pr=None):
    n = f"tree.nodes[{k}]"
    lsum = f"LSUM({_PT}, tc.sample_weights, tc.y, c, {n}.start_train, {n}.end_train)"
    wsum = f"WSUM({_PT}, tc.sample_weights, {n}.start_train, {n}.end_train)"
    return n, lsum, wsum


_n, _ls, _ws = _np()
define("pred_clf", ["tree", "tc", "k", "c", "d"], f"tree.y_pred[k, c] == ({_ls} + d) / ({_ws} + tree.n_classes * d) and tree.y_pred[k, c] > 0")
define("loss_clf", ["tree", "tc", "k"],
       f"{_n}.loss_valid == LOSSC({_PV}, tc.sample_weights, tc.y, tree.y_pred[k], {_n}.start_valid, {_n}.end_valid)")
_sub = lambda t: t.replace("tc.", "tree_context.").replace("(tc", "(tree_context")
_ND = "nodes[n]"
_L = lambda c, hi: f"LSUM(partition_train, sample_weights, y, {c}, {_ND}.start_train, {hi})"
_W = lambda hi: f"WSUM(partition_train, sample_weights, {_ND}.start_train, {hi})"
_LO = lambda pr, hi: f"LOSSC(partition_valid, sample_weights, y, {pr}, {_ND}.start_valid, {hi})"
_tot = f"({_W(_ND + '.end_train')} + n_classes * dirichlet)"
_fin = lambda c: f"({_L(c, _ND + '.end_train')} + dirichlet) / {_tot}"
reg(Contract(
    "_grow.recompute_node_predictions",
    requires=["tree_ok(tree)", "tree.y_pred.shape[1] == tree.n_classes", "tc_ok(tree_context)", "tree.n_classes == tree_context.n_classes",
              "1 <= tree.n_classes and tree.n_classes <= 281474976710656",
              "part_ok(tree_context.partition_train, tree_context.n_samples)", "part_ok(tree_context.partition_valid, tree_context.n_samples)",
              "range_ok(tree, tree_context)", "weights_ok(tree_context)", "labels_ok(tree_context)", "dirichlet > 0"],
    ensures=["all(trig(pred_clf(tree, tree_context, k, c, dirichlet), tree.y_pred[k, c]) for k in range(tree.node_count) for c in range(tree.n_classes))",
             "all(trig(loss_clf(tree, tree_context, k), tree.nodes[k].loss_valid) for k in range(tree.node_count))",
             "implies(tree_context.aggregation, weights_from(tree.nodes, 0, tree.node_count, tree_context.step))",
             "tree_ok(tree)"],
    modifies=["tree.nodes[*].loss_valid", "tree.nodes[*].log_weight_tree", "tree.y_pred[*]"],
    loops={0: Loop(counter="n", inv=[
        "all(trig(pred_clf(tree, tree_context, k, c, dirichlet), tree.y_pred[k, c]) for k in range(n) for c in range(tree.n_classes))",
        "all(trig(loss_clf(tree, tree_context, k), tree.nodes[k].loss_valid) for k in range(n))"],
        facts=[f"L_shift_LOSSC(partition_valid, sample_weights, y, y_pred, partition_valid, sample_weights, y, tree.y_pred[n], {_ND}.start_valid,"
               f" {_ND}.start_valid, {_ND}.end_valid - {_ND}.start_valid)"]),
        1: Loop(counter="t", inv=[f"w_samples_train == {_W(_ND + '.start_train + t')}",
                                  f"all(trig(y_pred[c] == {_L('c', _ND + '.start_train + t')}, y_pred[c]) for c in range(n_classes))"],
                head=[f"unfold({_W(_ND + '.start_train + (t + 1)')})",
                      f"all(trig(unfold({_L('c', _ND + '.start_train + (t + 1)')}), {_L('c', _ND + '.start_train + (t + 1)')}) for c in Int)"],
                exit=[("assert", f"{_ND}.start_train + t == {_ND}.end_train")]),
        2: Loop(counter="c0", inv=[f"all(trig(implies(c < c0, y_pred[c] == {_fin('c')}), y_pred[c]) for c in range(n_classes))",
                                   "all(trig(implies(c < c0, y_pred[c] > 0), y_pred[c]) for c in range(n_classes))",
                                   f"all(trig(implies(c >= c0, y_pred[c] == {_L('c', _ND + '.end_train')}), y_pred[c]) for c in range(n_classes))"],
                pre=[f"L_nonneg_WSUM(partition_train, sample_weights, {_ND}.start_train, {_ND}.end_train)", ("assert", f"{_W(_ND + '.end_train')} >= 0"),
                     ("assert", "n_classes * dirichlet >= 0"), ("assert", f"w_samples_train == {_W(_ND + '.end_train')}")],
                head=[f"L_nonneg_LSUM(partition_train, sample_weights, y, c0, {_ND}.start_train, {_ND}.end_train)",
                      ("assert", f"{_L('c0', _ND + '.end_train')} >= 0"), ("assert", f"{_tot} > 0"),
                      f"L_div_pos({_L('c0', _ND + '.end_train')} + dirichlet, {_tot})"]),
        3: Loop(counter="t", inv=[f"loss_valid == {_LO('y_pred', _ND + '.start_valid + t')}"],
                head=[f"unfold({_LO('y_pred', _ND + '.start_valid + (t + 1)')})"],
                exit=[("assert", f"{_ND}.start_valid + t == {_ND}.end_valid")])}))

# ---- growth of the node table and of the category storage
_NONE = Ty("none", "none")
_VCAP = [dict(name=f"{c}-{o}", sig=k, params={"capacity": t} if t else {}) for k, c in ((0, "clf"), (1, "reg")) for o, t in (("default", _NONE), ("given", None))]


def ykept(n):
    return f"ykept(tree.y_pred, {n})"


_SZ = "len(tree.nodes) == tree.capacity and tree.y_pred.shape[0] == tree.capacity"
_BZ = "len(tree.bin_partitions) == tree.bin_partitions_capacity"
reg(Contract(
    "_tree.resize_tree_", variants=_V2,
    requires=[_SZ, "tree.capacity <= capacity"],
    ensures=[_SZ, "tree.capacity == capacity", "recs_kept(tree.nodes, old(tree.capacity))", ykept("old(tree.capacity)")],
    modifies=["tree.nodes", "tree.y_pred", "tree.capacity"]))
reg(Contract(
    "_tree.resize_tree", variants=_VCAP, requires=[_SZ],
    ensures=[_SZ, "old(tree.capacity) <= tree.capacity", "implies(capacity is None, old(tree.capacity) < tree.capacity)",
             "implies(capacity is not None, capacity <= tree.capacity)",
             "recs_kept(tree.nodes, old(tree.capacity))", ykept("old(tree.capacity)")],
    modifies=["tree.nodes", "tree.y_pred", "tree.capacity"]))
_BK = "all(trig(tree.bin_partitions[p] == old(tree.bin_partitions[p]), tree.bin_partitions[p]) for p in range(old(tree.bin_partitions_capacity)))"
reg(Contract(
    "_tree.resize_tree_bin_partitions_", variants=_V2, requires=[_BZ, "tree.bin_partitions_capacity <= capacity"],
    ensures=[_BZ, "tree.bin_partitions_capacity == capacity", _BK], modifies=["tree.bin_partitions", "tree.bin_partitions_capacity"]))
reg(Contract(
    "_tree.resize_tree_bin_partitions", variants=_VCAP, requires=[_BZ],
    ensures=[_BZ, "old(tree.bin_partitions_capacity) <= tree.bin_partitions_capacity", "implies(capacity is not None, capacity <= tree.bin_partitions_capacity)", _BK],
    modifies=["tree.bin_partitions", "tree.bin_partitions_capacity"]))

# ---- adding a node
_VADD = [dict(name=f"{c}-{o}", sig=k, params=({"bin_partition": _NONE} if o == "none" else {"bin_partition": Ty("arr", "", Ty("int", "uint64"), 1)}),
              requires=(["not is_split_categorical"] if o == "none" else []))
         for k, c in ((0, "clf"), (1, "reg")) for o in ("none", "set")]
_R = "tree.nodes[result]"
_CAT = "(is_split_categorical and bin_partition_size > 0)"
reg(Contract(
    "_tree.add_node_tree", variants=_VADD,
    requires=["tab_ok(tree)", "parent == -2 or (0 <= parent and parent < tree.node_count)",
              "implies(bin_partition is None, not is_split_categorical)",
              "implies(bin_partition is not None, implies(is_split_categorical, bin_partition_size <= len(bin_partition)))"],
    ensures=["tab_ok(tree)", "result == old(tree.node_count)", "tree.node_count == old(tree.node_count) + 1",
             "recs_kept(tree.nodes, old(tree.node_count), 'left_child', 'right_child')", ykept("old(tree.node_count)"),
             "all(trig(tree.nodes[k].left_child == (result if (k == parent and is_left) else old(tree.nodes[k].left_child)),"
             " tree.nodes[k].left_child) for k in range(old(tree.node_count)))",
             "all(trig(tree.nodes[k].right_child == (result if (k == parent and not is_left) else old(tree.nodes[k].right_child)),"
             " tree.nodes[k].right_child) for k in range(old(tree.node_count)))",
             f"{_R}.node_id == result", f"{_R}.parent == (18446744073709551614 if parent == -2 else parent)", f"{_R}.depth == depth",
             f"iff({_R}.is_leaf, is_leaf)", f"{_R}.impurity == impurity", f"{_R}.n_samples_train == n_samples_train",
             f"{_R}.n_samples_valid == n_samples_valid", f"{_R}.w_samples_train == w_samples_train", f"{_R}.w_samples_valid == w_samples_valid",
             f"{_R}.start_train == start_train", f"{_R}.end_train == end_train", f"{_R}.start_valid == start_valid", f"{_R}.end_valid == end_valid",
             f"{_R}.loss_valid == loss_valid", f"implies(is_leaf, {_R}.left_child == -1 and {_R}.right_child == -1)",
             f"implies(not is_leaf, {_R}.feature == feature and {_R}.bin_threshold == bin_threshold)",
             f"iff({_R}.is_split_categorical, is_split_categorical)",
             f"implies({_CAT}, {_R}.bin_partition_start == old(tree.bin_partitions_end) and {_R}.bin_partition_end == old(tree.bin_partitions_end) + bin_partition_size)",
             f"tree.bin_partitions_end == old(tree.bin_partitions_end) + (bin_partition_size if {_CAT} else 0)",
             "all(trig(tree.bin_partitions[p] == old(tree.bin_partitions[p]), tree.bin_partitions[p]) for p in range(old(tree.bin_partitions_end)))",
             f"implies(bin_partition is not None, all(trig(implies({_CAT} and old(tree.bin_partitions_end) <= p and p < tree.bin_partitions_end,"
             " tree.bin_partitions[p] == bin_partition[p - old(tree.bin_partitions_end)]), tree.bin_partitions[p]) for p in Int))"],
    modifies=["tree.nodes[*]", "tree.y_pred[*]", "tree.bin_partitions[*]", "tree.nodes", "tree.y_pred", "tree.capacity",
              "tree.bin_partitions", "tree.bin_partitions_capacity", "tree.bin_partitions_end", "tree.node_count"]))

# ---- stack of pending nodes
define("rec_ok", ["records"], "0 <= records.top and records.top <= records.capacity and len(records.stack) == records.capacity and 1 <= records.capacity")
_T = "records.stack[old(records.top)]"
reg(Contract("_grow.Records.__init__", params={"self": Ty("obj", "Records"), "capacity": Ty("int", "uint64")}, ret=Ty("void", "void"), requires=["1 <= capacity and capacity <= 281474976710656"],
             ensures=["rec_ok(self)", "self.top == 0"]))
reg(Contract("_grow.has_records", ensures=["iff(result, records.top > 0)"]))
_FL = ("parent", "depth", "is_left", "impurity", "start_train", "end_train", "start_valid", "end_valid")
reg(Contract("_grow.push_record", requires=["rec_ok(records)"],
             ensures=["rec_ok(records)", "records.top == old(records.top) + 1", "recs_kept(records.stack, old(records.top))"]
             + [(f"iff({_T}.{f}, {f})" if f == "is_left" else f"{_T}.{f} == {f}") for f in _FL],
             modifies=["records.stack[*]", "records.stack", "records.capacity", "records.top"]))
reg(Contract("_grow.pop_node_record", requires=["rec_ok(records)", "records.top > 0"],
             ensures=["rec_ok(records)", "records.top == old(records.top) - 1"]
             + [(f"iff(result[{i}], records.stack[records.top].{f})" if f == "is_left" else f"result[{i}] == records.stack[records.top].{f}") for i, f in enumerate(_FL)],
             modifies=["records.top"]))
