"""The growing loop: shape of the tree, sample ranges, node statistics, limits, routing of the samples."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

N, S = "tree.nodes[k]", "rs.stack[j]"
UNDEF = 18446744073709551614
PT, PV, W = "tc.partition_train", "tc.partition_valid", "tc.sample_weights"

# the rule of node k sends sample i to the left
define("goes", ["tree", "fb", "k", "i"],
       f"(inb(tree.bin_partitions, {N}.bin_partition_start, {N}.bin_partition_end, xb(fbcol(fb, {N}.feature), i)) if {N}.is_split_categorical"
       f" else xb(fbcol(fb, {N}.feature), i) <= {N}.bin_threshold)")


def per_node(body, more="", trg="nodeat(k)"):
    return f"all(trig(implies(nodeat(k) and 0 <= k and k < tree.node_count, {body}), {trg}) for k in Int{more})"


def per_rec(body, more="", trg="recat(j)"):
    return f"all(trig(implies(recat(j) and 0 <= j and j < rs.top, {body}), {trg}) for j in Int{more})"


def both(body):
    """the statement for the training and for the validation ranges"""
    return body.replace("@", "train"), body.replace("@", "valid")


LEAF_OK = "implies(tc.aggregation, {0}.end_valid - {0}.start_valid >= tc.min_samples_leaf)"
# ---- statements about the pending records (rs: the stack)
REC = {
    "range": per_rec(f"0 <= {S}.start_train and 0 <= {S}.start_valid and {S}.start_train < {S}.end_train and {S}.end_train <= tc.n_samples_train and {S}.start_valid <= {S}.end_valid"
                     f" and {S}.end_valid <= tc.n_samples_valid and implies(tc.aggregation, {S}.start_valid < {S}.end_valid) and j < {S}.end_train"),
    "root": per_rec(f"implies({S}.parent == -2, tree.node_count == 0 and j == 0 and {S}.depth == 0 and {S}.start_train == 0 and {S}.end_train == tc.n_samples_train"
                    f" and {S}.start_valid == 0 and {S}.end_valid == tc.n_samples_valid)"),
    "link": per_rec(f"implies({S}.parent != -2, 0 <= {S}.parent and {S}.parent < tree.node_count and not tree.nodes[{S}.parent].is_leaf"
                    f" and {S}.depth == tree.nodes[{S}.parent].depth + 1 and tree.nodes[{S}.parent].depth < tc.max_depth"
                    f" and ((LP if {S}.is_left else RP)[{S}.parent] == j))".replace("((LP if", "(implies(").replace(
                        f"(implies( {S}.is_left else RP)[{S}.parent] == j)", f"implies({S}.is_left, LP[{S}.parent] == j) and implies(not {S}.is_left, RP[{S}.parent] == j)")),
    "tile": per_rec(f"implies({S}.parent != -2, implies({S}.is_left, {S}.start_train == tree.nodes[{S}.parent].start_train and {S}.end_train == MT[{S}.parent]"
                    f" and {S}.start_valid == tree.nodes[{S}.parent].start_valid and {S}.end_valid == MV[{S}.parent])"
                    f" and implies(not {S}.is_left, {S}.start_train == MT[{S}.parent] and {S}.end_train == tree.nodes[{S}.parent].end_train"
                    f" and {S}.start_valid == MV[{S}.parent] and {S}.end_valid == tree.nodes[{S}.parent].end_valid))"),
    "leafsize": per_rec(f"implies({S}.parent != -2, {S}.end_train - {S}.start_train >= tc.min_samples_leaf and {LEAF_OK.format(S)})"),
    "order": per_rec("implies(recat(i) and 0 <= i and i < j, rs.stack[i].end_train <= rs.stack[j].start_train and rs.stack[i].end_valid <= rs.stack[j].start_valid)",
                     " for i in Int", "recat(j), recat(i)"),
}
for _x in ("train", "valid"):
    REC["rule_" + _x] = per_rec(f"implies({S}.parent != -2 and {S}.start_{_x} <= q and q < {S}.end_{_x},"
                                f" iff(GO[{S}.parent][tc.partition_{_x}[q]] == 1, {S}.is_left))", " for q in Int", f"recat(j), tc.partition_{_x}[q]")
# ---- statements about the nodes created so far
NODE = {
    "id": per_node(f"{N}.node_id == k"),
    "root": per_node(f"implies(k == 0, {N}.parent == {UNDEF} and {N}.depth == 0 and {N}.start_train == 0 and {N}.end_train == tc.n_samples_train"
                     f" and {N}.start_valid == 0 and {N}.end_valid == tc.n_samples_valid)"),
    "up": per_node(f"implies(0 < k, 0 <= {N}.parent and {N}.parent < k and not tree.nodes[{N}.parent].is_leaf and {N}.depth == tree.nodes[{N}.parent].depth + 1"
                   f" and implies(IL[k] == 1, LP[{N}.parent] == -1 and tree.nodes[{N}.parent].left_child == k)"
                   f" and implies(IL[k] != 1, RP[{N}.parent] == -1 and tree.nodes[{N}.parent].right_child == k))"),
    "tile": per_node(f"implies(0 < k, implies(IL[k] == 1, {N}.start_train == tree.nodes[{N}.parent].start_train and {N}.end_train == MT[{N}.parent]"
                     f" and {N}.start_valid == tree.nodes[{N}.parent].start_valid and {N}.end_valid == MV[{N}.parent])"
                     f" and implies(IL[k] != 1, {N}.start_train == MT[{N}.parent] and {N}.end_train == tree.nodes[{N}.parent].end_train"
                     f" and {N}.start_valid == MV[{N}.parent] and {N}.end_valid == tree.nodes[{N}.parent].end_valid))"),
    "range": per_node(f"0 <= {N}.start_train and 0 <= {N}.start_valid and {N}.start_train < {N}.end_train and {N}.end_train <= tc.n_samples_train and {N}.start_valid <= {N}.end_valid"
                      f" and {N}.end_valid <= tc.n_samples_valid and {N}.n_samples_train == {N}.end_train - {N}.start_train"
                      f" and {N}.n_samples_valid == {N}.end_valid - {N}.start_valid"),
    "limits": per_node(f"{N}.depth <= k and {N}.depth <= tc.max_depth and implies(0 < k, {N}.end_train - {N}.start_train >= tc.min_samples_leaf and {LEAF_OK.format(N)})"
                       f" and implies(not {N}.is_leaf, {N}.depth < tc.max_depth and {N}.impurity > 0 and {N}.n_samples_train >= tc.min_samples_split"
                       f" and implies(tc.aggregation, {N}.n_samples_valid >= tc.min_samples_split))"),
    "why": per_node(f"implies({N}.is_leaf, {N}.n_samples_train < tc.min_samples_split or (tc.aggregation and {N}.n_samples_valid < tc.min_samples_split)"
                    f" or {N}.impurity <= 0 or {N}.depth >= tc.max_depth or NS[k] == 1)"),
    "cut": per_node(f"implies(not {N}.is_leaf, {N}.start_train < MT[k] and MT[k] < {N}.end_train and {N}.start_valid <= MV[k] and MV[k] <= {N}.end_valid"
                    f" and {N}.feature < tc.n_features and iff({N}.is_split_categorical, tc.is_categorical[{N}.feature]))"),
    "left": per_node(f"implies(not {N}.is_leaf, (0 <= LP[k] and LP[k] < rs.top and rs.stack[LP[k]].parent == k and rs.stack[LP[k]].is_left)"
                     f" or (LP[k] == -1 and k < {N}.left_child and {N}.left_child < tree.node_count and tree.nodes[{N}.left_child].parent == k and IL[{N}.left_child] == 1))"),
    "right": per_node(f"implies(not {N}.is_leaf, (0 <= RP[k] and RP[k] < rs.top and rs.stack[RP[k]].parent == k and not rs.stack[RP[k]].is_left)"
                      f" or (RP[k] == -1 and k < {N}.right_child and {N}.right_child < tree.node_count and tree.nodes[{N}.right_child].parent == k and IL[{N}.right_child] != 1))"),
    "cat": per_node(f"implies(not {N}.is_leaf and {N}.is_split_categorical, 0 <= {N}.bin_partition_start and {N}.bin_partition_start < {N}.bin_partition_end and {N}.bin_partition_end <= tree.bin_partitions_end)"),
    "sorted": per_node(f"implies(binat(p) and binat(q) and not {N}.is_leaf and {N}.is_split_categorical and {N}.bin_partition_start <= p and p <= q and q < {N}.bin_partition_end,"
                       " tree.bin_partitions[p] <= tree.bin_partitions[q])", " for p in Int for q in Int", "nodeat(k), binat(p), binat(q)"),
    "go": per_node(f"implies(not {N}.is_leaf, iff(GO[k][i] == 1, goes(tree, tc.features_bitarray, k, i)))", " for i in Int", "nodeat(k), GO[k][i]"),
    "laminar": per_node("implies(recat(j) and 0 <= j and j < rs.top, " + " and ".join(both(
        f"({S}.end_@ <= {N}.start_@ or ({N}.start_@ <= {S}.start_@ and {S}.end_@ <= {N}.end_@))")) + ")", " for j in Int", "nodeat(k), recat(j)"),
    "weight": per_node(f"{N}.w_samples_train == WSUM({PT}, {W}, {N}.start_train, {N}.end_train)"
                       f" and {N}.w_samples_valid == (WSUM({PV}, {W}, {N}.start_valid, {N}.end_valid) if tc.aggregation else 0)"),
}
for _x in ("train", "valid"):
    NODE["rule_" + _x] = per_node(f"implies(0 < k and {N}.start_{_x} <= q and q < {N}.end_{_x},"
                                  f" iff(GO[{N}.parent][tc.partition_{_x}[q]] == 1, IL[k] == 1))", " for q in Int", f"nodeat(k), tc.partition_{_x}[q]")
LS, WS = f"LSUM({PT}, {W}, tc.y, c, {N}.start_train, {N}.end_train)", f"WSUM({PT}, {W}, {N}.start_train, {N}.end_train)"
KIND = {
    "clf": {"yp": per_node("implies(0 <= c and c < tc.n_classes, tree.y_pred[k, c] == YP[k][c])", " for c in Int", "nodeat(k), tree.y_pred[k, c]"),
            "pred": per_node(f"implies(0 <= c and c < tc.n_classes, YP[k][c] > 0 and YP[k][c] == SMOOTH({LS}, {WS}, tc.n_classes, tc.dirichlet))",
                             " for c in Int", "nodeat(k), YP[k][c]"),
            "loss": per_node(f"{N}.loss_valid == (LOSSC({PV}, {W}, tc.y, YP[k], {N}.start_valid, {N}.end_valid) if tc.aggregation else 0)")},
    "reg": {"pred": per_node(f"tree.y_pred[k] == YWSUM({PT}, {W}, tc.y, {N}.start_train, {N}.end_train) / {WS} and {WS} > 0"),
            "loss": per_node(f"{N}.loss_valid == (LOSSR({PV}, {W}, tc.y, tree.y_pred[k], {N}.start_valid, {N}.end_valid) if tc.aggregation else 0)"),
            "yp": "True", "positive": per_rec(f"WSUM({PT}, {W}, {S}.start_train, {S}.end_train) > 0")},
}
for _k in ("clf", "reg"):
    for _n, _t in {**{"r_" + a: b for a, b in REC.items()}, **{"n_" + a: b for a, b in NODE.items()}, **{"s_" + a: b for a, b in KIND[_k].items()}}.items():
        define(f"g_{_n}_{_k}", ["tree", "tc", "rs"], _t)
SLIM = ["node_context." + x for x in ("n_samples_train_in_bins", "n_samples_valid_in_bins", "w_samples_train_in_bins", "w_samples_valid_in_bins", "non_empty_bins_train",
                                      "non_empty_bins_valid", "non_empty_bins_train_count", "non_empty_bins_valid_count", "y_sum", "y_sq_sum", "features_sampled", "features_pool")]
SLIM += ["tree_context.features_bitarray." + x + "~mkcol" for x in ("offsets", "bitmasks", "max_values", "n_bits", "n_values_in_words", "bitarray")]
SUMS = ["WSUM", "LSUM", "YWSUM", "LOSSC", "LOSSR", "OCC", "CNTLE", "CNTIN", "WLE", "WIN"]
PARTS = ["_TreeClassifier.bin_partitions", "_TreeRegressor.bin_partitions"]
SLIM_FOR = {"g_n_sorted": ["inb", "xb"] + SUMS, "g_n_go": SUMS}
for _k in ("g_r_rule", "g_n_rule"):
    SLIM_FOR[_k] = PARTS + ["xb"] + SUMS
for _k in ("g_n_weight", "g_s_", "f_loss"):
    SLIM_FOR[_k] = ["GO", "tree_context.partition_train~WSUM|LSUM|YWSUM", "tree_context.partition_valid~WSUM|LOSSC|LOSSR"] + PARTS + ["xb", "inb", "OCC", "CNTLE", "CNTIN", "best_split.bins", "best_split.bin_partition", "identity_list"]
GEN = ["r_" + x for x in REC] + ["n_" + x for x in NODE]
# ---- statements about the finished tree
define("f_id", ["tree", "tc"], NODE["id"])
define("f_root", ["tree", "tc"], NODE["root"])
define("f_range", ["tree", "tc"], NODE["range"])
define("f_limits", ["tree", "tc"], NODE["limits"])
define("f_weight", ["tree", "tc"], NODE["weight"])
_L, _R = f"tree.nodes[{N}.left_child]", f"tree.nodes[{N}.right_child]"
_K = f"nodeat({N}.left_child) and nodeat({N}.right_child) and not {N}.is_leaf"
define("f_tile", ["tree", "tc"], per_node(f"implies({_K}, {_L}.depth == {N}.depth + 1 and {_R}.depth == {N}.depth + 1 and " + " and ".join(
    f"{_L}.start_{x} == {N}.start_{x} and {_L}.end_{x} == {_R}.start_{x} and {_R}.end_{x} == {N}.end_{x}" for x in ("train", "valid")) + ")"))
define("f_parent", ["tree", "tc"], per_node(f"implies(0 < k and nodeat({N}.parent), 0 <= {N}.parent and {N}.parent < k and not tree.nodes[{N}.parent].is_leaf"
                                            f" and (tree.nodes[{N}.parent].left_child == k or tree.nodes[{N}.parent].right_child == k))"))
for _x in ("train", "valid"):
    define("f_rule_" + _x, ["tree", "tc"], per_node(
        f"implies({_K} and {N}.start_{_x} <= q and q < {N}.end_{_x}, iff(goes(tree, tc.features_bitarray, k, tc.partition_{_x}[q]), q < {_L}.end_{_x}))", " for q in Int", f"nodeat(k), tc.partition_{_x}[q]"))
define("f_pred_clf", ["tree", "tc"], per_node(f"implies(0 <= c and c < tc.n_classes, tree.y_pred[k, c] == SMOOTH({LS}, {WS}, tc.n_classes, tc.dirichlet) and tree.y_pred[k, c] > 0)",
                                              " for c in Int", "nodeat(k), tree.y_pred[k, c]"))
define("f_loss_clf", ["tree", "tc"], per_node(f"{N}.loss_valid == (LOSSC({PV}, {W}, tc.y, tree.y_pred[k], {N}.start_valid, {N}.end_valid) if tc.aggregation else 0)"))
define("f_pred_reg", ["tree", "tc"], KIND["reg"]["pred"])
define("f_loss_reg", ["tree", "tc"], KIND["reg"]["loss"])
FIN = ["id", "root", "range", "limits", "weight", "tile", "parent", "rule_train", "rule_valid", "pred", "loss"]
define("grow_req_clf", ["tree", "tc", "nc", "best"],
       "labels_ok(tc) and tc.dirichlet > 0 and 1 <= tc.n_classes and tc.n_classes <= 281474976710656 and nc_clf_ok(nc, tc) and tree.n_classes == tc.n_classes"
       " and tree.y_pred.shape[1] == tc.n_classes and len(best.y_sum_left) == tc.n_classes and len(best.y_sum_right) == tc.n_classes")
define("grow_req_reg", ["tree", "tc", "nc", "best"], f"nc_reg_ok(nc, tc) and WSUM({PT}, {W}, 0, tc.n_samples_train) > 0")
define("shapes_clf", ["tree", "tc", "nc"], "nc_clf_ok(nc, tc) and tree.y_pred.shape[1] == tc.n_classes")
define("shapes_reg", ["tree", "tc", "nc"], "nc_reg_ok(nc, tc)")
define("limits_ok", ["tc"], "1 <= tc.min_samples_leaf and 1 <= tc.min_samples_split")
# samples still in the pending ranges: everything up to the end of the top record
define("todo_", ["rs"], "(rs.stack[rs.top - 1].end_train if rs.top > 0 else 0)")


def A(*names):
    return [f"g_{x}(tree, tree_context, records)" for x in names]


def _v(k, K):
    t = lambda n: Ty("obj", n)
    return dict(name=k, fparams={"compute_node_context": f"_node.compute_node_{K.lower()}_context", "find_best_split_along_feature": f"_split.find_best_split_{K.lower()}_along_feature"},
                params={"tree": t(f"_Tree{K}"), "tree_context": t(f"Tree{K}Context"), "node_context": t(f"Node{K}Context"), "best_split": t(f"Split{K}"),
                        "compute_node_context": Ty("fun", "compute_node_context"), "find_best_split_along_feature": Ty("fun", "find_best_split_along_feature")}, requires=[])


_mods = ["tree.nodes[*]", "tree.y_pred[*]", "tree.bin_partitions[*]", "tree.nodes", "tree.y_pred", "tree.capacity", "tree.bin_partitions", "tree.bin_partitions_capacity",
         "tree.bin_partitions_end", "tree.node_count"]
_mods += [f"tree_context.{x}[*]" for x in ("partition_train", "partition_valid", "left_buffer", "right_buffer")]


def install(CONTRACTS):
    m = list(_mods)
    for k, K in (("clf", "classifier"), ("reg", "regressor")):
        m += [f"{k}:{x}" for x in CONTRACTS[f"_node.compute_node_{K}_context"].modifies]
    m += CONTRACTS["_split.find_node_split"].modifies
    b, tc = "best_split", "tree_context"
    col = f"fbcol({tc}.features_bitarray, {b}.feature)"
    fnd = f"{b}.found_split"
    cnt = {}
    for x in ("train", "valid"):
        cnt[x, False] = f"CNTLE({col}, {tc}.partition_{x}, {b}.bin_threshold, start_{x}, end_{x})"
        cnt[x, True] = f"CNTIN({col}, {tc}.partition_{x}, {b}.bin_partition, 0, {b}.bin_partition_size, start_{x}, end_{x})"
    wl = {False: f"WLE({col}, {tc}.partition_train, {tc}.sample_weights, {b}.bin_threshold, start_train, end_train)",
          True: f"WIN({col}, {tc}.partition_train, {tc}.sample_weights, {b}.bin_partition, 0, {b}.bin_partition_size, start_train, end_train)"}
    found = [("assert", f"implies({fnd}, {b}.bin_threshold < {tc}.max_n_bins)"),
             f"all(trig(L_idl_in({b}.bin_threshold + 1, x), inb(IDL, 0, {b}.bin_threshold + 1, x)) for x in Int)"]
    for x in ("train", "valid"):
        n = f"start_{x}, start_{x}, end_{x} - start_{x}"
        found += [f"implies({fnd} and not {b}.is_split_categorical, L_x_CNTIN_CNTLE({col}, {tc}.partition_{x}, IDL, 0, {b}.bin_threshold + 1, {col}, {tc}.partition_{x}, {b}.bin_threshold, {n}))",
                  f"implies({fnd} and {b}.is_split_categorical, L_shift_CNTIN({col}, {tc}.partition_{x}, {b}.bins, 0, {b}.bin_partition_size, {col}, {tc}.partition_{x}, {b}.bin_partition, 0, {b}.bin_partition_size, {n}))"]
    n = "start_train, start_train, end_train - start_train"
    P = f"{tc}.partition_train, {tc}.sample_weights"
    found += [f"implies({fnd} and not {b}.is_split_categorical, L_x_WIN_WLE({col}, {P}, IDL, 0, {b}.bin_threshold + 1, {col}, {P}, {b}.bin_threshold, {n}))",
              f"implies({fnd} and {b}.is_split_categorical, L_shift_WIN({col}, {P}, {b}.bins, 0, {b}.bin_partition_size, {col}, {P}, {b}.bin_partition, 0, {b}.bin_partition_size, {n}))"]
    for cat in (False, True):
        g = f"{fnd} and {'' if cat else 'not '}{b}.is_split_categorical"
        found += [("assert", f"implies({g}, {cnt['train', cat]} == {b}.n_samples_train_left)"),
                  ("assert", f"implies({g} and {tc}.aggregation, {cnt['valid', cat]} == {b}.n_samples_valid_left)"),
                  ("assert", f"implies({g}, {wl[cat]} == {b}.w_samples_train_left)")]
    found.append(("assert", f"implies({fnd}, {b}.n_samples_train_right == node_context.n_samples_train - {b}.n_samples_train_left and {b}.w_samples_train_right == node_context.w_samples_train - {b}.w_samples_train_left"
                            f" and {b}.n_samples_valid_right == node_context.n_samples_valid - {b}.n_samples_valid_left)"))
    _ls, _ws = "LSUM(tree_context.partition_train, tree_context.sample_weights, tree_context.y, c, start_train, end_train)", "WSUM(tree_context.partition_train, tree_context.sample_weights, start_train, end_train)"
    found.append(("ghost", "NS", "tree.node_count", "(0 if best_split.found_split else 1)"))     # the search was made and found nothing
    nid, N_ = "node_id", "tree.nodes[node_id]"
    added = [("ghost", "LP", "parent", "(-1 if is_left else LP[parent])"), ("ghost", "RP", "parent", "(RP[parent] if is_left else -1)"),
             ("ghost", "IL", nid, "(1 if is_left else 0)"), "nodeat(node_id)", "nodeat(parent)",
             f"implies(not is_leaf and is_split_categorical, all(trig(L_inb_shift(tree.bin_partitions, {N_}.bin_partition_start, {b}.bin_partition, 0, {b}.bin_partition_size, x),"
             f" inb(tree.bin_partitions, {N_}.bin_partition_start, {N_}.bin_partition_end, x)) for x in Int))",
             ("clf", ("ghost", "YP", nid, "node_context.y_pred")),
             ("clf", f"all(trig(D_SMOOTH({_ls}, {_ws}, tree_context.n_classes, tree_context.dirichlet), {_ls}) for c in Int)"),
             ("clf", ("assert", f"all(trig(implies(0 <= c and c < tree_context.n_classes, YP[node_id][c] == SMOOTH({_ls}, {_ws}, tree_context.n_classes, tree_context.dirichlet)), YP[node_id][c]) for c in Int)")),
             "all(trig(L_inb_shift(tree.bin_partitions, a, BP, a, e - a, x), inb(tree.bin_partitions, a, e, x)) for a in Int for e in Int for x in Int)",
             ("comp", "GO", nid, "i", "goes(tree, tree_context.features_bitarray, node_id, i)")]
    cut = [("ghost", "LP", nid, "records.top"), ("ghost", "RP", nid, "records.top + 1"), ("ghost", "MT", nid, "pos_train"), ("ghost", "MV", nid, "pos_valid"),
           "recat(records.top)", "recat(records.top + 1)",
           *[f"all(trig(L_reord_OCC(P{x[0].upper()}0, x, tree_context.partition_{x}, start_{x}, end_{x}, 0, tree_context.n_samples_{x}), OCC(tree_context.partition_{x}, x, 0, tree_context.n_samples_{x})) for x in Int)"
             for x in ("train", "valid")],
           *[("assert", f"all(trig(implies(start_{x} <= q and q < end_{x}, iff(GO[node_id][tree_context.partition_{x}[q]] == 1, q < pos_{x})), tree_context.partition_{x}[q]) for q in Int)") for x in ("train", "valid")],
           ("assert", "start_train < pos_train and pos_train < end_train and pos_train - start_train >= tree_context.min_samples_leaf and end_train - pos_train >= tree_context.min_samples_leaf"),
           ("assert", "implies(tree_context.aggregation, pos_valid - start_valid >= tree_context.min_samples_leaf and end_valid - pos_valid >= tree_context.min_samples_leaf)"),
           ("reg", ("assert", "WSUM(tree_context.partition_train, tree_context.sample_weights, start_train, pos_train) > 0 and WSUM(tree_context.partition_train, tree_context.sample_weights, pos_train, end_train) > 0"))]
    inv = ["tab_ok(tree)", "rec_ok(records)", "shapes(tree, tree_context, node_context)", "part_ok(tree_context.partition_train, tree_context.n_samples)",
           "part_ok(tree_context.partition_valid, tree_context.n_samples)", "implies(tree.node_count == 0, records.top == 1)",
           "tree.node_count + 2 * todo_(records) - records.top <= 2 * tree_context.n_samples_train - 1"] + A(*GEN)
    perm = [f"all(trig(OCC(tree_context.partition_{x}, x, 0, tree_context.n_samples_{x}) == old(OCC(tree_context.partition_{x}, x, 0, tree_context.n_samples_{x})),"
            f" OCC(tree_context.partition_{x}, x, 0, tree_context.n_samples_{x})) for x in Int)" for x in ("train", "valid")]
    inv += perm
    inv += [f"g_s_{x}(tree, tree_context, records)" for x in ("yp", "pred", "loss")] + ["g_s_positive(tree, tree_context, records)"]
    define("g_s_positive_clf", ["tree", "tc", "rs"], "True")
    fb = "tree_context.features_bitarray"
    P_ = "tree.nodes[tree.nodes[k].parent]"
    step = [("assert", f"all(trig(implies(nodeat(k) and nodeat(tree.nodes[k].parent) and 0 < k and k < tree.node_count and tree.nodes[k].start_{x} <= q and q < tree.nodes[k].end_{x},"
             f" 0 <= tree.nodes[k].parent and tree.nodes[k].parent < k and not {P_}.is_leaf and {P_}.start_{x} <= q and q < {P_}.end_{x}"
             f" and ({P_}.left_child if goleft(tree, {fb}, tree_context.partition_{x}[q], tree.nodes[k].parent) else {P_}.right_child) == k),"
             f" nodeat(k), tree_context.partition_{x}[q]) for k in Int for q in Int)") for x in ("train", "valid")]
    done = [f"all(trig(unfold(goleft(tree, {fb}, i, k)), goleft(tree, {fb}, i, k)) for i in Int for k in Int)",
            ("clf", "all(trig(L_shift_LOSSC(tree_context.partition_valid, tree_context.sample_weights, tree_context.y, YP[k], tree_context.partition_valid, tree_context.sample_weights, tree_context.y,"
             f" tree.y_pred[k], {N}.start_valid, {N}.start_valid, {N}.end_valid - {N}.start_valid), LOSSC(tree_context.partition_valid, tree_context.sample_weights, tree_context.y, tree.y_pred[k], {N}.start_valid, {N}.end_valid)) for k in Int)")] + step
    done += [f"L_routes(tree, {fb}, tree_context.partition_{x}, {x})" for x in ("train", "valid")]
    ens = ["tree_ok(tree)", "tree.node_count <= 2 * tree_context.n_samples_train - 1"]
    ens += [f"f_{x}(tree, tree_context)" for x in FIN] + perm + ["implies(tree_context.aggregation, weights_from(tree.nodes, 0, tree.node_count, tree_context.step))"]
    ens += [f"all(trig(implies(nodeat(k) and 0 <= k and k < tree.node_count and tree.nodes[k].start_{x} <= q and q < tree.nodes[k].end_{x}, onpath(tree, {fb}, tree_context.partition_{x}[q], k)"
            f" and implies(tree.nodes[k].is_leaf, leafof(tree, {fb}, tree_context.partition_{x}[q], 0) == k)), nodeat(k), tree_context.partition_{x}[q]) for k in Int for q in Int)" for x in ("train", "valid")]
    reg(Contract(
        "_grow.grow", variants=[_v("clf", "Classifier"), _v("reg", "Regressor")], ret=Ty("void", "void"),
        ghost_params={"LP": "arr_int", "RP": "arr_int", "IL": "arr_int", "MT": "arr_int", "MV": "arr_int", "GO": "arr_arr_int", "BP": "arr_int", "PT0": "arr_int", "PV0": "arr_int", "NS": "arr_int", "YP": "arr_arr_real"},
        requires=["tc_ok(tree_context)", "part_ok(tree_context.partition_train, tree_context.n_samples)", "part_ok(tree_context.partition_valid, tree_context.n_samples)",
                  "bins_ok(tree_context)", "weights_ok(tree_context)", "limits_ok(tree_context)", "grow_req(tree, tree_context, node_context, best_split)",
                  "tree.node_count == 0 and tab_ok(tree) and tree.n_features == tree_context.n_features",
                  "1 <= tree_context.n_samples_train and tree_context.n_samples_train == len(tree_context.partition_train)",
                  "tree_context.n_samples_valid == len(tree_context.partition_valid)", "implies(tree_context.aggregation, 1 <= tree_context.n_samples_valid)",
                  "len(best_split.bins) == tree_context.max_n_bins and len(best_split.bin_partition) == tree_context.max_n_bins"],
        ensures=ens, modifies=m, slim=SLIM, slim_for=SLIM_FOR, before={"add_node_tree": [("save", "BP", "tree.bin_partitions")],
                                                             "split_indices": [("save", "PT0", "tree_context.partition_train"), ("save", "PV0", "tree_context.partition_valid")]}, after={"find_node_split": found, "add_node_tree": added, "split_indices": cut, "pop_node_record": ["recat(records.top)", "recat(records.top - 1)", ("ghost", "NS", "tree.node_count", "0")]},
        loops={0: Loop(inv=inv, decreases="2 * todo_(records) - records.top", pre=["recat(0)"], head=["recat(records.top - 1)"], facts=["recat(records.top - 1)"], exit=done)}))
