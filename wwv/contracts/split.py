"""Node statistics consumers and producers: routing of sample indices, split search."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

# structural well-formedness of a tree context: what every kernel of the growing loop relies on
define("tc_ok", ["tc"],
       "fb_ok(tc.features_bitarray) and tc.n_samples == tc.features_bitarray.n_samples and tc.n_features == tc.features_bitarray.n_features"
       " and len(tc.left_buffer) == tc.n_samples and len(tc.right_buffer) == tc.n_samples and len(tc.y) == tc.n_samples"
       " and len(tc.sample_weights) == tc.n_samples and len(tc.is_categorical) == tc.n_features"
       " and tc.n_samples <= 281474976710656")
define("part_ok", ["P", "n"], "len(P) <= n and all(trig(0 <= P[k] and P[k] < n, P[k]) for k in range(len(P)))")


def _loop(part, start, nl, nr, cat, pre=()):
    P, s = part, start
    col = "fbcol(features_bitarray, feature)"
    rule = (f"inb(bin_partition, 0, len(bin_partition), xb({col}, %s))" if cat else f"xb({col}, %s) <= bin_threshold")
    cnt = (f"CNTIN({col}, {P}, split.bin_partition, 0, split.bin_partition_size, {s}, {s} + %s)" if cat
           else f"CNTLE({col}, {P}, bin_threshold, {s}, {s} + %s)")
    v = f"{P}[{s} + n]"
    e = s.replace("start", "end")
    atend = cnt.replace(f"{s} + %s", e)
    return Loop(
        counter="n", pre=pre,
        inv=[f"0 <= {nl}", f"0 <= {nr}", f"{nl} + {nr} == n", f"{nl} == " + cnt % "n",
             f"all({rule % 'left_buffer[q]'} for q in range({nl}))",
             f"all(not ({rule % 'right_buffer[q]'}) for q in range({nr}))",
             f"all(trig(inb({P}, {s}, {s} + n, left_buffer[q]), left_buffer[q]) for q in range({nl}))",
             f"all(trig(inb({P}, {s}, {s} + n, right_buffer[q]), right_buffer[q]) for q in range({nr}))",
             f"all(trig(OCC({P}, x, {s}, {s} + n) == OCC(left_buffer, x, 0, {nl}) + OCC(right_buffer, x, 0, {nr}), OCC({P}, x, {s}, {s} + n)) for x in Int)"],
        head=[f"unfold({cnt % '(n + 1)'})",
              f"all(trig(unfold(OCC({P}, x, {s}, {s} + (n + 1))) and L_upd_OCC(left_buffer, x, {nl}, {v}, 0) and L_upd_OCC(right_buffer, x, {nr}, {v}, 0),"
              f" OCC({P}, x, {s}, {s} + (n + 1))) for x in Int)"],
        exit=[("assert", f"{s} + n == {e}"), ("assert", f"{nl} == {atend}")])


def _part(P, s, e, pos, cat, old):
    """what split_indices says about one index partition"""
    col = "fbcol(tree_context.features_bitarray, split.feature)"
    rule = (f"inb(split.bin_partition, 0, split.bin_partition_size, xb({col}, {{}}))" if cat else f"xb({col}, {{}}) <= split.bin_threshold")
    g = "split.is_split_categorical" if cat else "not split.is_split_categorical"
    cnt = (f"old(CNTIN({col}, {P}, split.bin_partition, 0, split.bin_partition_size, {s}, {e}))" if cat
           else f"old(CNTLE({col}, {P}, split.bin_threshold, {s}, {e}))")
    return [f"implies({g}, all(trig(implies({s} <= q and q < {pos}, {rule.format(P + '[q]')}), {P}[q]) for q in Int))",
            f"implies({g}, all(trig(implies({pos} <= q and q < {e}, not ({rule.format(P + '[q]')})), {P}[q]) for q in Int))",
            f"implies({g}, {pos} == {s} + {cnt})"]


def _posts(P, s, e, pos):
    return ([f"{s} <= {pos} and {pos} <= {e}"] + _part(P, s, e, pos, True, None) + _part(P, s, e, pos, False, None)
            + [f"all(trig(implies(q < {s} or q >= {e}, {P}[q] == old({P}[q])), {P}[q]) for q in Int)",
               f"all(trig(implies({s} <= q and q < {e}, inbo({P}, {s}, {e}, {P}[q])), {P}[q]) for q in Int)",
               f"all(trig(OCC({P}, x, {s}, {e}) == old(OCC({P}, x, {s}, {e})), OCC({P}, x, {s}, {e})) for x in Int)"])


def _perm(P, s, e, pos, nl, nr):
    return [f"all(trig(L_split_OCC({P}, x, {s}, {pos}, {e}) and L_shift_OCC({P}, x, left_buffer, x, {s}, 0, {nl})"
            f" and L_shift_OCC({P}, x, right_buffer, x, {pos}, 0, {nr}), OCC({P}, x, {s}, {e})) for x in Int)",
            ("assert", f"{pos} + {nr} == {e}"),
            ("assert", f"all(trig(OCC({P}, x, {s}, {e}) == old(OCC(tree_context.{P}, x, {s}, {e})), OCC({P}, x, {s}, {e})) for x in Int)")]


# the reordering keeps every sum over a range of samples that contains the node's range or does not meet it
define("clear", ["a", "b", "s", "e"], "b <= s or e <= a or (a <= s and e <= b)")
_SUMS = {"train": [("WSUM", "", ""), ("LSUM", "tree_context.y, l, ", " for l in Int"), ("YWSUM", "tree_context.y, ", "")],
         "valid": [("WSUM", "", ""), ("LOSSC", "tree_context.y, pr, ", " for pr in Reals"), ("LOSSR", "tree_context.y, yp, ", " for yp in Real")]}


def _sums(side):
    P, W, s, e = f"tree_context.partition_{side}", "tree_context.sample_weights", f"start_{side}", f"end_{side}"
    return [f"all(trig(implies(clear(a, b, {s}, {e}), {F}({P}, {W}, {x}a, b) == old({F}({P}, {W}, {x}a, b))), {F}({P}, {W}, {x}a, b)) for a in Int for b in Int{v})"
            for F, x, v in _SUMS[side]]


def _sumfacts(side):
    P, W, s, e = f"tree_context.partition_{side}", "tree_context.sample_weights", f"start_{side}", f"end_{side}"
    return [f"all(trig(L_reord_{F}(was({P}), {W}, {x}{P}, {s}, {e}, a, b), {F}({P}, {W}, {x}a, b)) for a in Int for b in Int{v})" for F, x, v in _SUMS[side]]


_WC = "fbcol(tree_context.features_bitarray, split.feature)"
_WA = {True: ("WIN", "split.bin_partition, 0, split.bin_partition_size, "), False: ("WLE", "split.bin_threshold, ")}


def _weights():
    P, W = "tree_context.partition_train", "tree_context.sample_weights"
    out = []
    for cat in (True, False):
        F, x = _WA[cat]
        g = "split.is_split_categorical" if cat else "not split.is_split_categorical"
        w = f"old({F}({_WC}, {P}, {W}, {x}start_train, end_train))"
        out += [f"implies({g}, WSUM({P}, {W}, start_train, result[0]) == {w})",
                f"implies({g}, WSUM({P}, {W}, result[0], end_train) == old(WSUM({P}, {W}, start_train, end_train)) - {w})"]
    return out


def _weightfacts():
    P, W = "tree_context.partition_train", "tree_context.sample_weights"
    out = [f"L_split_WSUM({P}, {W}, start_train, result[0], end_train)", f"L_reord_WSUM(was({P}), {W}, {P}, start_train, end_train, start_train, end_train)"]
    for cat in (True, False):
        F, x = _WA[cat]
        g = "split.is_split_categorical" if cat else "not split.is_split_categorical"
        out += [f"implies({g}, L_reord_{F}({_WC}, was({P}), {W}, {x}{P}, start_train, end_train, start_train, end_train)"
                f" and L_split_{F}({_WC}, {P}, {W}, {x}start_train, result[0], end_train) and L_zero_{F}({_WC}, {P}, {W}, {x}result[0], end_train)"
                f" and L_x_{F}_WSUM({_WC}, {P}, {W}, {x}{P}, {W}, start_train, start_train, result[0] - start_train))"]
    return out


_TRAIN = _perm("partition_train", "start_train", "end_train", "pos_train", "n_samples_train_left", "n_samples_train_right")
_VALID = _perm("partition_valid", "start_valid", "end_valid", "pos_valid", "n_samples_valid_left", "n_samples_valid_right")

reg(Contract(
    "_split.split_indices",
    variants=[dict(name="clf", sig=0), dict(name="reg", sig=1)],
    requires=["tc_ok(tree_context)", "part_ok(tree_context.partition_train, tree_context.n_samples)",
              "part_ok(tree_context.partition_valid, tree_context.n_samples)",
              "split.feature < tree_context.n_features",
              "start_train <= end_train and end_train <= len(tree_context.partition_train)",
              "start_valid <= end_valid and end_valid <= len(tree_context.partition_valid)",
              "split.bin_partition_size <= len(split.bin_partition)",
              "implies(split.is_split_categorical, 1 <= split.bin_partition_size)",
              "implies(split.is_split_categorical, all(trig(implies(p <= q, split.bin_partition[p] <= split.bin_partition[q]), split.bin_partition[p], split.bin_partition[q])"
              " for p in range(split.bin_partition_size) for q in range(split.bin_partition_size)))"],
    ensures=_posts("tree_context.partition_train", "start_train", "end_train", "result[0]")
    + _posts("tree_context.partition_valid", "start_valid", "end_valid", "result[1]") + _sums("train") + _sums("valid") + _weights(),
    modifies=["tree_context.partition_train[*]", "tree_context.partition_valid[*]", "tree_context.left_buffer[*]", "tree_context.right_buffer[*]"],
    loops={0: _loop("partition_train", "start_train", "n_samples_train_left", "n_samples_train_right", True),
           1: _loop("partition_train", "start_train", "n_samples_train_left", "n_samples_train_right", False),
           2: _loop("partition_valid", "start_valid", "n_samples_valid_left", "n_samples_valid_right", True, _TRAIN),
           3: _loop("partition_valid", "start_valid", "n_samples_valid_left", "n_samples_valid_right", False, _TRAIN)},
    exit_facts=_VALID + _sumfacts("train") + _sumfacts("valid") + _weightfacts(),
))
