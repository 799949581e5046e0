"""Split search: candidates along one ordering of the bins, along one feature, over the node's features."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

NT, NV, WT = "n_samples_train_in_bins", "n_samples_valid_in_bins", "w_samples_train_in_bins"
NE, NEC, NEVL, NEVC = "non_empty_bins_train", "non_empty_bins_train_count", "non_empty_bins_valid", "non_empty_bins_valid_count"

# ---- the candidate "the first k bins of the list O go left" of row f of the histograms
define("q_n", ["nc", "f", "O", "k"], f"PSUMI(nc.{NT}[f], O, 0, k)")
define("q_w", ["nc", "f", "O", "k"], f"PSUMR(nc.{WT}[f], O, 0, k)")
define("q_v", ["nc", "f", "O", "k"], f"PSUMI(nc.{NV}[f], O, 0, k)")
define("q_il_clf", ["tc", "nc", "f", "O", "k"],
       "(GINI(RSQL(nc.y_sum[f], O, k, 0, tc.n_classes), q_w(nc, f, O, k)) if tc.criterion == 0"
       " else ENTL(nc.y_sum[f], O, k, q_w(nc, f, O, k), 0, tc.n_classes))")
define("q_ir_clf", ["tc", "nc", "f", "O", "k"],
       "(GINI(RSQR(nc.y_sum[f], O, k, tc.max_n_bins, 0, tc.n_classes), DIFF(nc.w_samples_train, q_w(nc, f, O, k))) if tc.criterion == 0"
       " else ENTR(nc.y_sum[f], O, k, tc.max_n_bins, DIFF(nc.w_samples_train, q_w(nc, f, O, k)), 0, tc.n_classes))")
define("q_il_reg", ["tc", "nc", "f", "O", "k"], "MSE(PSUMR(nc.y_sq_sum[f], O, 0, k), PSUMR(nc.y_sum[f], O, 0, k), q_w(nc, f, O, k))")
define("q_ir_reg", ["tc", "nc", "f", "O", "k"],
       "MSE(DIFF(RSUM(nc.y_sq_sum[f], 0, tc.max_n_bins), PSUMR(nc.y_sq_sum[f], O, 0, k)), DIFF(RSUM(nc.y_sum[f], 0, tc.max_n_bins), PSUMR(nc.y_sum[f], O, 0, k)),"
       " DIFF(nc.w_samples_train, q_w(nc, f, O, k)))")
for _m in ("clf", "reg"):
    define("q_gp_" + _m, ["tc", "nc", "f", "O", "k"],
           f"GAINP(q_w(nc, f, O, k), q_il_{_m}(tc, nc, f, O, k), DIFF(nc.w_samples_train, q_w(nc, f, O, k)), q_ir_{_m}(tc, nc, f, O, k))")
    # what the search reports about the candidate; v: validation samples on the left
    define("q_rep_" + _m, ["tc", "nc", "f", "O", "k", "v", "best"],
           "best.n_samples_train_left == q_n(nc, f, O, k) and best.n_samples_train_right == nc.n_samples_train - q_n(nc, f, O, k)"
           " and best.w_samples_train_left == q_w(nc, f, O, k) and best.w_samples_train_right == nc.w_samples_train - q_w(nc, f, O, k)"
           " and best.n_samples_valid_left == v and best.n_samples_valid_right == nc.n_samples_valid - v"
           f" and best.impurity_left == q_il_{_m}(tc, nc, f, O, k) and best.impurity_right == q_ir_{_m}(tc, nc, f, O, k)"
           f" and best.gain_proxy == q_gp_{_m}(tc, nc, f, O, k)")
# an admissible candidate
define("q_adm", ["tc", "nc", "f", "O", "k", "v"],
       "q_n(nc, f, O, k) >= tc.min_samples_leaf and nc.n_samples_train - q_n(nc, f, O, k) >= tc.min_samples_leaf"
       " and implies(tc.aggregation, v >= tc.min_samples_leaf and nc.n_samples_valid - v >= tc.min_samples_leaf)"
       " and q_w(nc, f, O, k) > 0 and nc.w_samples_train - q_w(nc, f, O, k) > 0")
define("order_ok", ["O", "B"],
       "all(trig(0 <= O[p] and O[p] < B, O[p]) for p in range(len(O)))"
       " and all(trig(implies(p < q, O[p] != O[q]), O[p], O[q]) for p in range(len(O)) for q in range(len(O)))")
define("mins_ok", ["best", "tc"],
       "best.n_samples_train_left >= tc.min_samples_leaf and best.n_samples_train_right >= tc.min_samples_leaf"
       " and implies(tc.aggregation, best.n_samples_valid_left >= tc.min_samples_leaf and best.n_samples_valid_right >= tc.min_samples_leaf)"
       " and best.w_samples_train_left > 0 and best.w_samples_train_right > 0")
_SCAL = ("is_split_categorical", "feature", "bin_threshold", "n_samples_train_left", "w_samples_train_left", "n_samples_train_right",
         "w_samples_train_right", "n_samples_valid_left", "n_samples_valid_right", "impurity_left", "impurity_right", "bins_count", "found_split")


def kept(best="best_split", old="old"):
    out = [(f"iff({best}.{x}, {old}({best}.{x}))" if x in ("is_split_categorical", "found_split") else f"{best}.{x} == {old}({best}.{x})") for x in _SCAL]
    return " and ".join(out + [f"unchanged({best}.bins)"])


MODS = [f"best_split.{x}" for x in _SCAL if x not in ()] + ["best_split.gain_proxy", "best_split.bins[*]"]
MODS_CLF = MODS + ["best_split.y_sum_left[*]", "best_split.y_sum_right[*]"]
MODS_REG = MODS + [f"best_split.{x}" for x in ("y_sum_left", "y_sum_right", "y_sq_sum_left", "y_sq_sum_right")]


def scan(m, O, CAT, CS, M):
    """loop over the candidates of the ordering O: (requires, loop, ensures)"""
    tc, nc, f, best = "tree_context", "node_context", "f", "best_split"
    a = f"{nc}, {f}, {O}"
    v = lambda k1, k: f"(q_v({a}, {k1}) if {CAT} else {CS}[{O}[{k}]])"
    gp = lambda k1: f"q_gp_{m}({tc}, {a}, {k1})"
    req = [f"order_ok({O}, {tc}.max_n_bins)", f"1 <= len({O})", f"len({CS}) == {tc}.max_n_bins",
           f"q_n({a}, len({O})) == {nc}.n_samples_train",
           f"all(trig(q_v({a}, q) <= {nc}.n_samples_valid, q_v({a}, q)) for q in range(len({O}) + 1))",
           f"all(trig({CS}[{O}[q]] <= {nc}.n_samples_valid, {CS}[{O}[q]]) for q in range(len({O})))",
           f"all(trig(implies(p <= q, {CS}[{O}[p]] <= {CS}[{O}[q]]), {CS}[{O}[p]], {CS}[{O}[q]]) for p in range(len({O})) for q in range(len({O})))",
           "isinf(best_split.gain_proxy) <= 0", f"{nc}.{NEC}[f] == len({O}) and len({O}) <= {tc}.max_n_bins",
           f"0 <= {nc}.n_samples_train and 0 <= {nc}.n_samples_valid"]
    top = lambda n, old: [
        f"{best}.gain_proxy >= {old}({best}.gain_proxy)", f"isinf({best}.gain_proxy) <= 0",
        f"implies({best}.gain_proxy == {old}({best}.gain_proxy), {kept(old=old)})",
        f"implies({best}.gain_proxy > {old}({best}.gain_proxy), {best}.found_split and {best}.feature == feature"
        f" and iff({best}.is_split_categorical, {CAT}) and {best}.bins_count == len({O}) and isinf({best}.gain_proxy) == 0"
        f" and mins_ok({best}, {tc}) and inb({O}, 0, {n}, {best}.bin_threshold))",
        f"implies({best}.gain_proxy > {old}({best}.gain_proxy), all(trig({best}.bins[q] == {O}[q], {best}.bins[q]) for q in range(len({O}))))",
        f"implies({best}.gain_proxy > {old}({best}.gain_proxy), all(trig(implies({O}[q] == {best}.bin_threshold, q_rep_{m}({tc}, {a}, q + 1, {v('q + 1', 'q')}, {best})), {O}[q])"
        f" for q in range({n})))",
        f"all(trig(implies(q_adm({tc}, {a}, q + 1, {v('q + 1', 'q')}), {best}.gain_proxy >= {gp('q + 1')}), {O}[q]) for q in range({n}))"]
    return req, top, v


def _cand(m, O, CAT, CS, NTL="n_samples_train_left"):
    tc, nc, f = "tree_context", "node_context", "f"
    a = f"{nc}, {f}, {O}"
    req, top, v = scan(m, O, CAT, CS, None)
    inv = [f"n_samples_train_left == q_n({a}, k)", f"n_samples_train_right == {nc}.n_samples_train - q_n({a}, k)",
           f"w_samples_train_left == q_w({a}, k)", f"w_samples_train_right == {nc}.w_samples_train - q_w({a}, k)",
           f"implies({CAT}, n_samples_valid_left == q_v({a}, k))", "n_samples_valid_left <= n_samples_valid"]
    head = [f"unfold(PSUMI({nc}.{NT}[f], {O}, 0, k + 1))", f"unfold(PSUMI({nc}.{NV}[f], {O}, 0, k + 1))", f"unfold(PSUMR({nc}.{WT}[f], {O}, 0, k + 1))",
            f"L_split_PSUMI({nc}.{NT}[f], {O}, 0, k + 1, len({O}))", f"L_nonneg_PSUMI({nc}.{NT}[f], {O}, k + 1, len({O}))",
            f"L_nonneg_PSUMI({nc}.{NT}[f], {O}, 0, k)", f"L_nonneg_PSUMI({nc}.{NV}[f], {O}, 0, k)",
            ("assert", f"q_n({a}, k + 1) <= {nc}.n_samples_train"), ("assert", f"0 <= q_n({a}, k) and 0 <= q_v({a}, k)"),
            ("assert", f"q_v({a}, k + 1) <= {nc}.n_samples_valid and {CS}[{O}[k]] <= {nc}.n_samples_valid")]
    facts = []
    if m == "clf":
        C = f"{tc}.n_classes"
        YS, B = f"{nc}.y_sum[f]", f"{tc}.max_n_bins"
        inv += [f"all(trig(y_sum_left[c] == PSUM2({YS}, c, {O}, 0, k), y_sum_left[c]) for c in range({C}))",
                f"all(trig(y_sum_right[c] == RSUM2({YS}, c, 0, {B}) - PSUM2({YS}, c, {O}, 0, k), y_sum_right[c]) for c in range({C}))"]
        head += [f"all(trig(unfold(PSUM2({YS}, c, {O}, 0, k + 1)), PSUM2({YS}, c, {O}, 0, k + 1)) for c in Int)"]
        wl, wr = f"q_w({a}, k + 1)", f"DIFF({nc}.w_samples_train, q_w({a}, k + 1))"
        facts = [f"L_x_RSQ_RSQL(y_sum_left, {YS}, {O}, k + 1, 0, 0, {C})", f"L_x_RSQ_RSQR(y_sum_right, {YS}, {O}, k + 1, {B}, 0, 0, {C})",
                 f"L_x_ENT_ENTL(y_sum_left, {wl}, {YS}, {O}, k + 1, {wl}, 0, 0, {C})", f"L_x_ENT_ENTR(y_sum_right, {wr}, {YS}, {O}, k + 1, {B}, {wr}, 0, 0, {C})"]
    else:
        B = f"{tc}.max_n_bins"
        for y in ("y_sum", "y_sq_sum"):
            inv += [f"{y}_left == PSUMR({nc}.{y}[f], {O}, 0, k)", f"{y}_right == RSUM({nc}.{y}[f], 0, {B}) - PSUMR({nc}.{y}[f], {O}, 0, k)"]
            head += [f"unfold(PSUMR({nc}.{y}[f], {O}, 0, k + 1))"]
    facts.append(("assert", f"implies(q_adm({tc}, {a}, k + 1, {v('k + 1', 'k')}), best_split.gain_proxy >= q_gp_{m}({tc}, {a}, k + 1))"))
    # after a break no later candidate is admissible
    mono = [f"all(trig(L_split_PSUMI({nc}.{x}[f], {O}, 0, k + 1, q + 1) and L_nonneg_PSUMI({nc}.{x}[f], {O}, k + 1, q + 1), PSUMI({nc}.{x}[f], {O}, 0, q + 1)) for q in Int)"
            for x in (NT, NV)]
    ty = [f"typed({nc}.{NT})", f"typed({nc}.{NV})"]
    return req, top, Loop(counter="k", inv=inv + top("k", "old"), head=head, facts=facts, exit=mono, pre=ty)


# what the search reports, in terms of the stored list of bins (categorical splits)
def own(m, best="best_split", f="f", tc="tree_context", nc="node_context", bins=None):
    b = bins or f"{best}.bins"
    return (f"all(trig(implies({b}[q] == {best}.bin_threshold, q_rep_{m}({tc}, {nc}, {f}, {b}, q + 1, q_v({nc}, {f}, {b}, q + 1), {best})), {b}[q])"
            f" for q in range({best}.bins_count))")


def relist(m, O, P, cond="True", f="f", tc="tree_context", nc="node_context"):
    """facts: the sums over the lists O and P agree where the lists do (used to move a statement from O to P)"""
    out = [f"all(trig(implies({cond}, L_shift_PSUMI({nc}.{x}[{f}], {O}, {nc}.{x}[{f}], {P}, 0, 0, k)), PSUMI({nc}.{x}[{f}], {P}, 0, k)) for k in Int)" for x in (NT, NV)]
    rs = [WT] + (["y_sum", "y_sq_sum"] if m == "reg" else [])
    out += [f"all(trig(implies({cond}, L_shift_PSUMR({nc}.{x}[{f}], {O}, {nc}.{x}[{f}], {P}, 0, 0, k)), PSUMR({nc}.{x}[{f}], {P}, 0, k)) for k in Int)" for x in rs]
    if m == "clf":
        Y, B, C = f"{nc}.y_sum[{f}]", f"{tc}.max_n_bins", f"{tc}.n_classes"
        out.append(f"all(trig(implies({cond}, L_shift_PSUM2({Y}, c, {O}, {Y}, c, {P}, 0, 0, k)), PSUM2({Y}, c, {P}, 0, k)) for c in Int for k in Int)")
        out.append(f"all(trig(implies({cond}, L_shift_RSQL({Y}, {O}, k, {Y}, {P}, k, 0, 0, {C})), RSQL({Y}, {P}, k, 0, {C})) for k in Int)")
        out.append(f"all(trig(implies({cond}, L_shift_RSQR({Y}, {O}, k, {B}, {Y}, {P}, k, {B}, 0, 0, {C})), RSQR({Y}, {P}, k, {B}, 0, {C})) for k in Int)")
        out.append(f"all(trig(implies({cond}, L_shift_ENTL({Y}, {O}, k, w, {Y}, {P}, k, w, 0, 0, {C})), ENTL({Y}, {P}, k, w, 0, {C})) for k in Int for w in Real)")
        out.append(f"all(trig(implies({cond}, L_shift_ENTR({Y}, {O}, k, {B}, w, {Y}, {P}, k, {B}, w, 0, 0, {C})), ENTR({Y}, {P}, k, {B}, w, 0, {C})) for k in Int for w in Real)")
    return out


_req, _top, _loop = _cand("clf", "ordered_bins_train", "tree_context.is_categorical[feature]", "cumsum_samples_valid_left")
reg(Contract(
    "_split.try_feature_order_for_classifier_split",
    requires=["nc_clf_ok(node_context, tree_context)", "len(tree_context.is_categorical) == tree_context.n_features",
              "feature < tree_context.n_features", "f < tree_context.max_features", "1 <= tree_context.n_classes and tree_context.n_classes <= 281474976710656",
              "len(best_split.bins) == tree_context.max_n_bins", "len(best_split.y_sum_left) == tree_context.n_classes",
              "len(best_split.y_sum_right) == tree_context.n_classes"] + _req,
    ensures=_top("len(ordered_bins_train) - 1", "old")
    + [f"implies(best_split.gain_proxy > old(best_split.gain_proxy) and tree_context.is_categorical[feature], {own('clf')})"],
    exit_facts=relist("clf", "ordered_bins_train", "best_split.bins", "best_split.gain_proxy > old(best_split.gain_proxy)"),
    modifies=MODS_CLF, loops={0: _loop}))


# ---- along one feature
define("lists_ok", ["nc", "tc"], " and ".join(
    f"all(trig(1 <= nc.{c}[p] and nc.{c}[p] <= tc.max_n_bins if {m} else nc.{c}[p] <= tc.max_n_bins, nc.{c}[p]) for p in range(tc.max_features))"
    f" and all(trig(0 <= nc.{e}[p, q] and nc.{e}[p, q] < tc.max_n_bins and nc.{n}[p, nc.{e}[p, q]] > 0, nc.{e}[p, q]) for p in range(tc.max_features) for q in range(nc.{c}[p]))"
    f" and all(trig(implies(q < r, nc.{e}[p, q] != nc.{e}[p, r]), nc.{e}[p, q], nc.{e}[p, r]) for p in range(tc.max_features) for q in range(nc.{c}[p]) for r in range(nc.{c}[p]))"
    f" and all(trig(implies(nc.{n}[p, b] > 0, inb(nc.{e}[p], 0, nc.{c}[p], b)), nc.{n}[p, b]) for p in range(tc.max_features) for b in range(tc.max_n_bins))"
    for n, e, c, m in ((NT, NE, NEC, "True"), (NV, NEVL, NEVC, "tc.aggregation"))))
define("novalid", ["nc", "tc"], f"implies(not tc.aggregation, all(trig(nc.{NV}[p, b] == 0, nc.{NV}[p, b]) for p in range(tc.max_features) for b in range(tc.max_n_bins)))")
define("key_clf", ["nc", "tc", "f", "b", "c"], "nc.y_sum[f, b, c] / RSUM(nc.y_sum[f, b], 0, tc.n_classes)")
define("key_reg", ["nc", "tc", "f", "b", "c"], "nc.y_sum[f, b]")
for _m in ("clf", "reg"):
    define("sorted_" + _m, ["nc", "tc", "f", "O", "m", "c"],
           f"all(trig(implies(p < q, key_{_m}(nc, tc, f, O[p], c) <= key_{_m}(nc, tc, f, O[q], c)), O[p], O[q]) for p in range(m) for q in range(m))")
    # g is at least the gain of every admissible prefix of some ordering of the occupied bins by the key of class c
    define("catopt_" + _m, ["tc", "nc", "f", "c", "g"],
           f"any(trig(dlist(O, nc.{NEC}[f], tc.max_n_bins) and covers(nc.{NT}[f], O, nc.{NEC}[f], tc.max_n_bins) and sorted_{_m}(nc, tc, f, O, nc.{NEC}[f], c)"
           f" and q_n(nc, f, O, nc.{NEC}[f]) == nc.n_samples_train"
           f" and all(trig(implies(0 <= O[q] and q_adm(tc, nc, f, O, q + 1, q_v(nc, f, O, q + 1)), g >= q_gp_{_m}(tc, nc, f, O, q + 1)), O[q]) for q in range(nc.{NEC}[f])),"
           f" q_n(nc, f, O, nc.{NEC}[f])) for O in List)")
    # ... of every admissible threshold at an occupied bin
    define("numopt_" + _m, ["tc", "nc", "f", "g"],
           f"all(trig(implies(nc.{NT}[f, b] > 0 and q_adm(tc, nc, f, IDL, b + 1, q_v(nc, f, IDL, b + 1)), g >= q_gp_{_m}(tc, nc, f, IDL, b + 1)), nc.{NT}[f, b])"
           " for b in range(tc.max_n_bins))")
    define("numrep_" + _m, ["tc", "nc", "f", "best"],
           f"q_rep_{_m}(tc, nc, f, IDL, best.bin_threshold + 1, q_v(nc, f, IDL, best.bin_threshold + 1), best)")
    define("catrep_" + _m, ["tc", "nc", "f", "best"], own(_m, "best", "f", "tc", "nc"))
# ... of every candidate of the feature examined in row f
define("featopt_clf", ["tc", "nc", "f", "feature", "g"],
       "implies(not tc.is_categorical[feature], numopt_clf(tc, nc, f, g))"
       " and implies(tc.is_categorical[feature] and tc.cat_split_strategy == SPLIT_STRATEGY_ALL,"
       " all(trig(implies(0 <= c and c < tc.n_classes and RSUM2(nc.y_sum[f], c, 0, 0) == 0, catopt_clf(tc, nc, f, c, g)), RSUM2(nc.y_sum[f], c, 0, 0)) for c in Int))"
       " and implies(tc.is_categorical[feature] and tc.cat_split_strategy == SPLIT_STRATEGY_BINARY, catopt_clf(tc, nc, f, (1 if tc.n_classes > 1 else 0), g))"
       " and implies(tc.is_categorical[feature], any(trig(0 <= c and c < tc.n_classes and RSUM2(nc.y_sum[f], c, 0, 0) == 0 and catopt_clf(tc, nc, f, c, g), RSUM2(nc.y_sum[f], c, 0, 0)) for c in Int))")
define("featopt_reg", ["tc", "nc", "f", "feature", "g"],
       "implies(not tc.is_categorical[feature], numopt_reg(tc, nc, f, g)) and implies(tc.is_categorical[feature], catopt_reg(tc, nc, f, 0, g))")
# the stored candidate: a duplicate-free list of occupied bins of row f, one of which is the threshold
define("listed", ["tc", "nc", "f", "best"],
       f"best.bins_count == nc.{NEC}[f] and dlist(best.bins, best.bins_count, tc.max_n_bins) and inb(best.bins, 0, best.bins_count, best.bin_threshold)")


def found(m, old, feat, f, best="best_split", tc="tree_context", nc="node_context"):
    """statements about the best split after features were examined"""
    g, g0 = f"{best}.gain_proxy", f"{old}({best}.gain_proxy)"
    up = lambda x: f"implies({g} > {g0}, {x})"
    return [f"{g} >= {g0}", f"isinf({g}) <= 0", f"implies({g} == {g0}, {kept(best, old)})",
            up(f"{best}.found_split and isinf({g}) == 0 and mins_ok({best}, {tc})")]


def along(m):
    tc, nc, f, best = "tree_context", "node_context", "f", "best_split"
    up = lambda x: f"implies({best}.gain_proxy > old({best}.gain_proxy), {x})"
    CAT = f"{tc}.is_categorical[feature]"
    out = found(m, "old", "feature", "f")
    out += [up(f"{best}.feature == feature and iff({best}.is_split_categorical, {CAT}) and listed({tc}, {nc}, f, {best})"),
            up(f"implies(not {CAT}, numrep_{m}({tc}, {nc}, f, {best}))"), up(f"implies({CAT}, catrep_{m}({tc}, {nc}, f, {best}))"),
            f"implies(not {CAT}, numopt_{m}({tc}, {nc}, f, {best}.gain_proxy))"]
    return out[:-1] + [f"featopt_{m}({tc}, {nc}, f, feature, {best}.gain_proxy)"]


def feature_loops(m, first):
    """the two loops that count the validation samples up to each occupied training bin"""
    tc, nc = "tree_context", "node_context"
    V = f"{nc}.{NV}[f]"
    outer = Loop(counter="kb", inv=[
        "idx_valid <= len(bins_valid)", f"cum_valid_left == PSUMI({V}, bins_valid, 0, idx_valid)",
        "implies(idx_valid < len(bins_valid), bin_test == bins_valid[idx_valid])",
        "implies(idx_valid > 0, kb > 0 and bins_valid[idx_valid - 1] <= bins_train[kb - 1])",
        f"all(trig(cumsum_samples_valid_left[bins_train[q]] == PSUMI({V}, IDL, 0, bins_train[q] + 1), bins_train[q]) for q in range(kb))"],
        pre=[f"typed({nc}.{NV})", ("assert", f"dlist(bins_valid, len(bins_valid), {tc}.max_n_bins)"),
             ("assert", f"all(trig(implies(p < q, bins_valid[p] < bins_valid[q]), bins_valid[p], bins_valid[q]) for p in range(len(bins_valid)) for q in range(len(bins_valid)))"),
             ("assert", f"all(trig(implies(p < q, bins_train[p] < bins_train[q]), bins_train[p], bins_train[q]) for p in range(len(bins_train)) for q in range(len(bins_train)))"),
             ("assert", f"covers({V}, bins_valid, len(bins_valid), {tc}.max_n_bins)")],
        facts=[f"L_cut_PSUMI({V}, bins_valid, len(bins_valid), {tc}.max_n_bins, idx_valid, bin_train + 1)",
               ("assert", f"cum_valid_left == PSUMI({V}, IDL, 0, bin_train + 1)")])
    inner = Loop(inv=[
        "idx_valid <= len(bins_valid)", f"cum_valid_left == PSUMI({V}, bins_valid, 0, idx_valid)",
        "implies(idx_valid < len(bins_valid), bin_test == bins_valid[idx_valid])",
        "implies(idx_valid > 0, bins_valid[idx_valid - 1] <= bin_train)"],
        head=[f"unfold(PSUMI({V}, bins_valid, 0, idx_valid + 1))", f"L_nonneg_PSUMI({V}, bins_valid, 0, idx_valid)",
              ("assert", f"dlist(bins_valid, idx_valid + 1, {tc}.max_n_bins)"), ("assert", f"PSUMI({V}, bins_valid, 0, idx_valid + 1) <= {nc}.n_samples_valid"),
              ("assert", f"PSUMI({V}, bins_valid, 0, idx_valid) >= 0")],
        decreases="len(bins_valid) - idx_valid")
    return {first: outer, first + 1: inner}


def tolist(m, O, cond):
    """numerical features: the first q + 1 occupied bins are the bins up to the q-th occupied one"""
    tc, nc = "tree_context", "node_context"
    n, B = f"len({O})", f"{tc}.max_n_bins"
    a, b = f"{nc}, f, {O}, q + 1", f"{nc}, f, IDL, {O}[q] + 1"
    rng = f"for q in range({n}))"
    rs = [WT] + (["y_sum", "y_sq_sum"] if m == "reg" else [])
    out = [f"all(trig(implies({cond}, L_prefix_PSUMI({nc}.{NT}[f], {O}, {n}, {B}, q)), {O}[q]) {rng}"]
    out += [f"all(trig(implies({cond}, L_prefix_PSUMR({nc}.{x}[f], {O}, {n}, {B}, q)), {O}[q]) {rng}" for x in rs]
    eq = lambda F: f"{F}({a}) == {F}({b})"
    out += [("assert", f"all(trig(implies({cond}, {eq('q_n')} and {eq('q_w')}), {O}[q]) {rng}")]
    t = lambda F: f"{F}({tc}, {a}) == {F}({tc}, {b})"
    if m == "clf":
        Y, C = f"{nc}.y_sum[f]", f"{tc}.n_classes"
        jr = f"for j in range(1, {n} + 1)"
        out.append(f"all(trig(implies({cond}, L_prefix_PSUM2({Y}, c, {O}, {n}, {B}, j - 1)), PSUM2({Y}, c, {O}, 0, j)) {jr} for c in range({C}))")
        out.append(("assert", f"all(trig(implies({cond}, PSUM2({Y}, c, {O}, 0, j) == PSUM2({Y}, c, IDL, 0, {O}[j - 1] + 1)), PSUM2({Y}, c, {O}, 0, j)) {jr} for c in range({C}))"))
        w, wr = f"q_w({a})", f"DIFF({nc}.w_samples_train, q_w({a}))"
        for F, e1, e2 in (("RSQL", "", ""), ("RSQR", f", {B}", f", {B}"), ("ENTL", f", {w}", f", {w}"), ("ENTR", f", {B}, {wr}", f", {B}, {wr}")):
            out.append(f"all(trig(implies({cond}, L_same_{F}({Y}, {O}, q + 1, IDL, {O}[q] + 1{e1}, {C})), {O}[q]) {rng}")
            out.append(("assert", f"all(trig(implies({cond}, {F}({Y}, {O}, q + 1{e1}, 0, {C}) == {F}({Y}, IDL, {O}[q] + 1{e2}, 0, {C})), {O}[q]) {rng}"))
    out += [("assert", f"all(trig(implies({cond}, {t(x)}), {O}[q]) {rng}") for x in (f"q_il_{m}", f"q_ir_{m}", f"q_gp_{m}")]
    return out


_CAT = "tree_context.is_categorical[feature]"
_REQ = lambda m: [f"nc_{m}_ok(node_context, tree_context)", "tot_ok(node_context, tree_context)", f"zero_{m}(node_context, tree_context)",
                  "lists_ok(node_context, tree_context)", "novalid(node_context, tree_context)", "1 <= tree_context.min_samples_leaf",
                  "len(tree_context.is_categorical) == tree_context.n_features", "0 <= node_context.n_samples_train and 0 <= node_context.n_samples_valid",
                  "len(best_split.bins) == tree_context.max_n_bins", "isinf(best_split.gain_proxy) <= 0"] + (
                  ["1 <= tree_context.n_classes and tree_context.n_classes <= 281474976710656",
                   "len(best_split.y_sum_left) == tree_context.n_classes", "len(best_split.y_sum_right) == tree_context.n_classes"] if m == "clf" else [])
_BT = f"node_context.{NT}[f]"
_pre_order = [f"typed(node_context.{NT})", f"typed(node_context.{NV})",
              ("assert", "order_ok(bins_train, tree_context.max_n_bins)"),
              ("assert", f"dlist(bins_train, len(bins_train), tree_context.max_n_bins)"),
              ("assert", f"covers({_BT}, bins_train, len(bins_train), tree_context.max_n_bins)"),
              ("assert", f"q_n(node_context, f, bins_train, len(bins_train)) == node_context.n_samples_train"),
              f"implies(not tree_context.aggregation, all(trig(L_zero_PSUMI(node_context.{NV}[f], bins_train, 0, q), q_v(node_context, f, bins_train, q)) for q in Int))",
              "implies(not tree_context.aggregation, all(trig(L_zero_PSUMI(node_context.%s[f], IDL, 0, q), q_v(node_context, f, IDL, q)) for q in Int))" % NV,
              f"implies(not tree_context.is_categorical[feature], all(trig(implies(bins_train[p] <= bins_train[q], L_split_PSUMI(node_context.{NV}[f], IDL, 0, bins_train[p] + 1, bins_train[q] + 1)"
              f" and L_nonneg_PSUMI(node_context.{NV}[f], IDL, bins_train[p] + 1, bins_train[q] + 1)), bins_train[p], bins_train[q])"
              " for p in range(len(bins_train)) for q in range(len(bins_train))))"]
_sorted = [x for c in ("mod", "(1 if tree_context.n_classes > 1 else 0)", "last_randint") for x in (
    ("assert", "implies(%s, sorted_clf(node_context, tree_context, f, bins_train, len(bins_train), %s))" % (
        f"{{CAT}} and tree_context.cat_split_strategy == SPLIT_STRATEGY_BINARY".replace("{CAT}", "tree_context.is_categorical[feature]") if c.startswith("(")
        else "tree_context.is_categorical[feature]", c)),
    f"unfold(RSUM2(node_context.y_sum[f], {c}, 0, 0))")]
_up = "best_split.gain_proxy > old(best_split.gain_proxy)"
reg(Contract(
    "_split.find_best_split_classifier_along_feature",
    requires=_REQ("clf") + ["feature < tree_context.n_features", "f < tree_context.max_features"],
    ensures=along("clf"),
    before={"try_feature_order_for_classifier_split": _pre_order + _sorted},
    after={"try_feature_order_for_classifier_split": [("assert", f"implies({_CAT}, all(trig(implies(0 <= bins_train[q] and q_adm(tree_context, node_context, f, bins_train, q + 1, q_v(node_context, f, bins_train, q + 1)),"
           f" best_split.gain_proxy >= q_gp_clf(tree_context, node_context, f, bins_train, q + 1)), bins_train[q]) for q in range(node_context.{NEC}[f])))")]},
    loops={0: Loop(counter="mod_k", inv=found("clf", "old", "feature", "f") + [
        f"implies({_up}, best_split.feature == feature and iff(best_split.is_split_categorical, {_CAT}) and listed(tree_context, node_context, f, best_split))",
        f"implies({_up}, catrep_clf(tree_context, node_context, f, best_split))",
        "all(trig(implies(0 <= c and c < mod_k and RSUM2(node_context.y_sum[f], c, 0, 0) == 0, catopt_clf(tree_context, node_context, f, c, best_split.gain_proxy)), RSUM2(node_context.y_sum[f], c, 0, 0)) for c in Int)"]),
        **feature_loops("clf", 1)},
    exit_facts=["unfold(RSUM2(node_context.y_sum[f], 0, 0, 0))"] + tolist("clf", "bins_train", f"not {_CAT}"),
    modifies=MODS_CLF))

_rq, _tp, _lp = _cand("reg", "bins_train", _CAT, "cumsum_samples_valid_left")
_cu = lambda m: [("assert", f"implies({_CAT}, all(trig(implies(0 <= bins_train[q] and q_adm(tree_context, node_context, f, bins_train, q + 1, q_v(node_context, f, bins_train, q + 1)),"
                 f" best_split.gain_proxy >= q_gp_{m}(tree_context, node_context, f, bins_train, q + 1)), bins_train[q]) for q in range(node_context.{NEC}[f])))")]
_lp.join = _pre_order + [("assert", f"all(trig(implies({_BT}[b] > 0, inb(bins_train, 0, len(bins_train), b)), {_BT}[b]) for b in range(tree_context.max_n_bins))"),
                         ("assert", f"implies({_CAT}, sorted_reg(node_context, tree_context, f, bins_train, len(bins_train), 0))"),
                         ("assert", f"implies(not {_CAT}, all(trig(implies(p < q, bins_train[p] < bins_train[q]), bins_train[p], bins_train[q]) for p in range(len(bins_train)) for q in range(len(bins_train))))"),
                         ("assert", f"implies(not {_CAT}, all(trig(cumsum_samples_valid_left[bins_train[q]] == q_v(node_context, f, IDL, bins_train[q] + 1), bins_train[q]) for q in range(len(bins_train))))")] \
    + [("assert", x) for x in _rq]
_lp.exit = _lp.exit + _cu("reg")
reg(Contract(
    "_split.find_best_split_regressor_along_feature",
    requires=_REQ("reg") + ["feature < tree_context.n_features", "f < tree_context.max_features"],
    ensures=along("reg"),
    loops={**feature_loops("reg", 0), 2: _lp},
    exit_facts=relist("reg", "bins_train", "best_split.bins", _up) + tolist("reg", "bins_train", f"not {_CAT}"),
    modifies=MODS_REG))

# ---- the split object
_RESET = ["bins_count", "feature", "bin_threshold", "bin_partition_size", "n_samples_train_left", "w_samples_train_left", "n_samples_train_right",
          "w_samples_train_right", "n_samples_valid_left", "n_samples_valid_right", "w_samples_valid_left", "w_samples_valid_right",
          "impurity_left", "impurity_right"]
_ENS0 = lambda s: ([f"{s}.{x} == 0" for x in _RESET] + [f"not {s}.found_split and not {s}.is_split_categorical", f"isinf({s}.gain_proxy) == -1",
                   f"all(trig({s}.bins[p] == 0, {s}.bins[p]) for p in range(len({s}.bins)))",
                   f"all(trig({s}.bin_partition[p] == 0, {s}.bin_partition[p]) for p in range(len({s}.bin_partition)))"])
_V2 = [dict(name="clf", sig=0), dict(name="reg", sig=1)]
_MODR = [f"split.{x}" for x in _RESET + ["found_split", "is_split_categorical", "gain_proxy"]] + ["split.bins[*]", "split.bin_partition[*]"]
reg(Contract("_split.reset_split", variants=_V2, ensures=_ENS0("split"), modifies=_MODR))

define("left_of", ["best"],
       "1 <= best.bin_partition_size and best.bin_partition_size <= best.bins_count and best.bins[best.bin_partition_size - 1] == best.bin_threshold"
       " and all(trig(implies(p <= q, best.bin_partition[p] <= best.bin_partition[q]), best.bin_partition[p], best.bin_partition[q])"
       " for p in range(best.bin_partition_size) for q in range(best.bin_partition_size))"
       " and all(trig(iff(inb(best.bin_partition, 0, best.bin_partition_size, b), inb(best.bins, 0, best.bin_partition_size, b)),"
       " inb(best.bin_partition, 0, best.bin_partition_size, b)) for b in Int)")
reg(Contract(
    "_split.compute_bin_partition", variants=_V2,
    requires=["1 <= best_split.bins_count and best_split.bins_count <= len(best_split.bins) and len(best_split.bin_partition) == len(best_split.bins)",
              "inb(best_split.bins, 0, best_split.bins_count, best_split.bin_threshold)"],
    ensures=["left_of(best_split)"],
    modifies=["best_split.bin_partition[*]", "best_split.bin_partition_size"],
    loops={0: Loop(inv=["0 <= idx_bin and idx_bin < bins_count", "left_partition_size == idx_bin + 1", "bin_ == bins[idx_bin]",
                        "all(trig(best_split.bins[p] != bin_threshold, best_split.bins[p]) for p in range(idx_bin))"],
                   decreases="bins_count - idx_bin")}))


# ---- over the candidate features of a node
define("row_ok", ["tc", "nc", "f", "best"],
       "listed(tc, nc, f, best) and implies(not best.is_split_categorical, numrep(tc, nc, f, best)) and implies(best.is_split_categorical, catrep(tc, nc, f, best))")
define("chosen", ["tc", "nc", "best", "n"],
       "iff(best.found_split, isinf(best.gain_proxy) == 0) and isinf(best.gain_proxy) <= 0"
       " and implies(best.found_split, mins_ok(best, tc) and inb(nc.features_sampled, 0, n, best.feature) and best.feature < tc.n_features"
       " and iff(best.is_split_categorical, tc.is_categorical[best.feature]))"
       " and all(trig(implies(best.found_split and nc.features_sampled[p] == best.feature, row_ok(tc, nc, p, best)), nc.features_sampled[p]) for p in range(n))"
       " and all(trig(featopt(tc, nc, p, nc.features_sampled[p], best.gain_proxy), nc.features_sampled[p]) for p in range(n))")


def _fns(k, K):
    t = lambda n: Ty("obj", n)
    return dict(name=k, fparams={"find_best_split_along_feature": f"_split.find_best_split_{K.lower()}_along_feature"},
                params={"tree_context": t(f"Tree{K}Context"), "node_context": t(f"Node{K}Context"), "best_split": t(f"Split{K}"),
                        "find_best_split_along_feature": Ty("fun", "find_best_split_along_feature")},
                requires=[])


define("search_req_clf", ["tc", "nc", "best"],
       "1 <= tc.n_classes and tc.n_classes <= 281474976710656 and len(best.y_sum_left) == tc.n_classes and len(best.y_sum_right) == tc.n_classes"
       " and nc_clf_ok(nc, tc) and zero_clf(nc, tc)")
define("search_req_reg", ["tc", "nc", "best"], "nc_reg_ok(nc, tc) and zero_reg(nc, tc)")
reg(Contract(
    "_split.find_node_split", slim=["node_context.non_empty_bins_train", "node_context.non_empty_bins_valid"], variants=[_fns("clf", "Classifier"), _fns("reg", "Regressor")], ret=Ty("void", "void"),
    requires=["search_req(tree_context, node_context, best_split)", "tot_ok(node_context, tree_context)", "lists_ok(node_context, tree_context)",
              "novalid(node_context, tree_context)", "1 <= tree_context.min_samples_leaf",
              "len(tree_context.is_categorical) == tree_context.n_features", "0 <= node_context.n_samples_train and 0 <= node_context.n_samples_valid",
              "len(best_split.bins) == tree_context.max_n_bins and len(best_split.bin_partition) == tree_context.max_n_bins"],
    ensures=["chosen(tree_context, node_context, best_split, tree_context.max_features)",
             "implies(best_split.found_split and best_split.is_split_categorical, left_of(best_split))",
             "best_split.bin_partition_size <= len(best_split.bin_partition)"],
    modifies=list(dict.fromkeys([m.replace("split.", "best_split.", 1) for m in _MODR] + MODS))
    + [f"clf:best_split.{x}[*]" for x in ("y_sum_left", "y_sum_right")] + [f"reg:best_split.{x}" for x in ("y_sum_left", "y_sum_right", "y_sq_sum_left", "y_sq_sum_right")],
    loops={0: Loop(counter="fk", inv=["chosen(tree_context, node_context, best_split, fk)", "best_split.bin_partition_size == 0"],
                   head=[f"typed(node_context.{NT})",
                         ("assert", f"dlist(node_context.{NE}[fk], node_context.{NEC}[fk], tree_context.max_n_bins)"),
                         ("assert", f"covers(node_context.{NT}[fk], node_context.{NE}[fk], node_context.{NEC}[fk], tree_context.max_n_bins)"),
                         ("assert", f"q_n(node_context, fk, node_context.{NE}[fk], node_context.{NEC}[fk]) == node_context.n_samples_train"),
                         f"L_prefix_PSUMI(node_context.{NT}[fk], node_context.{NE}[fk], node_context.{NEC}[fk], tree_context.max_n_bins, 0)",
                         ("clf", "unfold(RSUM2(node_context.y_sum[fk], 0, 0, 0))"),
                         ("assert", f"implies(node_context.{NEC}[fk] == 1, q_n(node_context, fk, IDL, node_context.{NE}[fk, 0] + 1) == node_context.n_samples_train)")])}))
