"""Small kernels: bin lookup, numeric binning, impurities, gains, log-sum-exp, feature sampling."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

I64, U64, F64 = Ty("int", "int64"), Ty("int", "uint64"), Ty("float", "float64")

define("sorted_strict", ["a", "n"], "all(trig(implies(p < q, a[p] < a[q]), a[p], a[q]) for p in range(n) for q in range(n))")

# ---- membership in a (sorted) set of bins ------------------------------------------------
reg(Contract(
    "_split.is_bin_in_partition",
    requires=["len(bin_partition) >= 1",
              "all(trig(implies(p <= q, bin_partition[p] <= bin_partition[q]), bin_partition[p], bin_partition[q])"
              " for p in range(len(bin_partition)) for q in range(len(bin_partition)))"],
    ensures=["iff(result, inb(bin_partition, 0, len(bin_partition), bin_))"],
    loops={0: Loop(inv=["0 <= left", "left <= len(bin_partition)", "-1 <= right", "right < len(bin_partition)",
                        "left <= right + 1",
                        "all(implies(p < left, bin_partition[p] < bin_) for p in range(len(bin_partition)))",
                        "all(implies(p > right, bin_partition[p] > bin_) for p in range(len(bin_partition)))"],
                   decreases="right - left + 1")},
))

# ---- thresholds of a numerical column
_c64 = Ty("arr", "", Ty("float", "float64"), 1)
reg(Contract(
    "_binning._find_binning_thresholds", nan=True, observed=True, params={"max_bins": Ty("int", "int64")}, ret=_c64,
    variants=[dict(name=n, params={"col": t, "col_is_pandas_series": Ty("const", f)}) for n, t, f in (("array", _c64, "False"), ("series", Ty("series", "", _c64), "True"))],
    requires=["3 <= max_bins and max_bins <= 281474976710656"],
    ensures=["len(result) <= max_bins - 1", "all(not isnan(result[p]) for p in range(len(result)))",
             "all(trig(implies(p <= q, result[p] <= result[q]), result[p], result[q]) for p in range(len(result)) for q in range(len(result)))",
             "all(result[p] <= 1e300 for p in range(len(result)))"],
    # (the number of distinct values is the length numpy.unique reports)
    exit_facts=[("assert", "implies(n_unique <= max_bins, all(trig(implies(unique_in[i] < unique_in[j] and unique_in[i] <= 1e300, unique_in[i] <= result[unique_at[i]]"
                 " and result[unique_at[i]] < unique_in[j] and 0 <= unique_at[i] and unique_at[i] < len(result)), unique_in[i], unique_in[j]) for i in range(len(unique_in)) for j in range(len(unique_in))))"),
                ("assert", "implies(n_unique <= max_bins, all(implies(not isnan(in_col[i]) and not isnan(in_col[j]) and in_col[i] < in_col[j] and in_col[i] <= 1e300,"
                 " any(in_col[i] <= result[t] and result[t] < in_col[j] for t in range(len(result)))) for i in range(len(in_col)) for j in range(len(in_col))))")],
    modifies=[]))

# ---- numeric binning ---------------------------------------------------------------------
_col = Ty("arr", "", F64, 1)
reg(Contract(
    "_binning._bin_continuous_column", nan=True,
    params={"col": _col, "binning_thresholds": _col, "missing_values_bin": U64,
            "binned_col": Ty("arr", "", U64, 1)},
    ret=Ty("void", "void"),
    requires=["len(binned_col) == len(col)",
              "all(not isnan(binning_thresholds[p]) for p in range(len(binning_thresholds)))",
              "all(trig(implies(p <= q, binning_thresholds[p] <= binning_thresholds[q]), binning_thresholds[p], binning_thresholds[q])"
              " for p in range(len(binning_thresholds)) for q in range(len(binning_thresholds)))"],
    ensures=[
        "all(implies(isnan(col[i]), binned_col[i] == missing_values_bin) for i in range(len(col)))",
        "all(implies(not isnan(col[i]), 0 <= binned_col[i] and binned_col[i] <= len(binning_thresholds)) for i in range(len(col)))",
        "all(implies(not isnan(col[i]) and t < binned_col[i], binning_thresholds[t] < col[i])"
        " for i in range(len(col)) for t in range(len(binning_thresholds)))",
        "all(implies(not isnan(col[i]) and t >= binned_col[i], col[i] <= binning_thresholds[t])"
        " for i in range(len(col)) for t in range(len(binning_thresholds)))",
    ],
    modifies=["binned_col[*]"],
    loops={
        0: Loop(counter="n", inv=[
            "all(implies(isnan(col[i]), binned_col[i] == missing_values_bin) for i in range(n))",
            "all(implies(not isnan(col[i]), 0 <= binned_col[i] and binned_col[i] <= len(binning_thresholds)) for i in range(n))",
            "all(implies(not isnan(col[i]) and t < binned_col[i], binning_thresholds[t] < col[i])"
            " for i in range(n) for t in range(len(binning_thresholds)))",
            "all(implies(not isnan(col[i]) and t >= binned_col[i], col[i] <= binning_thresholds[t])"
            " for i in range(n) for t in range(len(binning_thresholds)))"]),
        1: Loop(inv=["0 <= left", "left <= right", "right <= len(binning_thresholds)",
                     "all(implies(t < left, binning_thresholds[t] < col[i]) for t in range(len(binning_thresholds)))",
                     "all(implies(t >= right, col[i] <= binning_thresholds[t]) for t in range(len(binning_thresholds)))"],
                decreases="right - left"),
    },
))

# ---- impurities --------------------------------------------------------------------------
reg(Contract("_impurity.information_gain_proxy",
             ensures=["result == -(w_samples_left * impurity_left) - w_samples_right * impurity_right",
                      "result == GAINP(w_samples_left, impurity_left, w_samples_right, impurity_right)"],
             exit_facts=["D_GAINP(w_samples_left, impurity_left, w_samples_right, impurity_right)"]))
reg(Contract("_impurity.information_gain", requires=["w_samples > 0", "w_samples_parent > 0"],
             ensures=["result == (w_samples_parent / w_samples) * (impurity_parent - (w_samples_right / w_samples_parent) * impurity_right"
                      " - (w_samples_left / w_samples_parent) * impurity_left)"]))
reg(Contract("_impurity.gini_node", requires=["w_samples > 0", "n_classes <= len(y_sum)"],
             ensures=["result == 1 - RSQ(y_sum, 0, n_classes) / (w_samples * w_samples)"],
             loops={0: Loop(counter="k0", inv=["y_sum_sq == RSQ(y_sum, 0, k0)"],
                            facts=["unfold(RSQ(y_sum, 0, k0 + 1))"])},
             entry_facts=["unfold(RSQ(y_sum, 0, 0))"]))
for _n, _pre in (("gini", ""),):
    reg(Contract("_impurity.gini_childs",
                 requires=["w_samples_left > 0", "w_samples_right > 0", "n_classes >= 0", "n_classes == toint(n_classes)",
                           "n_classes <= len(y_sum_left)", "n_classes <= len(y_sum_right)"],
                 ensures=["result[0] == 1 - RSQ(y_sum_left, 0, toint(n_classes)) / (w_samples_left * w_samples_left)",
                          "result[1] == 1 - RSQ(y_sum_right, 0, toint(n_classes)) / (w_samples_right * w_samples_right)",
                          "result[0] == GINI(RSQ(y_sum_left, 0, toint(n_classes)), w_samples_left)",
                          "result[1] == GINI(RSQ(y_sum_right, 0, toint(n_classes)), w_samples_right)"],
                 exit_facts=["D_GINI(RSQ(y_sum_left, 0, toint(n_classes)), w_samples_left)",
                             "D_GINI(RSQ(y_sum_right, 0, toint(n_classes)), w_samples_right)"],
                 loops={0: Loop(counter="k0", inv=["y_sum_left_sq == RSQ(y_sum_left, 0, k0)", "y_sum_right_sq == RSQ(y_sum_right, 0, k0)"],
                                facts=["unfold(RSQ(y_sum_left, 0, k0 + 1))", "unfold(RSQ(y_sum_right, 0, k0 + 1))"])},
                 entry_facts=["unfold(RSQ(y_sum_left, 0, 0))", "unfold(RSQ(y_sum_right, 0, 0))"]))
reg(Contract("_impurity.entropy_node",
             requires=["w_samples > 0", "n_classes <= len(y_sum)"],
             ensures=["result == ENT(y_sum, w_samples, 0, n_classes)"],
             loops={0: Loop(counter="k0", inv=["entropy == ENT(y_sum, w_samples, 0, k0)"], facts=["unfold(ENT(y_sum, w_samples, 0, k0 + 1))"])},
             entry_facts=["unfold(ENT(y_sum, w_samples, 0, 0))"]))
reg(Contract("_impurity.entropy_childs",
             requires=["w_samples_left > 0", "w_samples_right > 0", "n_classes >= 0", "n_classes == toint(n_classes)",
                       "n_classes <= len(y_sum_left)", "n_classes <= len(y_sum_right)"],
             ensures=["result[0] == ENT(y_sum_left, w_samples_left, 0, toint(n_classes))",
                      "result[1] == ENT(y_sum_right, w_samples_right, 0, toint(n_classes))"],
             loops={0: Loop(counter="k0", inv=["entropy_left == ENT(y_sum_left, w_samples_left, 0, k0)",
                                               "entropy_right == ENT(y_sum_right, w_samples_right, 0, k0)"],
                            facts=["unfold(ENT(y_sum_left, w_samples_left, 0, k0 + 1))", "unfold(ENT(y_sum_right, w_samples_right, 0, k0 + 1))"])},
             entry_facts=["unfold(ENT(y_sum_left, w_samples_left, 0, 0))", "unfold(ENT(y_sum_right, w_samples_right, 0, 0))"]))
reg(Contract("_impurity.mse_node", requires=["w_samples > 0"],
             ensures=["result == y_sq_sum / w_samples - (y_sum / w_samples) * (y_sum / w_samples)"]))
reg(Contract("_impurity.mse_childs", requires=["w_samples_left > 0", "w_samples_right > 0"],
             ensures=["result[0] == y_sq_sum_left / w_samples_left - (y_sum_left / w_samples_left) * (y_sum_left / w_samples_left)",
                      "result[1] == y_sq_sum_right / w_samples_right - (y_sum_right / w_samples_right) * (y_sum_right / w_samples_right)",
                      "result[0] == MSE(y_sq_sum_left, y_sum_left, w_samples_left)", "result[1] == MSE(y_sq_sum_right, y_sum_right, w_samples_right)"],
             exit_facts=["D_MSE(y_sq_sum_left, y_sum_left, w_samples_left)", "D_MSE(y_sq_sum_right, y_sum_right, w_samples_right)"]))

# ---- aggregation -------------------------------------------------------------------------
reg(Contract("_utils.log_sum_2_exp",
             ensures=["exp(result) == (exp(a) + exp(b)) / 2", "result == log((exp(a) + exp(b)) / 2)"],
             exit_facts=["expadd(a, b - a)", "expadd(b, a - b)",
                         "expadd(a, log((1 + exp(b - a)) / 2))", "expadd(b, log((1 + exp(a - b)) / 2))",
                         ("assert", "exp(result) == (exp(a) + exp(b)) / 2")]))

# ---- feature sampling --------------------------------------------------------------------
# pool entries stay pairwise distinct features; the drawn ones leave the pool's live part
reg(Contract("_utils.sample_without_replacement",
             requires=["len(out) <= len(pool)", "not same(pool, out)"],
             ensures=["all(0 <= out[p] and out[p] < len(pool) for p in range(len(out)))",
                      "all(trig(implies(p < q, out[p] != out[q]), out[p], out[q]) for p in range(len(out)) for q in range(len(out)))"],
             modifies=["pool[*]", "out[*]"],
             loops={0: Loop(counter="n0", inv=["all(pool[p] == p for p in range(n0))"]),
                    1: Loop(counter="n1", inv=[
                        "all(0 <= pool[p] and pool[p] < population_size for p in range(population_size - n1))",
                        "all(trig(implies(p < q, pool[p] != pool[q]), pool[p], pool[q]) for p in range(population_size - n1) for q in range(population_size - n1))",
                        "all(0 <= out[p] and out[p] < population_size for p in range(n1))",
                        "all(trig(implies(p < q, out[p] != out[q]), out[p], out[q]) for p in range(n1) for q in range(n1))",
                        "all(trig(pool[p] != out[q], pool[p], out[q]) for p in range(population_size - n1) for q in range(n1))"])}))
