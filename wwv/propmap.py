"""Which contracts decide which property, and what is left outside the verifier."""
import re
from .contracts import load

from .contracts_py import PY

_CONS, _ = load()
FB = ["features_bitarray." + x for x in (
    "get_value_from_column", "_features_bitarray_fill_column", "FeaturesBitArray.__init__", "_features_bitarray_fill_values",
    "get_value", "_features_bitarray_to_array", "features_bitarray_fill_column", "array_to_bitarray",
    "features_bitarray_to_array")]
IMP = ["_impurity." + x for x in ("gini_node", "gini_childs", "entropy_node", "entropy_childs", "mse_node", "mse_childs",
                                  "information_gain", "information_gain_proxy")]
CTX = ["_node.compute_node_classifier_context", "_node.compute_node_regressor_context"]
CTXINIT = ["_tree_context.TreeClassifierContext.__init__", "_tree_context.TreeRegressorContext.__init__",
           "_tree_context.init_tree_context", "_node.NodeClassifierContext.__init__", "_node.NodeRegressorContext.__init__",
           "_node.init_node_context"]
SPLITOBJ = ["_split.SplitClassifier.__init__", "_split.SplitRegressor.__init__", "_split.reset_split", "_split.copy_split"]
SEARCH = ["_split.try_feature_order_for_classifier_split", "_split.find_best_split_classifier_along_feature",
          "_split.find_best_split_regressor_along_feature", "_split.find_node_split", "_split.compute_bin_partition"]
TREE = ["_utils.resize", "_utils.resize2d", "_tree.resize_tree_", "_tree.resize_tree", "_tree.resize_tree_bin_partitions_",
        "_tree.resize_tree_bin_partitions", "_tree.add_node_tree"]
STACK = ["_grow.Records.__init__", "_grow.push_record", "_grow.has_records", "_grow.pop_node_record"]
GROW = ["_grow.grow"]
ROUTE = ["_tree.find_leaf", "_tree.tree_apply"]
FIT = ["tree.TreeClassifier.fit", "tree.TreeRegressor.fit"]
BOOT = ["forest._generate_train_valid_samples", "forest._parallel_build_trees"]
TPRED = ["tree.TreeClassifier.predict_proba", "tree.TreeRegressor.predict"]
COMBINE = ["forest._accumulate_prediction", "forest._get_tree_prediction"]
PRED = ["_tree.tree_classifier_predict_proba", "_tree.tree_regressor_predict", "_tree.tree_regressor_weighted_depth"]

_PLAN = {
    "C01": FB,
    "C02": ["_binning._bin_continuous_column", "_binning._find_binning_thresholds"],
    "C03": [],
    "C04": BOOT + FIT,
    "C05": ["_split.split_indices", "_split.is_bin_in_partition", "_split.compute_bin_partition", "features_bitarray.get_value_from_column",
            "_split.find_node_split"] + SEARCH[:3] + SPLITOBJ[2:] + GROW,
    "C06": GROW + STACK + TREE + ["_split.split_indices"] + FIT,
    "C07": GROW + SEARCH + SPLITOBJ[2:] + FIT + ["forest.ForestBase._get_max_depth_"],
    "C08": ROUTE + ["_split.is_bin_in_partition", "_split.split_indices", "features_bitarray.get_value_from_column"] + GROW + TREE + ["forest._parallel_tree_apply"],
    "C09": CTX + ["features_bitarray.get_value_from_column", "_split.split_indices"] + GROW + TREE + FIT,
    "C10": SEARCH + SPLITOBJ + IMP + CTX + ["_split.split_indices", "_utils.sample_without_replacement"],
    "C11": IMP,
    "C12": ["_utils.log_sum_2_exp", "_grow.compute_tree_weights"] + PRED + TPRED + ["tree.TreeRegressor.weighted_depth", "forest._compute_weighted_depth"] + GROW,
    "C13": PRED + TPRED + COMBINE,
    "C14": ["_grow.compute_tree_weights"] + CTX + ["_grow.recompute_node_predictions", "_utils.log_sum_2_exp", "tree.TreeBase.step=", "tree.TreeClassifier.dirichlet=",
            "forest.ForestBase.step=", "forest.ForestClassifier.dirichlet="],
    "C15": CTX + SEARCH + ROUTE + PRED + TPRED + COMBINE + ["_split.split_indices"],
    "C16": [],
    "C17": BOOT + COMBINE + ["_utils.sample_without_replacement", "forest.ForestBase._get_max_features_", "forest.ForestBase.max_features=", "_split.find_node_split"],
    "C18": [q for q in PY if q.endswith("=") and not q.startswith("tree.")] + [q for q in PY if q.endswith(".__init__")],
    "C19": ["_binning._bin_continuous_column"] + FB + CTXINIT + CTX + SPLITOBJ + SEARCH + ["_split.is_bin_in_partition", "_split.split_indices"]
           + TREE + STACK + GROW + ROUTE + PRED + ["_grow.compute_tree_weights", "_grow.recompute_node_predictions",
                                                  "_utils.sample_without_replacement"] + IMP + FIT + BOOT,
}
PROPS = {p: [q for q in dict.fromkeys(qs) if q in _CONS or q in PY] for p, qs in _PLAN.items()}


def lemmas_for(prop):
    """lemmas whose instances the contracts of this property use"""
    from . import lemmas
    used, todo = set(), [repr(vars_of(_CONS[q])) for q in PROPS[prop] if q in _CONS]
    for t in todo:
        used |= set(re.findall(r"L_(\w+)", t))
    return lemmas.closed(used)


def vars_of(c):
    d = {k: v for k, v in c.__dict__.items() if k != "loops"}
    return d, {k: v.__dict__ for k, v in c.loops.items()}


# functions a property depends on that are outside the verifier: checked with a stated bound by the harness
BOUNDED = {
    "C01": ["features_bitarray: python callers (matrix built by Encoder.transform)"],
    "C02": ["encoder.Encoder.fit / transform (pandas and numpy glue that feeds the two kernels)", "rounding of the midpoint of two adjacent doubles"],
    "C03": ["encoder.Encoder (all of it)", "forest.ForestBase.fit: choice of the categorical columns", "preprocessing.checks", "the whole property"],
    "C04": ["forest.ForestBase.fit: class weights, encoding of y, sample_weight conversion", "numpy bincount / randint / mask selection (modelled)"],
    "C05": ["partitions of fitted forests (audit)"], "C06": ["fitted trees (audit)"], "C07": ["fitted trees (audit); pandas / joblib glue of ForestBase.fit"],
    "C08": ["forest.apply: encoding and assembly of the answer"], "C09": ["fitted trees (audit)"],
    "C10": ["best gain over all candidates of fitted nodes (audit)", "float32 ties between candidates"], "C11": ["float32 rounding of the formulas"],
    "C12": ["float32 evaluation of the weights (underflow, overflow)"],
    "C13": ["forest.predict_proba / predict: division by the number of trees, argmax, one-vs-rest normalisation", "joblib threading"],
    "C14": ["equality with a refit (audit through the public API)"],
    "C15": ["bit-for-bit equality of two fits, n_jobs, pandas / numpy inputs left untouched", "encoder subsampling", "thread schedules other than lock ownership"],
    "C16": ["the whole property (__getstate__ / __setstate__, jitclass serialisation)"],
    "C17": ["fitted forests (audit of the candidate features)"],
    "C18": ["sklearn clone / get_params / set_params", "attributes fixed after fit, through the public API"],
    "C19": ["numba's own array runtime", "float32 to integer casts of values that came from the user"],
}
LEVEL = {p: ("proof" if q else "other") for p, q in PROPS.items()}
TECH_DEFAULT = "contract-based deductive verification (wwv VC generator over the current source, z3/cvc5) with concrete replay on the real code"
TECH = {p: "bounded concrete check of the real code (stand-in: the functions are outside the verifier's reach; nothing is counted as proved)" for p, q in PROPS.items() if not q}
NOTE_DEFAULT = "kernel contracts proved for all inputs over mathematical reals; glue code in python/pandas covered by a bounded concrete check"
NOTE = {
    "C03": "the encoder is pandas / numpy object code no contract of ours reaches: bounded check only, labelled so",
    "C16": "pickling is python reflection over jitclass boxes: bounded check only, labelled so",
    "C14": "recomputation kernels and the setters proved; 'equals a refit' follows because both sides satisfy the same postconditions, and is also checked with a bound",
    "C15": "proved: frames of the prediction and split kernels, ownership of the shared output under the lock, functional dependence on the seed; the rest is bounded",
    "C18": "setters and constructors proved for every python value (type tags, NaN, infinities, foreign objects); fixed-after-fit through the API is bounded",
    "C19": "index, slice, width and division obligations of every kernel under contract, for all shapes up to 2^48",
}
NOT_APPLICABLE = {}
NOTES = "see DESIGN.md"
TRUSTED = ["wwv VC generator (front.py, engine.py, execu.py, spec.py)", "z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2",
           "numba compiles the subset with its documented semantics"]
ASSUME = ["floats are mathematical reals (no rounding, no overflow, no NaN except where a contract models it)",
          "array dimensions are at most 2^48", "arrays passed as different arguments do not overlap unless stated",
          "numpy / pandas calls inside the functions under contract behave as their models in wwv/execu.py state (DESIGN.md, Assumptions)",
          "exp and log: exp > 0, exp(log x) = x, log(exp x) = x, exp(a+b) = exp a exp b, log x <= 0 on (0,1]; sqrt(n)^2 = n, 0 <= log2(n) < n",
          "joblib threads: only the ownership of the shared array under the lock is specified"]
