"""Fitting one tree: the context, node context, split and tree objects grow receives are what its contract asks for."""
from . import reg
from .grow import FIN
from .boot import split_facts
from ..execu import Contract
from ..front import Ty, Program

I64, U8, F64, B = Ty("int", "int64"), Ty("int", "uint8"), Ty("float", "float64"), Ty("bool", "boolean")
_a = lambda t, n="int": Ty("arr", "", Ty(n, t), 1)
_ix, _f32, _bools = _a("uint64"), _a("float32", "float"), Ty("arr", "", B, 1)
_common = dict(random_state=I64, max_features=I64, max_depth=Ty("int", "uint64"), min_samples_split=I64, min_samples_leaf=I64, aggregation=B, _step=F64,
               is_categorical=_bools, criterion=U8, _train_indices=_ix, _valid_indices=_ix)
Program.pyfields["TreeClassifier"] = dict(_common, n_classes=I64, _dirichlet=F64, cat_split_strategy=U8,
                                          _tree_classifier=Ty("obj", "_TreeClassifier"), _tree_classifier_context=Ty("obj", "TreeClassifierContext"))
Program.pyfields["TreeRegressor"] = dict(_common, _tree_regressor=Ty("obj", "_TreeRegressor"), _tree_regressor_context=Ty("obj", "TreeRegressorContext"))
PRE = ["fb_ok(features_bitarray) and fb_vals(features_bitarray)", "1 <= features_bitarray.n_samples and features_bitarray.n_samples <= 281474976710656",
       "1 <= features_bitarray.n_features and features_bitarray.n_features <= 281474976710656",
       "all(trig(features_bitarray.max_values[j] < 281474976710656, features_bitarray.max_values[j]) for j in range(features_bitarray.n_features))",
       "len(y) == features_bitarray.n_samples and len(sample_weights) == features_bitarray.n_samples",
       "part_ok(train_indices, features_bitarray.n_samples) and part_ok(valid_indices, features_bitarray.n_samples) and 1 <= len(train_indices)",
       "implies(self.aggregation, 1 <= len(valid_indices))",
       "all(trig(sample_weights[i] >= 0, sample_weights[i]) for i in range(len(sample_weights)))",
       "1 <= self.max_features and self.max_features <= features_bitarray.n_features", "len(self.is_categorical) == features_bitarray.n_features",
       "1 <= self.min_samples_split and 1 <= self.min_samples_leaf", "0 <= self.random_state and self.random_state <= 2147483647"]
MORE = {}
_MOD = ["self._train_indices", "self._valid_indices"]
for k, K, more in (("clf", "classifier", ["1 <= self.n_classes and self.n_classes <= 281474976710656", "self._dirichlet > 0",
                                          "all(trig(0 <= y[i] and toint(y[i]) < self.n_classes, y[i]) for i in range(len(y)))"]),
                   ("reg", "regressor", ["WSUM(train_indices, sample_weights, 0, len(train_indices)) > 0"])):
    MORE[k] = more
    T_, C_ = f"self._tree_{K}", f"self._tree_{K}_context"
    reg(Contract(
        f"tree.Tree{K.capitalize()}.fit",
        params={"self": Ty("obj", f"Tree{K.capitalize()}"), "features_bitarray": Ty("obj", "FeaturesBitArray"), "y": _f32, "train_indices": _ix, "valid_indices": _ix,
                "sample_weights": _f32},
        ret=Ty("obj", f"Tree{K.capitalize()}"), requires=PRE + more,
        ensures=[f"f_{x}_{k}({T_}, {C_})" if x in ("pred", "loss") else f"f_{x}({T_}, {C_})" for x in FIN]
        + ["same(self._train_indices, train_indices) and same(self._valid_indices, valid_indices)",
           f"same({C_}.y, y) and same({C_}.sample_weights, sample_weights)",
           f"{C_}.max_depth == self.max_depth and {C_}.min_samples_split == self.min_samples_split and {C_}.min_samples_leaf == self.min_samples_leaf"
           f" and {C_}.max_features == self.max_features and iff({C_}.aggregation, self.aggregation) and {C_}.step == self._step"
           f" and {C_}.criterion == self.criterion and {C_}.n_samples_train == len(train_indices) and {C_}.n_samples_valid == len(valid_indices)",
           f"all(iff({C_}.is_categorical[j], self.is_categorical[j]) for j in range(features_bitarray.n_features))"]
        + ([f"{C_}.n_classes == self.n_classes and {C_}.dirichlet == self._dirichlet and {C_}.cat_split_strategy == self.cat_split_strategy"] if k == "clf" else []),
        modifies=_MOD + [T_, C_], binds={"self._train_indices": "train_indices", "self._valid_indices": "valid_indices", f"{C_}.y": "y", f"{C_}.sample_weights": "sample_weights"},
        before={} if k == "clf" else {"grow": [
            "L_shift_WSUM(train_indices, sample_weights, tree_regressor_context.partition_train, sample_weights, 0, 0, len(train_indices))"]}))


# one tree of the forest: the bootstrap counts multiply the weights of the in-the-bag samples, the others keep theirs, the caller's weights stay
R = "ret__generate_train_valid_samples"
_VAR, _MODS = [], ["tree._train_indices", "tree._valid_indices"]
for k, K in (("clf", "classifier"), ("reg", "regressor")):
    C_ = f"tree._tree_{K}_context"
    W, T_, V_ = C_ + ".sample_weights", "tree._train_indices", "tree._valid_indices"
    pre = [x.replace("self.", "tree.").replace("sample_weights", "sample_weight") for x in PRE if "_indices" not in x]
    pre += ["2 <= features_bitarray.n_samples", "0 <= random_state_bootstrap and random_state_bootstrap <= 4294967295"]
    # a regression tree needs a positive total weight: strictly positive weights give it
    pre += [x.replace("self.", "tree.") for x in MORE[k]] if k == "clf" else ["all(trig(sample_weight[i] > 0, sample_weight[i]) for i in range(len(sample_weight)))"]
    _VAR.append(dict(
        name=k, params={"tree": Ty("obj", f"Tree{K.capitalize()}")}, requires=pre,
        ensures=[f"len({T_}) == len({R}[0]) and len({V_}) == len({R}[1])", f"len({W}) == features_bitarray.n_samples",
                 f"all({T_}[p] == {R}[0][p] for p in range(len({T_})))", f"all({V_}[p] == {R}[1][p] for p in range(len({V_})))",
                 f"all({W}[{T_}[p]] == sample_weight[{T_}[p]] * {R}[2][p] for p in range(len({T_})))",
                 f"all({W}[{V_}[p]] == sample_weight[{V_}[p]] for p in range(len({V_})))"]
        + split_facts(T_, V_, R + "[2]", "features_bitarray.n_samples")
        + [(f"f_{x}_{k}" if x in ("pred", "loss") else f"f_{x}") + f"(tree._tree_{K}, {C_})" for x in FIN]))
    _MODS += [f"{k}:tree._tree_{K}", f"{k}:{C_}"]
reg(Contract(
    "forest._parallel_build_trees",
    params={"features_bitarray": Ty("obj", "FeaturesBitArray"), "y": _f32, "sample_weight": _f32, "random_state_bootstrap": I64},
    variants=_VAR, modifies=_MODS,
    before={"fit": ["L_nonneg_WSUM(train_indices, sample_weight, 0, len(train_indices) - 1)", "unfold(WSUM(train_indices, sample_weight, 0, len(train_indices)))"]}))

# ---- combining the trees' predictions: every tree adds its prediction once, in its own place, while it holds the lock
_m = lambda t, d: Ty("arr", "", Ty("float", t), d)
_acc = {"predict": Ty("opaque", "predict"), "features_bitarray": Ty("opaque", "data"), "lock": Ty("opaque", "lock")}
reg(Contract(
    "forest._accumulate_prediction", params=_acc, shared=["out"],
    variants=[dict(name="clf", params={"out": _m("float64", 2), "label_class_col": Ty("none", "none")}, ensures=[
                  "all(out[i, c] == old(out[i, c]) + ret_predict[i, c] for i in range(out.shape[0]) for c in range(out.shape[1]))"],
                  oracles={"predict": (_m("float32", 2), "result.shape[0] == out.shape[0] and result.shape[1] == out.shape[1]")}),
              dict(name="ovr", params={"out": _m("float64", 2), "label_class_col": I64}, requires=["0 <= label_class_col and label_class_col < out.shape[1]"], ensures=[
                  "all(out[i, c] == old(out[i, c]) + (ret_predict[i, 1] if c == label_class_col else 0) for i in range(out.shape[0]) for c in range(out.shape[1]))"],
                  oracles={"predict": (_m("float32", 2), "result.shape[0] == out.shape[0] and result.shape[1] == 2")}),
              dict(name="reg", params={"out": _m("float64", 1), "label_class_col": Ty("none", "none")}, ensures=[
                  "all(out[i] == old(out[i]) + ret_predict[i] for i in range(len(out)))"],
                  oracles={"predict": (_m("float32", 1), "len(result) == len(out)")})],
    exit_facts=[("assert", "n_predict == 1")], modifies=["out[*]"]))
for _f, _p, _i, _n in (("_compute_weighted_depth", "weighted_depth", "tree_idx", 1), ("_get_tree_prediction", "predict", "tree_idx", 1), ("_get_tree_prediction", "predict", "tree_idx", 2),
                       ("_parallel_tree_apply", "apply", "idx_tree", 1)):
    el = Ty("int", "uint64") if _p == "apply" else Ty("float", "float32")
    ol = Ty("int", "uint64") if _p == "apply" else Ty("float", "float64" if _p == "predict" else "float32")
    x = "i" if _n == 1 else "i, c"
    dom = " for i in range(out.shape[1])" + (" for c in range(out.shape[2])" if _n == 2 else "")
    v = dict(name=["", "flat", "classes"][_n], params={"out": Ty("arr", "", ol, _n + 1)},
             ensures=[f"all(out[{_i}, {x}] == ret_{_p}[{x}]{dom})", f"all(implies(t != {_i}, out[t, {x}] == old(out[t, {x}])) for t in range(out.shape[0]){dom})"],
             oracles={_p: (Ty("arr", "", el, _n), "result.shape[0] == out.shape[1]" + (" and result.shape[1] == out.shape[2]" if _n == 2 else ""))})
    if _n == 2:
        from . import CONTRACTS
        CONTRACTS["forest." + _f].variants.append(v)
        continue
    reg(Contract("forest." + _f, params={_p: Ty("opaque", _p), "X": Ty("opaque", "data"), "lock": Ty("opaque", "lock"), _i: I64}, shared=["out"], variants=[v],
                 requires=[f"0 <= {_i} and {_i} < out.shape[0]"], exit_facts=[("assert", f"n_{_p} == 1")], modifies=["out[*]"]))


# ---- prediction methods of a tree: the function over its arrays, with the tree's own aggregation flag and current step
def _delegate(qual, callee, K, params, sub):
    from . import CONTRACTS
    import re
    c = CONTRACTS[callee]
    put = lambda t: re.sub(r"(?<![\w.])(" + "|".join(sub) + r")\b", lambda m: sub[m.group(1)], t)
    reg(Contract(qual, params={"self": Ty("obj", f"Tree{K.capitalize()}"), **params}, requires=[put(r) for r in c.requires], ensures=[put(r) for r in c.ensures]))


_fb = Ty("obj", "FeaturesBitArray")
for _K, _n in (("classifier", "predict_proba"), ("regressor", "predict")):
    _delegate(f"tree.Tree{_K.capitalize()}.{_n}", f"_tree.tree_{_K}_{_n}", _K, {"features_bitarray" if _n == "predict_proba" else "X": _fb},
              {"tree": f"self._tree_{_K}", "aggregation": "self.aggregation", "step": "self._step", **({} if _n == "predict_proba" else {"features_bitarray": "X"})})
_delegate("tree.TreeRegressor.weighted_depth", "_tree.tree_regressor_weighted_depth", "regressor", {"X": _fb}, {"tree": "self._tree_regressor", "step": "self._step", "features_bitarray": "X"})
