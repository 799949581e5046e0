"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=["wildwood/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where="wildwood/" + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "The bit-packed feature matrix is lossless",
  "For every two-dimensional array of non-negative integers (any number of rows and columns, any unsigned width, any "
  "maximum per column), packing the array and then reading back any single entry, or unpacking the whole matrix, "
  "returns exactly the stored values. Filling one column never changes what is read from another column, and no "
  "column is stored in fewer bits than its largest value needs.",
  ["inputs"], "every matrix shape, every per-column maximum in [0, 2^62), every content",
  "The tests round-trip a few dozen random matrices; word boundaries, the last partly filled word and each bit width "
  "interact, so all (n_samples mod values-per-word, width, content) triples must be covered.",
  ["preprocessing/features_bitarray.py"],
  [("FeaturesBitArray.__init__ (widths, masks, offsets)", "preprocessing/features_bitarray.py"),
   ("_features_bitarray_fill_column / _features_bitarray_fill_values", "preprocessing/features_bitarray.py"),
   ("get_value_from_column / get_value / _features_bitarray_to_array", "preprocessing/features_bitarray.py")],
  ["features_bitarray_to_array(array_to_bitarray(X))", "get_value(fb, i, j)"])

p("C02", "Numerical binning respects order, thresholds and missing values",
  "For every numerical column (numeric dtype, finite values further apart than rounding errors) and every column seen "
  "later at transform time, each non-missing value is put in the bin "
  "whose interval (previous threshold, next threshold] contains it, so that larger values never get smaller bins, and "
  "each missing value is put in one extra bin placed after all the others. Thresholds learnt at fit time are finite and "
  "non-decreasing, there are at most max_bins bins besides the missing one, and when the column has at most max_bins "
  "distinct values each distinct value gets a bin of its own.",
  ["inputs", "configurations"], "every float column (NaN, ties, values equal to a threshold), every max_bins",
  "Tests compare a few fixed columns; the boundary cases (value equal to a threshold, NaN only at transform, more than "
  "max_bins distinct values) form an infinite family.",
  ["preprocessing/_binning.py", "preprocessing/encoder.py"],
  [("_bin_continuous_column (binary search)", "preprocessing/_binning.py"),
   ("_find_binning_thresholds", "preprocessing/_binning.py"),
   ("Encoder.fit / Encoder.transform", "preprocessing/encoder.py")],
  ["Encoder.binning_thresholds_", "features_bitarray_to_array(encoder.transform(X))"])

p("C03", "Categorical columns are encoded one bin per category",
  "For a column treated as categorical, two values get the same bin exactly when they are the same category seen at fit "
  "time, whatever the order or subset of categories present at transform time; missing values, and unknown categories "
  "when they are to be considered missing, all get one extra bin placed after the known categories, and unknown "
  "categories raise an error when errors are requested. A column declared categorical (in the constructor or in the "
  "call to fit) is treated as categorical, and encoding the same rows twice gives the same bins.",
  ["inputs", "configurations", "histories"], "every DataFrame/array, every set of categories at fit and at transform time, "
  "both unknown-handling modes, both ways of declaring categorical columns",
  "Tests use a handful of hand-written frames; the guarantee must hold for every later frame.",
  ["preprocessing/encoder.py", "preprocessing/_checks.py", "forest.py"],
  [("Encoder.fit / Encoder.transform", "preprocessing/encoder.py"),
   ("get_is_categorical / is_series_categorical / get_array_dtypes", "preprocessing/_checks.py"),
   ("ForestBase.fit (declared categorical features)", "forest.py")],
  ["Encoder.categories_", "features_bitarray_to_array(encoder.transform(X))", "forest.is_categorical_"])

p("C04", "In-bag and out-of-bag samples partition the data, with right weights",
  "For every tree, every random seed and at least two samples, the training (in-bag) and validation (out-of-bag) sample sets are disjoint, "
  "duplicate-free, both non-empty, and together are exactly the samples given to fit. The multiplicities of the in-bag "
  "samples are positive and add up to the number of samples, the weight of an in-bag sample is the user's weight (times "
  "its class weight) times its multiplicity, the weight of an out-of-bag sample is left as given, and no tree's weights "
  "are affected by another tree's.",
  ["inputs", "configurations"], "every seed, every n_samples >= 2, every weight vector, every number of trees",
  "Tests look at a few seeds; the partition must hold for each draw, including draws that leave nothing out of bag.",
  ["forest.py"],
  [("_generate_train_valid_samples", "forest.py"), ("_parallel_build_trees", "forest.py")],
  ["tree._train_indices", "tree._valid_indices", "node sample weights"])

p("C05", "A node split partitions the node's samples by the split rule",
  "Splitting a node rearranges only that node's own training and validation samples: afterwards the left part holds "
  "exactly the samples that satisfy the split rule (bin at most the threshold, or bin in the chosen set of categories), "
  "the right part exactly the others, and no sample is lost, duplicated or moved between nodes. The number of "
  "samples on each side is the number announced by the split search.",
  ["inputs"], "every partition state, every node range, every feature column, every numerical or categorical split",
  "A fit on test data exercises only the splits it happens to choose; a lost or duplicated index only shows in "
  "statistics of deep nodes.",
  ["_split.py", "preprocessing/features_bitarray.py"],
  [("split_indices", "_split.py"), ("is_bin_in_partition", "_split.py"), ("compute_bin_partition", "_split.py"),
   ("get_value_from_column", "preprocessing/features_bitarray.py")],
  ["tree_context.partition_train / partition_valid after split_indices"])

p("C06", "Every fitted tree is a well-formed binary tree whose nodes tile the samples",
  "In every fitted tree, node numbers equal positions, the root is node 0 and spans all in-bag and out-of-bag samples, "
  "every non-root node has exactly one parent whose number is smaller and whose depth is one less, and every internal "
  "node has exactly two distinct children. The sample ranges of the two children of an internal node are adjacent and "
  "together make up the parent's range (training and validation alike), leaves have no children, and the recorded "
  "sample counts are the lengths of those ranges.",
  ["inputs", "configurations"], "every data set, every parameter setting, trees that outgrow every initial capacity",
  "Tests fit small trees that never trigger reallocation of nodes, of the stack or of the category storage.",
  ["_grow.py", "_tree.py", "_utils.py"],
  [("grow", "_grow.py"), ("push_record / pop_node_record", "_grow.py"), ("add_node_tree / resize_tree", "_tree.py"),
   ("resize", "_utils.py")],
  ["tree.get_nodes()"])

p("C07", "Stopping limits are honoured by every node of every tree",
  "No node is deeper than max_depth; an internal node has at least min_samples_split training samples and both its "
  "children have at least min_samples_leaf training samples; when aggregation is on the same two bounds hold for "
  "validation samples. A node that satisfies all limits and is not pure is split whenever some candidate feature "
  "offers an admissible split.",
  ["inputs", "configurations"], "every data set and every combination of the three limits, aggregation on and off",
  "Tests check depth for a few settings; off-by-one errors in the limits show only on particular counts.",
  ["_grow.py", "_split.py"],
  [("grow (leaf decision)", "_grow.py"), ("try_feature_order_for_classifier_split", "_split.py"),
   ("find_best_split_regressor_along_feature", "_split.py")],
  ["tree.get_nodes()"])

p("C08", "Prediction-time routing agrees with the training partition",
  "For every fitted tree and every sample used to grow it, in-bag or out-of-bag, the leaf reached by routing the sample "
  "through the tree is the leaf whose sample range contains that sample. Routing of any other encodable row always "
  "ends in a leaf, and each step goes left exactly when the row's bin satisfies the node's rule.",
  ["inputs"], "every fitted tree, numerical and categorical splits, every row",
  "Tests compare apply() on a few trees; routing code and partition code are separate implementations of the same rule.",
  ["_tree.py", "_split.py", "_grow.py"],
  [("find_leaf / tree_apply", "_tree.py"), ("is_bin_in_partition", "_split.py"), ("split_indices", "_split.py")],
  ["forest.apply(X)"])

p("C09", "Node statistics equal what the node's samples say",
  "At every node, the training and validation counts, the sums of weights, and the prediction are exactly those of the "
  "node's own samples: for classification the prediction of class k is (weight of class k + dirichlet) / (total weight + "
  "n_classes * dirichlet), for regression it is the weighted mean of the targets. With aggregation, the validation loss "
  "is the weighted sum over the node's validation samples of the log loss (classification) or squared error "
  "(regression) of that prediction.",
  ["inputs", "configurations"], "every node of every tree, any weights, any number of classes and features",
  "Tests check a few aggregate predictions; an error that touches one bin, one class or only the validation part does "
  "not change test scores noticeably.",
  ["_node.py", "_grow.py"],
  [("compute_node_classifier_context", "_node.py"), ("compute_node_regressor_context", "_node.py"),
   ("grow (storing the statistics)", "_grow.py")],
  ["tree.get_nodes()", "tree y_pred"])

p("C10", "The chosen split is the best admissible candidate",
  "At every internal node the chosen split maximises the information gain over all admissible candidates: every "
  "threshold between two occupied bins of every candidate numerical feature, and every prefix of the ordering of the "
  "occupied bins of every candidate categorical feature, an admissible candidate being one that leaves at least "
  "min_samples_leaf training samples (and validation samples, with aggregation) and some training weight on each side. The counts, weights, "
  "impurities and gain reported for it are those of the samples it sends left and right.",
  ["inputs", "configurations"], "every node statistics table, every number of bins, both criteria, every ordering",
  "An argmax over candidates can be wrong on one boundary candidate and still give good accuracy in tests.",
  ["_split.py", "_impurity.py"],
  [("find_best_split_classifier_along_feature / try_feature_order_for_classifier_split", "_split.py"),
   ("find_best_split_regressor_along_feature", "_split.py"), ("find_node_split / compute_bin_partition", "_split.py")],
  ["best_split fields", "tree.get_nodes()"])

p("C11", "Impurity and gain formulas are exact",
  "For all class weight sums and all weighted target sums with positive totals, the Gini, entropy and variance "
  "impurities of a node and of a pair of children equal their textbook definitions, classes with zero weight contribute "
  "nothing to the entropy, and the information gain is the parent's impurity minus the children's impurities weighted by "
  "their share of the parent's weight, scaled by the parent's share of the total. Ranking splits by the internal proxy "
  "is the same as ranking them by information gain.",
  ["inputs"], "every number of classes, every non-negative weight vector with positive total",
  "Tests evaluate the formulas on a few vectors.",
  ["_impurity.py"],
  [("gini_node/gini_childs/entropy_node/entropy_childs/mse_node/mse_childs", "_impurity.py"),
   ("information_gain/information_gain_proxy", "_impurity.py")],
  ["return values"])

p("C12", "Aggregation weights and predictions follow the context-tree recursion",
  "With aggregation, the stored log-weight of a leaf is -step times its validation loss, and that of an internal node is "
  "the log of the half-half mean of exp(-step * loss) and of the product of its children's weights. The prediction for a "
  "row is obtained by starting from its leaf's prediction and, at each ancestor up to the root, mixing in the ancestor's "
  "prediction with coefficient one half times exp(-step * loss - log-weight); without aggregation it is the leaf's "
  "prediction.",
  ["inputs", "configurations"], "every fitted tree, every loss vector, every step > 0, every row",
  "Tests check that aggregation changes scores; the recursion has to hold at each node of each tree.",
  ["_grow.py", "_tree.py", "_utils.py"],
  [("compute_tree_weights", "_grow.py"), ("log_sum_2_exp", "_utils.py"),
   ("tree_classifier_predict_proba / tree_regressor_predict / tree_regressor_weighted_depth", "_tree.py")],
  ["node log weights", "tree.predict_proba / tree.predict"])

p("C13", "Predictions are valid and are the average of the trees' predictions",
  "For every fitted classifier and every row, the class probabilities are non-negative and sum to one, the forest's "
  "probabilities are the mean of its trees' probabilities (one-vs-rest: the normalised mean over each class's own "
  "trees), and the predicted label is a class of largest probability. For every fitted regressor the prediction is the "
  "mean of the trees' predictions and lies between the smallest and largest training target.",
  ["inputs", "configurations"], "every fitted forest, every row, any number of trees and jobs",
  "Tests check shapes and sums on a few sets; a misplaced class column or a tree counted twice keeps sums equal to one.",
  ["forest.py", "_tree.py", "tree.py"],
  [("predict_proba / predict / _accumulate_prediction", "forest.py"), ("tree_classifier_predict_proba", "_tree.py"),
   ("tree_regressor_predict", "_tree.py")],
  ["forest.predict_proba(X)", "forest.predict(X)"])

p("C14", "Changing step or dirichlet after fit equals refitting with the new value",
  "After any sequence of changes of step or dirichlet on a fitted (not lightened) forest, every prediction equals that of a forest "
  "fitted from scratch on the same data with the final values and the same random seed. Setting a parameter to the "
  "value it already has changes nothing.",
  ["histories", "configurations"], "every sequence of post-fit assignments, aggregation on or off, both estimators",
  "Tests try one or two assignments; the guarantee is about every history of assignments.",
  ["forest.py", "tree.py", "_grow.py"],
  [("step setter, dirichlet setter", "forest.py"), ("TreeBase.step / TreeClassifier.dirichlet setters", "tree.py"),
   ("recompute_node_predictions / compute_tree_weights", "_grow.py")],
  ["forest.predict_proba(X)", "forest.predict(X)"])

p("C15", "Fitting is reproducible, independent of n_jobs, and leaves inputs untouched",
  "Two fits with the same data, parameters and integer random seed give the same trees and the same predictions, "
  "whatever n_jobs is and whatever the thread schedule. Neither fit nor prediction modifies the arrays, frames or "
  "sample weights passed in, and predicting does not change the fitted forest.",
  ["schedules", "inputs", "configurations"], "every schedule of tree-building threads, every n_jobs, every input type",
  "A race or an in-place update shows only under some interleavings or for some dtypes.",
  ["forest.py", "tree.py", "_grow.py", "_tree.py"],
  [("ForestBase.fit / _parallel_build_trees / _accumulate_prediction", "forest.py"),
   ("grow (frame: tree, tree context, node context only)", "_grow.py"),
   ("predict kernels (frame: nothing)", "_tree.py")],
  ["forest.predict_proba(X)", "inputs before/after"])

p("C16", "Pickling round-trips fitted forests",
  "Pickling and unpickling a fitted forest, before or after its post-fit parameters were changed, gives a forest with "
  "the same parameters, the same tree nodes and the same predictions on every row. Post-fit changes of step and "
  "dirichlet work on the unpickled forest as on the original.",
  ["histories", "configurations"], "every fitted classifier or regressor, categorical splits included, every later history",
  "Tests pickle one forest of each kind; a field lost in the round trip only matters for some later call.",
  ["tree.py", "forest.py"],
  [("serialize / unserialize", "tree.py"), ("__getstate__ / __setstate__", "tree.py")],
  ["pickle.loads(pickle.dumps(forest))"])

p("C17", "Candidate features of a node are distinct and number max_features",
  "At every node the candidate features are exactly max_features distinct columns of the data (all columns when no "
  "sampling is asked for), so each split uses a valid column. The number derived from max_features (None, integer, "
  "fraction, 'sqrt', 'log2' or 'auto') is between one and the number of columns, or an error is raised.",
  ["inputs", "configurations"], "every number of columns, every max_features, every outcome of the random generator",
  "A duplicate candidate only lowers accuracy slightly; tests do not look at the candidates.",
  ["_utils.py", "_node.py", "forest.py"],
  [("sample_without_replacement", "_utils.py"), ("init_node_context", "_node.py"), ("_get_max_features_", "forest.py")],
  ["node_context.features_sampled", "forest.max_features_"])

p("C18", "Invalid parameters are rejected and valid ones accepted unchanged",
  "For each constructor parameter and settable attribute, a value of a wrong type or out of its documented range raises "
  "an error and leaves the previous value in place, and a valid value is stored unchanged. Attributes that are fixed "
  "after fit cannot be changed after fit.",
  ["inputs", "histories"], "every parameter, every value",
  "Tests try a few bad values per parameter; the boundary of each range must be exact.",
  ["forest.py", "preprocessing/encoder.py"],
  [("property setters", "forest.py"), ("property setters", "preprocessing/encoder.py")],
  ["ForestClassifier(...), ForestRegressor(...), Encoder(...)"])

p("C19", "Compiled kernels never access memory out of bounds or overflow",
  "For every data set and parameter setting accepted by fit, and every row accepted by predict, the compiled code reads "
  "and writes only inside its arrays, never uses a record slot that was not written, and its integer counters never "
  "wrap around. Growing the node table, the work stack and the category storage preserves their contents.",
  ["inputs", "configurations"], "all inputs, all sizes up to the address space",
  "Bounds checks are disabled in the compiled code, so an out-of-range access is silent in tests.",
  ["_utils.py", "_tree.py", "_grow.py", "_node.py", "_split.py", "preprocessing/features_bitarray.py",
   "preprocessing/_binning.py"],
  [("resize / resize_tree / resize_tree_bin_partitions / push_record", "_utils.py"),
   ("all jitted kernels", "_node.py")],
  ["numba kernels"])

with open("/verif/properties.jsonl", "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x) + "\n")
print(len(P))
