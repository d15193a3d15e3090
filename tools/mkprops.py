#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


I, H, C, S = "inputs", "histories", "configurations", "schedules"
PS = "pure_sklearn/"

prop("C01", "Linear classifiers reproduce the fitted scores, labels and probabilities",
     "For every fitted linear classifier the library accepts (logistic regression, ridge, SGD, perceptron, passive-aggressive, linear SVC; binary or multiclass, with or without intercept, any label type), every row's decision scores equal coefficients times row plus intercept, and the predicted label is the class of the largest score (binary: the positive class only when the score is above zero; ties go to the first class). Where the source model offers probabilities and the library serves them (logistic regression in all its multiclass modes, SGD with log loss), they and their logarithms equal the source model's definition, whatever the magnitude of the scores.",
     [I, C], "all coefficient matrices, intercepts, label types, multiclass modes and input rows (dense or sparse)",
     "tests fit iris with three label vectors; no string labels, no exact zero scores or ties, no large magnitudes, no sparse input beyond logistic regression",
     [PS + "linear_model/_base.py", PS + "linear_model/_logistic.py", PS + "linear_model/_stochastic_gradient.py", PS + "svm/_classes.py", PS + "base.py"],
     [("affine scores", PS + "linear_model/_base.py decision_function"), ("label rule", PS + "linear_model/_base.py predict"), ("softmax / one-vs-rest choice", PS + "linear_model/_logistic.py predict_proba")],
     [("coef_, intercept_, classes_", "fitted parameters", PS + "linear_model/_base.py")],
     ["decision_function, predict, predict_proba, predict_log_proba of the converted object"])

prop("C02", "Decision trees send every row to the source tree's leaf",
     "For every fitted decision tree or extra tree (classifier or single-output regressor), each row whose values are exactly representable in single precision ends in the leaf reached by going left exactly when the tested feature is at most the node's threshold, an absent sparse entry counting as zero. The regressor returns that leaf's value; the classifier returns the leaf's class weights normalised to sum to one, their logarithms, and the label of the heaviest class (first on ties).",
     [I, C], "all tree shapes, depths, thresholds, leaf weights and rows, including values equal to a threshold",
     "tests use iris and never place a value on a threshold, use single-leaf trees, ties in a leaf, or non-integer labels",
     [PS + "tree/_classes.py"],
     [("descent loop", PS + "tree/_classes.py _get_leaf_node"), ("leaf to prediction", PS + "tree/_classes.py")],
     [("children, feature, threshold, value arrays", "the fitted tree", PS + "tree/_classes.py")],
     ["predict, predict_proba, predict_log_proba"])

prop("C03", "Forests and bagging average their members' probabilities",
     "For every fitted random forest, extra-trees or bagging classifier, the class probabilities of a row are the mean over all members of each member's probabilities for that row, each member seeing exactly the feature subset it was fitted on and its classes lined up with the ensemble's classes. The predicted label is the class of the largest mean (first on ties) and the log-probabilities are the logarithms of the means.",
     [I, C], "all ensembles (number and kind of members, feature subsets, members lacking a class) and all rows",
     "tests use iris with tree members; the assertion on values is outside the method loop for bagging, and no member ever lacks a class or a nested estimator kind",
     [PS + "ensemble/_bagging.py", PS + "ensemble/_forest.py"],
     [("mean of members", PS + "ensemble/_bagging.py predict_proba"), ("feature subset", PS + "ensemble/_bagging.py _feat_slice")],
     [("estimators_, estimators_features_", "members and their columns", PS + "ensemble/_bagging.py")],
     ["predict, predict_proba, predict_log_proba"])

prop("C04", "Gradient boosting sums its stages and applies the right loss link",
     "For every fitted gradient boosting classifier (binary or multiclass; deviance or exponential loss; default prior or a supported initial estimator; any number of stages and learning rate), a row's raw score is the initial estimator's score plus the learning rate times the sum of that class's stage trees. Probabilities, log-probabilities and labels follow from the raw scores by the link of the fitted loss exactly as in the source library, also for very large scores.",
     [I, C], "all stage counts, class counts, losses, initial estimators, learning rates and rows",
     "tests compare the final log-probabilities on iris only; the exponential loss is never exercised because of a mistyped guard, and large scores never occur",
     [PS + "ensemble/_gb.py", PS + "ensemble/_gb_losses.py"],
     [("stage accumulation", PS + "ensemble/_gb.py _raw_predict"), ("loss links", PS + "ensemble/_gb_losses.py")],
     [("estimators_, init_, learning_rate, loss_", "fitted stages and loss", PS + "ensemble/_gb.py")],
     ["predict, predict_proba, predict_log_proba"])

prop("C05", "Converted XGBoost classifiers give the booster's probabilities",
     "For every fitted tree-booster XGBoost classifier with a supported objective, a row whose values are exactly representable in single precision gets the booster's own class probabilities: each tree sends a row to its 'yes' child exactly when the tested feature is strictly below the split and sends a missing value to the recorded default child, leaf values are summed per class together with the base score, and the objective's link is applied. This holds for any number of features, any node numbering the booster produced, and values equal to a split; the label is the class of the largest probability.",
     [I, C], "all boosters (rounds, depth, pruning, base score, feature count, class count) and rows including missing values and values on a split",
     "the only test has 4 features, default hyperparameters, no pruning, no missing values and no value on a split",
     [PS + "xgboost/_classes.py", PS + "tree/_classes.py"],
     [("booster dump to trees", PS + "xgboost/_classes.py _build_estimators; " + PS + "tree/_classes.py __init__"), ("sum and link", PS + "xgboost/_classes.py predict_proba")],
     [("estimators_", "trees in round/class order", PS + "xgboost/_classes.py")],
     ["predict, predict_proba"])

prop("C06", "Naive Bayes and prior-dummy classifiers give the exact posterior",
     "For every fitted Gaussian, multinomial or complement naive Bayes classifier and every row, the log-probabilities are the source model's joint log-likelihood normalised over the classes, finite and accurate however improbable the row is, the probabilities are their exponentials, and the label is the class with the largest joint score. A prior-strategy dummy classifier returns the fitted class prior and the label of its most frequent class for every row.",
     [I, C], "all fitted parameters, label types and rows, including rows whose likelihood underflows a float",
     "tests use iris (4 small features, integer labels equal to class positions), so neither underflow nor labels different from positions occur",
     [PS + "naive_bayes.py", PS + "dummy.py"],
     [("joint log-likelihoods", PS + "naive_bayes.py _joint_log_likelihood"), ("normalisation", PS + "naive_bayes.py predict_log_proba"), ("prior", PS + "dummy.py")],
     [("class_log_prior_, feature_log_prob_, theta_, sigma_, class_prior_", "fitted parameters", PS + "naive_bayes.py, " + PS + "dummy.py")],
     ["predict, predict_proba, predict_log_proba"])

prop("C07", "Scalers and normalizers compute exactly the fitted transformation",
     "Standard, min-max and max-abs scalers map every value of every row and column to the fitted affine formula for that column, honouring each on/off option, and keep row count, column count and column order. The normalizer divides each row by its own l1, l2 or largest-absolute-value norm, leaving all-zero rows unchanged; dense and sparse rows give the same numbers.",
     [I, C], "all fitted parameters, options and rows (negative values, zero rows, zero-variance columns)",
     "the scaler and normalizer tests compute allclose without asserting it, so any result passes",
     [PS + "preprocessing/_data.py"],
     [("affine maps", PS + "preprocessing/_data.py"), ("row norms", PS + "preprocessing/_data.py normalize_pure")],
     [("scale_, mean_, min_", "fitted column parameters", PS + "preprocessing/_data.py")],
     ["transform, normalize_pure"])

prop("C08", "Encoders give each category its own fitted column or code",
     "A one-hot encoder sets, for each feature of a row, exactly the one output column reserved for that feature's category (columns ordered by feature, then by category), leaves all of a feature's columns zero for an unknown category when told to ignore it, and otherwise raises an error. An ordinal encoder returns each category's position in its feature's fitted category list and raises on an unknown category; dense and sparse outputs carry the same matrix of the same width.",
     [I, C], "any number of features and categories, mixed category types, unknown-handling mode, sparse or dense output, all rows",
     "tests encode two features only, never an unseen category, never dense output",
     [PS + "preprocessing/_encoders.py", PS + "preprocessing/_label.py"],
     [("category lookup", PS + "preprocessing/_label.py"), ("column offsets", PS + "preprocessing/_encoders.py OneHotEncoderPure.transform")],
     [("categories_", "fitted categories per feature", PS + "preprocessing/_encoders.py")],
     ["transform"])

prop("C09", "Imputation replaces exactly the missing entries and flags them",
     "The simple imputer replaces every entry equal to the fitted missing marker (NaN or a number) by its own column's fitted statistic, leaves every other entry untouched, and drops exactly the columns that had no statistic (unless filling with a constant). The missing indicator marks exactly the missing entries of the columns it was fitted to report, is appended to the imputer's output when requested, and raises on new missing columns exactly when configured to.",
     [I, C], "all missing markers, strategies, indicator modes, column patterns and rows",
     "tests transform the training matrix only: no dropped columns, no newly missing column, error-on-new always off",
     [PS + "impute/_base.py"],
     [("replacement", PS + "impute/_base.py SimpleImputerPure.transform"), ("indicator", PS + "impute/_base.py MissingIndicatorPure")],
     [("statistics_, features_", "fitted fill values and reported columns", PS + "impute/_base.py")],
     ["transform"])

prop("C10", "Count vectorization tokenizes and counts exactly like the fitted vectorizer",
     "For every fitted count vectorizer the library accepts and every document (text or encoded bytes), each vocabulary term's count is the number of times it occurs among the document's terms after decoding, lower-casing, accent stripping, tokenising, stop-word removal and word, character or in-word character n-gram generation as configured; terms outside the vocabulary are ignored. Binary mode caps counts at one, and the result is always a sparse matrix of vocabulary width with one row per document.",
     [I, C], "all analyzers, n-gram ranges, token rules, stop lists, vocabularies and documents",
     "one test with default settings on six short ASCII documents; no n-grams, characters, accents, stop words, binary or bytes",
     [PS + "feature_extraction/text.py"],
     [("preprocess / tokenise / n-grams", PS + "feature_extraction/text.py _VectorizerMixinPure"), ("counting", PS + "feature_extraction/text.py _count_vocab")],
     [("vocabulary_ and options", "fitted vocabulary", PS + "feature_extraction/text.py")],
     ["transform"])

prop("C11", "TF-IDF weights and norms equal the fitted transformation",
     "For every fitted TF-IDF vectorizer or transformer and every document or count matrix, each entry is the term count (or one plus its logarithm with sublinear weighting) times the term's fitted inverse document frequency when enabled, and each row is then divided by its configured norm. Counting, binary mode and tokenisation are as for the count vectorizer, and a document without known terms gives an all-zero row.",
     [I, C], "all option combinations (idf, sublinear, binary, norms) and documents",
     "one test with three norms on the training documents, all other options at their defaults",
     [PS + "feature_extraction/text.py"],
     [("weighting", PS + "feature_extraction/text.py TfidfTransformerPure.transform"), ("norm", PS + "preprocessing/_data.py normalize_pure")],
     [("idf_", "fitted idf per term", PS + "feature_extraction/text.py")],
     ["transform"])

prop("C12", "Hashing vectorization puts every term in its murmur3 bucket with its sign",
     "For every hashing vectorizer the library accepts and every document, the value of a bucket is the sum, over all occurrences of terms whose signed 32-bit murmur3 hash of their UTF-8 bytes has that absolute value modulo the number of buckets, of plus or minus one by the hash's sign (always plus one without alternate signs). Binary mode then sets every touched bucket to one and the configured row norm is applied, giving a sparse matrix with the configured number of columns.",
     [I, C], "all documents (any length, any Unicode, repeated and colliding terms), bucket counts, signs, norms and analyzers",
     "one test with 256 buckets on six ASCII documents that contain no repeated or colliding term",
     [PS + "feature_extraction/_hash.py", PS + "feature_extraction/text.py"],
     [("murmur3", PS + "feature_extraction/_hash.py _hash"), ("accumulation", PS + "feature_extraction/_hash.py _hashing_transform")],
     [],
     ["transform"])

prop("C13", "Dictionary vectorization puts each known feature in its fitted column",
     "For every fitted dict vectorizer and every mapping or list of mappings with distinct features, a numeric value lands in its key's fitted column, a string value puts a one in the column of 'key, separator, value', and features unknown at fit time are ignored. The output has one row per mapping and the fitted width, as a sparse or dense matrix as configured.",
     [I, C], "all vocabularies, separators, value types and mappings",
     "two tests with three numeric features transform the training data only",
     [PS + "feature_extraction/_dict_vectorizer.py"],
     [("lookup", PS + "feature_extraction/_dict_vectorizer.py transform")],
     [("vocabulary_", "feature to column", PS + "feature_extraction/_dict_vectorizer.py")],
     ["transform"])

prop("C14", "A pipeline is exactly the composition of its converted steps",
     "For every fitted pipeline of supported steps, including nested pipelines and pass-through steps, each prediction or transform equals feeding the input through every fitted transformer in order and calling that method on the last step. The converted pipeline offers a prediction or transform method exactly when its last step supports it, and reports the last step's classes.",
     [I, C], "all step sequences, nestings and inputs",
     "one test with an imputer and a logistic regression, probabilities only",
     [PS + "pipeline.py"],
     [("chaining", PS + "pipeline.py PipelinePure"), ("conditional methods", PS + "pipeline.py _IffHasAttrDescriptor")],
     [("steps", "converted steps in order", PS + "pipeline.py")],
     ["predict, predict_proba, predict_log_proba, transform, classes_, hasattr"])

prop("C15", "A feature union concatenates its parts in order with their weights",
     "For every fitted feature union of supported transformers and every input the transformers accept, each output row is the concatenation, in the fitted order, of each transformer's output for that row multiplied by that transformer's weight (one when not given), with dropped transformers contributing nothing. The result is sparse exactly when some part is sparse, and its width is the sum of the parts' widths.",
     [I, C], "all transformer lists, weights, mixes of sparse and dense parts and inputs",
     "two tests with two transformers of one kind, no weights, no mixture of sparse and dense parts, no text",
     [PS + "pipeline.py"],
     [("weights", PS + "pipeline.py _transform_one"), ("concatenation", PS + "pipeline.py FeatureUnionPure.transform")],
     [("transformer_list, transformer_weights", "parts in order", PS + "pipeline.py")],
     ["transform"])

prop("C16", "fastText classification returns the right labels, order and probabilities",
     "For every supported supervised fastText model and every line of text, the returned labels are the k most probable labels whose softmax probability reaches the threshold (at most k, most probable first, each with its probability), where the line's vector is the average of the input vectors of its known words plus the end-of-line word and scores are its products with the output matrix. A list of lines gives the list of per-line answers, and a line containing a newline is refused.",
     [I, C], "all models, lines (repeated, unknown and no known words, any whitespace), k and thresholds",
     "four sentences with one trained model; list input is never tried",
     ["pure_fasttext/FastText.py"],
     [("line vector", "pure_fasttext/FastText.py get_sentence_vector"), ("top-k", "pure_fasttext/FastText.py _predict")],
     [("words_, labels_, input_matrix_, output_matrix_", "model", "pure_fasttext/FastText.py")],
     ["predict"])

prop("C17", "fastText word and sentence vectors equal the model's",
     "For every supported fastText model, a known word's vector is its row of the input matrix and an unknown word's vector is all zeros of the model's dimension. An unsupervised sentence vector is the average of the unit-length vectors of its known words, a supervised one the plain average of its known words and the end-of-line word; a sentence with no known word gives the zero vector of the model's dimension.",
     [I, C], "all models and texts (unknown words only, empty text, repeated words, any of the documented separators)",
     "four sentences with one trained model each; never a sentence without known words",
     ["pure_fasttext/FastText.py"],
     [("lookup", "pure_fasttext/FastText.py get_word_vector"), ("averaging", "pure_fasttext/FastText.py get_sentence_vector")],
     [("words_, input_matrix_, dim_", "model", "pure_fasttext/FastText.py")],
     ["get_word_vector, get_word_id, get_input_vector, get_sentence_vector"])

prop("C18", "Pairwise similarities and distances equal their definitions",
     "For all matrices with equal row width, linear kernel entries are the rows' dot products, cosine similarity entries are the dot products of the rows scaled to unit length (zero rows give zero), and cosine distances are one minus the similarity clipped to the range zero to two, with an exactly zero diagonal when a matrix is compared with itself. The left matrix may be sparse with the same result, and mismatched widths or one-dimensional input are refused.",
     [I], "all pairs of matrices, including zero rows, a single row, and self-comparison",
     "tests use random 10 by 2 positive matrices only",
     [PS + "metrics/pairwise.py", PS + "base.py"],
     [("normalise and multiply", PS + "metrics/pairwise.py")],
     [],
     ["cosine_similarity_pure, cosine_distances_pure, linear_kernel_pure"])

prop("C19", "Sparse and dense forms of the same data give the same answers",
     "For every estimator or transformer that accepts sparse input, and every data matrix, passing the matrix in sparse form (with or without explicitly stored zeros, in any entry order) gives the same result as passing it in dense form. What does not support sparse input raises an error instead of answering.",
     [I, C], "all estimators and matrices in both representations",
     "only logistic regression, trees and three scalers are ever given sparse input, and the scaler tests assert nothing",
     [PS + "utils.py", PS + "base.py", PS + "linear_model/_base.py", PS + "tree/_classes.py", PS + "preprocessing/_data.py", PS + "ensemble/_bagging.py", PS + "pipeline.py"],
     [("sparse branches", "every module listed"), ("refusal", PS + "utils.py check_array")],
     [("sparse_list rows, size, dtype", "sparse data", PS + "utils.py")],
     ["all public methods"])

prop("C20", "The sparse container and matrix helpers implement plain matrix algebra",
     "Converting a dense matrix to sparse and back returns an equal matrix of the same shape, and every public matrix helper (dot products, elementwise product and combination, transpose, row-wise and element-wise application, column selection, shape, softmax) returns the mathematically defined result, the same for sparse and dense operands wherever both are accepted (for row-wise reduction of sparse data: reductions that ignore zeros, such as sums). Softmax of a dense row stays finite and sums to one for any finite input, and safe logarithm and exponential return the limits instead of failing.",
     [I], "all matrices (negative, zero, empty-row, single-row, single-column) and helper arguments",
     "tests use one fixed 2 by 2 matrix without zeros; the safe_log test calls safe_exp",
     [PS + "utils.py", PS + "base.py"],
     [("sparse_list", PS + "utils.py"), ("helpers", PS + "base.py")],
     [("sparse_list rows, size, dtype", "sparse data", PS + "utils.py")],
     ["module-level functions of pure_sklearn.base and pure_sklearn.utils"])

prop("C21", "Serving is pure: calls change neither model, input nor earlier answers",
     "A converted object's answer to a call depends only on the fitted model and that call's arguments, never on which calls were made before on it or on any other object. No call modifies the caller's input data, and nothing a caller later does to an input or to a returned result changes the model, its future answers or previously returned results.",
     [H, I, C], "all sequences of calls, with callers overwriting inputs and results between calls, over every supported model kind",
     "every test calls each method on fresh objects and never reuses an input or a result after modifying it",
     [PS + "feature_extraction/text.py", PS + "dummy.py", "pure_fasttext/FastText.py", PS + "ensemble/_bagging.py", PS + "pipeline.py", PS + "preprocessing/_data.py"],
     [("no writes to self or arguments in predict/transform", "all prediction methods")],
     [("the converted object's attributes", "must stay constant", "all classes")],
     ["all public methods; snapshots of inputs and results"])

prop("C22", "Concurrent calls on one model each get their own right answer",
     "When several calls on the same converted object (or on objects sharing parts) overlap in time, each call returns what it would return alone. This holds for every point at which one call may be preempted by another.",
     [S, I], "all preemption points of one call by a complete other call, for every supported model kind, plus free-running threads",
     "no test ever makes two overlapping calls",
     [PS + "base.py", PS + "feature_extraction/text.py", PS + "tree/_classes.py", PS + "ensemble/_gb.py", "pure_fasttext/FastText.py"],
     [("per-call state lives in locals only", "all prediction methods")],
     [("the converted object's attributes", "shared by overlapping calls", "all classes")],
     ["results of overlapping calls"])

prop("C23", "A batch is answered row by row, in order",
     "For every converted model and every non-empty batch of valid rows (or documents, mappings, texts), the result has exactly one entry per row in input order, and each entry equals the answer for a batch holding only that row. Batch size, neighbouring rows, duplicates and row order never influence a row's answer.",
     [I, C], "all models and batches, including large batches, duplicates and permutations",
     "tests compare whole batches only, in one order",
     [PS + "tree/_classes.py", PS + "ensemble/_gb.py", PS + "xgboost/_classes.py", PS + "preprocessing/_encoders.py", PS + "pipeline.py", PS + "impute/_base.py"],
     [("per-row comprehension", "all prediction methods")],
     [],
     ["all public methods"])

prop("C24", "A converted model loads and serves without any third-party package",
     "Every successfully converted model can be pickled, and unpickled in a Python interpreter that has only the standard library and this package, where it imports nothing else, gives the same answers as before pickling, and can be pickled again. Its state consists only of plain Python values.",
     [C, I, H], "all convertible models and configurations, repeated dump/load cycles, calls before and after",
     "no test pickles anything or runs without numpy and scikit-learn installed",
     [PS + "utils.py", PS + "map.py", "pure_fasttext/FastText.py"],
     [("type check at conversion", PS + "utils.py check_types"), ("lazy class lookup", PS + "map.py")],
     [("pickled bytes", "the deployed artifact", "pickle of the converted object")],
     ["pickle.dumps/loads in a bare interpreter"])

prop("C25", "What cannot be reproduced is refused at conversion, not mis-served",
     "Converting an estimator that is unsupported, unfitted or configured in a way the library does not reproduce (unknown classes, unsupported losses, objectives, boosters, strategies or vocab/encoder options, multi-output models, custom callables, subword, n-gram or quantized fastText models, too old versions) raises an error, at the latest at the first prediction. Every supported class and configuration converts to an object whose methods answer; a method the source model does not offer for its configuration is absent or raises.",
     [C], "all estimator classes and configurations, supported and not",
     "no test converts an unsupported or unfitted estimator",
     [PS + "map.py", PS + "utils.py", PS + "dummy.py", PS + "xgboost/_classes.py", PS + "ensemble/_gb.py", PS + "preprocessing/_encoders.py", PS + "feature_extraction/text.py", "pure_fasttext/FastText.py"],
     [("class table", PS + "map.py MAPPING"), ("explicit guards in constructors", "listed files")],
     [],
     ["convert_estimator, FastText constructor, first calls"])

prop("C26", "Conversion is a read-only snapshot of the fitted model",
     "Converting an estimator leaves the estimator and its predictions unchanged, converting it twice gives two objects with equal answers and no shared mutable state between them, and a converted object keeps answering for the model as it was at conversion even if the source estimator is refitted or re-parameterised afterwards.",
     [H, C], "all orders of convert, refit, reconvert and predict, over every supported model kind",
     "tests convert once right after fitting and never touch the source again",
     [PS + "map.py", PS + "feature_extraction/_dict_vectorizer.py", PS + "impute/_base.py", PS + "linear_model/_base.py"],
     [("tolist() copies at construction", "all constructors")],
     [("converted attributes", "copies of fitted attributes", "all constructors")],
     ["answers of source and converted objects along histories"])

prop("C27", "Invalid prediction input is refused, never answered with numbers",
     "Linear models, gradient boosting, imputers, missing indicators, encoders and TF-IDF transformers raise an error on a matrix with a different number of columns than they were fitted on. Data that is not a list or is an empty batch, given to an estimator that inspects its input, a bare string given to a text vectorizer, sparse data given to an estimator without sparse support, and multi-line text given to fastText also raise an error, and a failed call leaves the model answering valid calls as before.",
     [I, H], "all estimators and malformed inputs, followed by valid calls",
     "only one sparse refusal is tested; no test passes a wrong width or an invalid type",
     [PS + "utils.py", PS + "linear_model/_base.py", PS + "ensemble/_gb.py", PS + "impute/_base.py", PS + "preprocessing/_encoders.py", PS + "feature_extraction/text.py", "pure_fasttext/FastText.py"],
     [("check_array", PS + "utils.py"), ("width checks", "listed files")],
     [],
     ["exceptions from public methods"])

prop("C28", "Probabilities are well formed and agree with labels and log-probabilities",
     "For every classifier that serves probabilities and every finite input row, the probabilities are one number per class, each between zero and one and none of them NaN, summing to one up to rounding (a one-vs-rest model whose every per-class sigmoid underflows to zero is excepted); the log-probabilities are their logarithms (minus infinity for zero), and the predicted label is one of the model's classes with the largest probability up to rounding. This holds for arbitrarily large scores and arbitrarily unlikely rows.",
     [I, C], "all classifiers (including pipelines and ensembles of them) and finite rows of any magnitude",
     "tests only compare with the source library on iris-sized values, and several compare NaN as equal",
     [PS + "base.py", PS + "naive_bayes.py", PS + "linear_model/_base.py", PS + "linear_model/_logistic.py", PS + "ensemble/_gb_losses.py", PS + "xgboost/_classes.py", PS + "ensemble/_bagging.py"],
     [("softmax, sigmoid, log-sum-exp", PS + "base.py, " + PS + "naive_bayes.py, " + PS + "ensemble/_gb_losses.py")],
     [],
     ["predict, predict_proba, predict_log_proba"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
