"""Writes /verif/properties.jsonl (one source of truth, so that edits stay valid JSON)."""
import json, sys

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


ST = "pysad/statistics/"
prop("C01", "Streaming statistics equal their batch definition",
     "After any interleaving of insertions of finite numbers and removals of previously inserted numbers that leaves at least one number held, each statistic tracker (count, sum, sum of squares, average, population variance, minimum, maximum, median) reports the batch statistic of exactly the multiset of numbers currently held (up to rounding), in whatever order they arrived and also when values repeat. The absolute-value wrapper reports the absolute value of the wrapped statistic over the same history. Reading a statistic does not change it, and insertion and removal return the tracker itself.",
     ["inputs", "histories"], "all finite real values and all update/remove/get histories (any length, any order, duplicates and ties included)",
     "the two statistics tests push one seeded random vector and one all-zero vector and only ever remove the value inserted last; ties, negative values, removal of the extreme or of a middle element and re-insertion are never reached",
     [ST + f for f in ("count_meter.py", "sum_meter.py", "sum_squares_meter.py", "average_meter.py", "variance_meter.py", "min_meter.py", "max_meter.py", "median_meter.py", "abs_statistic.py")],
     [("update/remove/get of each tracker", ST), ("variance from sum, sum of squares and count", ST + "variance_meter.py")],
     ["return values of get()"])
prop("C02", "A running statistic covers exactly the last window_size values",
     "A statistic tracked through a running window of size w (w >= 1) reports, after every insertion, the batch statistic of exactly the most recent min(w, n) inserted values, where n is the number of insertions so far, for every wrapped statistic (including the absolute-value wrapper and wrapped statistics that need constructor arguments). Constructor keyword arguments meant for the wrapped statistic reach it.",
     ["inputs", "histories", "configurations"], "all window sizes, all finite real streams, every wrapped statistic",
     "tests use one window size (25), random distinct values or zeros and no statistic with arguments",
     [ST + "running_statistic.py", ST + "abs_statistic.py"],
     [("append, update, evict oldest when the window overflows", ST + "running_statistic.py")],
     ["RunningStatistic.get()"])
prop("C03", "Windows hold exactly the most recent items, in arrival order",
     "After any sequence of insertions a bounded window of size w holds exactly the most recent min(w, n) inserted items, unchanged and in arrival order, and an unlimited window holds all of them; nothing older is retained by the bounded window. Separate windows never share items.",
     ["histories", "configurations", "inputs"], "all window sizes w >= 1, all insertion histories and item values",
     "tests insert five distinct items in a window of size 3 and 5",
     ["pysad/utils/window.py"], [("Window.update / UnlimitedWindow.update", "pysad/utils/window.py")], ["Window.get()"])
prop("C04", "Model batch methods equal instance-by-instance streaming",
     "For every model built on the model base class, fitting a batch hands each row with its own label exactly once, in order, to the per-instance fit (label None when no labels are given); scoring a batch returns a float array whose i-th entry is the unaltered per-instance score of row i; and the fit-and-score batch call interleaves fit and score per row in order. The combined per-instance call fits first and then scores the same instance, fit returns the model itself, and inputs are left unmodified.",
     ["inputs", "histories"], "all batches (sizes, values, labels, with and without labels) and all per-instance score values, scalar or one-element array",
     "tests check lengths and dtypes of a few fixed batches; order, label pairing and score values are not compared for arbitrary data",
     ["pysad/core/base_model.py", "pysad/utils/__init__.py", "pysad/utils/array_streamer.py"],
     [("fit / score / fit_score / fit_score_partial", "pysad/core/base_model.py"), ("_iterate", "pysad/utils/__init__.py")],
     ["arguments received by fit_partial/score_partial", "returned arrays"])
prop("C05", "Transformer and postprocessor batch methods equal per-instance streaming",
     "For every transformer and postprocessor built on the base classes, fitting a batch passes each row (the row itself) exactly once and in order to the per-instance fit and returns the object itself; transforming a batch returns a float array whose i-th row is the unaltered per-instance transform of row i; and fit-and-transform interleaves both per row in order. Output width is the declared number of output dimensions, or the input width when none is declared, and inputs are left unmodified.",
     ["inputs", "histories", "configurations"], "all batches and all per-instance transform results, scalar or vector valued",
     "tests only check output shapes on random data; what the per-instance fit receives from a batch fit is only observed for two subclasses",
     ["pysad/core/base_transformer.py", "pysad/core/base_postprocessor.py", "pysad/utils/__init__.py"],
     [("fit / transform / fit_transform", "pysad/core/base_transformer.py"), ("fit / transform / fit_transform", "pysad/core/base_postprocessor.py")],
     ["arguments received by fit_partial/transform_partial", "returned arrays"])
prop("C06", "Stream simulators yield every instance exactly once with its own label",
     "Iterating an array or dataframe streamer over n instances yields exactly n items, each instance exactly once and unmodified, paired with the label at the same position when labels are given; without shuffling the order is the input order, and with shuffling it is the permutation drawn from the (seedable) global generator. Instances and labels of different length are rejected, and iterating again restarts from the beginning.",
     ["inputs", "configurations", "histories"], "all arrays/dataframes, labels present or not, all permutations the shuffle may draw",
     "tests look at two or three rows and one seeded shuffle; pairing under arbitrary permutations is not observed",
     ["pysad/utils/array_streamer.py", "pysad/utils/pandas_streamer.py", "pysad/utils/__init__.py", "pysad/core/base_streamer.py"],
     [("index list, optional shuffle, paired yield", "pysad/utils/array_streamer.py")], ["items yielded by iter()"])
prop("C07", "Evaluation metrics equal the batch metric over the full history",
     "After any sequence of (true label, prediction) updates each metric (precision, recall, area under ROC, average precision) returns exactly the value of the corresponding batch definition on all pairs received so far, in particular independent of when it was read before. The ROC metric raises an error while only one class has been seen.",
     ["inputs", "histories"], "all binary label sequences and all binary/real prediction sequences, including tied predictions",
     "tests use constant all-right/all-wrong predictions and a few hand-picked vectors",
     ["pysad/evaluation/metrics.py", "pysad/core/base_metric.py"], [("accumulate pairs, evaluate on get", "pysad/evaluation/metrics.py")],
     ["get()"])
prop("C08", "A windowed metric averages its complete windows",
     "A windowed metric of window size w returns the plain average of the wrapped metric over the consecutive complete blocks of w updates; an incomplete last block is left out when so configured and otherwise counts as one more equally weighted block, and before the first block completes the value of the running block is returned. Every block starts from a fresh wrapped metric built with the user's keyword arguments.",
     ["inputs", "histories", "configurations"], "all window sizes, all update counts, both settings of the last-window option, any wrapped metric and its keyword arguments",
     "tests use perfectly right or wrong predictions, for which every window has the same value, and no keyword arguments",
     ["pysad/evaluation/windowed_metric.py", ST + "average_meter.py"],
     [("block counting, score averaging, re-creation of the metric", "pysad/evaluation/windowed_metric.py")], ["get()"])
PP = "pysad/transform/postprocessing/"
prop("C09", "Score postprocessors report their declared statistic of past scores",
     "After fitting any sequence of finite scores, the average, maximum and median postprocessors transform a score into that statistic of all fitted scores, and their running variants into that statistic of the last window_size fitted scores; the z-score postprocessors map a score s to (s - mean)/std with the population mean and standard deviation of all (or the last window_size) fitted scores whenever that deviation is positive. Transforming never changes later results.",
     ["inputs", "histories", "configurations"], "all score sequences, window sizes and transform/fit interleavings",
     "the only test checks the output shape",
     [PP + "postprocessors.py", PP + "running_postprocessors.py"] + [ST + f for f in ("average_meter.py", "max_meter.py", "median_meter.py", "variance_meter.py", "running_statistic.py")],
     [("meters updated on fit, read on transform", PP)], ["transform_partial / fit_transform_partial results"])
PC = "pysad/transform/probability_calibration/"
prop("C10", "Conformal calibration returns the empirical tail fraction",
     "After at least one fitted score, the conformal calibrator maps a score to the fraction of the retained fitted scores that are strictly greater than it, where the retained scores are the last window_size ones when windowed and all of them otherwise. The result therefore always lies in [0, 1] and never increases when the score increases, and transforming does not change the calibrator.",
     ["inputs", "histories", "configurations"], "all fitted score sequences, query scores (ties included), window sizes, windowed or not",
     "the test only checks that outputs of one random vector are not NaN",
     [PC + "conformal_prediction.py", "pysad/utils/window.py"], [("window of scores; count of greater scores over length", PC + "conformal_prediction.py")],
     ["transform_partial result"])
prop("C11", "Gaussian calibration is the normal CDF of the fitted scores",
     "The Gaussian-tail calibrator maps a score s to the normal cumulative probability of (s - mean)/std, using the mean and population standard deviation of the last window_size fitted scores in running mode and of all fitted scores otherwise (the window size is then ignored), with std taken as 1 when the variance is not positive (in particular when all those scores are equal, even if rounding leaves a residue). The result lies in [0, 1], never decreases when the score increases, and is never NaN for finite scores.",
     ["inputs", "histories", "configurations"], "all fitted score sequences and query scores, both modes, all window sizes",
     "the test uses the default window of 6400 with 100 scores, so the window is never full, and only checks for NaN",
     [PC + "gaussian_tail.py", ST + "running_statistic.py", ST + "variance_meter.py", ST + "average_meter.py"],
     [("mean/variance meters and Q-function", PC + "gaussian_tail.py")], ["transform_partial result"])
prop("C12", "Score ensemblers compute the declared combination of detector scores",
     "For any vector of detector scores the average ensembler returns the (weighted) mean, the maximum and median ensemblers the maximum and median, and the bucketed ensemblers the average of bucket maxima or the maximum of bucket averages for some equal-size partition of the detectors into the configured number of buckets (static buckets without bootstrap; in the other documented modes for buckets of the documented sizes). Fitting has no effect on any of them.",
     ["inputs", "configurations", "schedules"], "all score vectors, weights, bucket counts dividing the number of detectors, and all shuffles of detectors into buckets",
     "the test only checks output shapes on random scores with default parameters",
     ["pysad/transform/ensemble/ensemblers.py", "pysad/core/base_postprocessor.py"], [("_combine dispatch to the combination functions", "pysad/transform/ensemble/ensemblers.py")],
     ["transform_partial result"])
PR = "pysad/transform/preprocessing/"
prop("C13", "Instance scalers normalise each instance independently",
     "The identity scaler returns its input unchanged; the instance standard scaler returns (x - mean(x))/std(x) with the population standard deviation of that single instance's features whenever it is positive; the unit-norm scaler returns x divided by its p-norm whenever that is positive, so the result has p-norm 1. No scaler keeps state between instances or modifies its input, so the result for an instance does not depend on what was fitted or transformed before.",
     ["inputs", "histories", "configurations"], "all finite feature vectors of any length, norm orders, and histories",
     "tests use strictly positive uniform random 25-vectors and the Euclidean norm only",
     [PR + "identity_scaler.py", PR + "instance_standard_scaler.py", PR + "instance_unit_norm_scaler.py"], [("transform_partial", PR)], ["transform_partial result"])
prop("C14", "Seasonal-trend decomposition subtracts trailing trend and seasonal mean",
     "Fitting-and-transforming the t-th instance returns x minus the mean of the last min(trend_window, t) instances (x included) minus the average of the detrended values recorded so far (x's included) at the same position in the season, where detrended values are only recorded once the trend window is full and the seasonal term is 0 while none is recorded for that position. Transforming without fitting uses only the already fitted instances and changes nothing, and fitting then has the same effect on later results as fitting-and-transforming.",
     ["inputs", "histories", "configurations"], "all streams (multivariate), season lengths, trend windows (also different from the season length) and fit/transform interleavings",
     "tests use one exactly periodic univariate pattern with trend window equal to the season length, for which most mistakes cancel",
     [PR + "seasonal_trend_decomposer.py"], [("rolling window, per-phase sums and counts, instance counter", PR + "seasonal_trend_decomposer.py")], ["fit_transform_partial / transform_partial results"])
prop("C15", "Modified STL residual equals value minus seasonal minus window median",
     "For a window of at least two periods the residual transformer returns, elementwise, value minus the STL seasonal component of that same window (fitted with the configured period, robustness and extra options) minus the median of the window, and it rejects shorter or multivariate windows. Streaming use returns the newest residual of the last window_size values including the current one, 0 until two periods are available; transforming alone leaves the stored window untouched while fit-and-transform stores the value exactly once.",
     ["inputs", "histories", "configurations"], "all value windows, all seasonal components STL may return, periods, window sizes and fit/transform interleavings",
     "tests replace the window transform or use one fixed 4-value window",
     [PR + "modified_stl_residual.py", "pysad/utils/window.py"], [("transform_window, candidate/current window", PR + "modified_stl_residual.py")], ["transform_window / transform_partial results", "arguments given to STL"])
prop("C16", "Seasonal ESD scores follow the generalized ESD test on the residual window",
     "A (hybrid) seasonal ESD model scores 0 until window_size values (current one included) are available; then it applies the generalized ESD test with at most max_anomalies removals to the residuals of the last window_size values, with mean and sample standard deviation (hybrid: median and scaled median absolute deviation), and returns the newest value's test statistic if and only if it is among the detected anomalies, else 0. Scoring leaves the window untouched and fit-and-score stores the value once; invalid configurations and non-univariate inputs are rejected.",
     ["inputs", "histories", "configurations"], "all residual windows (any STL output), window sizes, anomaly limits and significance levels",
     "tests use two 5-value windows with an obvious outlier and max_anomalies=1, so masking, several removals and the backward selection of the test are not exercised",
     ["pysad/models/seasonal_esd.py", PR + "modified_stl_residual.py"], [("_esd, _critical_value, _center_scale, _score_window", "pysad/models/seasonal_esd.py")], ["score_partial / fit_score_partial results"])
prop("C17", "Deviation models score the standardised distance from the running centre",
     "After any univariate history the standard-deviation model scores x as (x - c)/(s + 1e-10), with c the mean (or median) and s the population standard deviation of all fitted values; the median-absolute-deviation model scores x as (x - median)/(b * m + 1e-10), with m the median over all fitted values of their distance to the median at the time they were fitted; with absolute scoring on, the absolute value is returned. Scores are finite for every finite history, including constant ones.",
     ["inputs", "histories", "configurations"], "all univariate histories and query values, both centres, absolute or signed, all b",
     "the standard-deviation test scores one seeded stream and the median one only checks the output shape; constant and repeated values and rounding of the variance are not covered",
     ["pysad/models/standard_absolute_deviation.py", "pysad/models/median_absolute_deviation.py", ST + "variance_meter.py", ST + "median_meter.py", ST + "average_meter.py"],
     [("score_partial over meters", "pysad/models/")], ["score_partial result"])
prop("C18", "Exact-STORM scores the fraction of close neighbours in its window",
     "The Exact-STORM model scores an instance as the fraction of the window's instances other than the most recently fitted one whose Euclidean distance to it is strictly below max_radius, and 0 if there is no such instance; the window holds exactly the last window_size fitted instances. The score lies in [0, 1], and scoring changes nothing.",
     ["inputs", "histories", "configurations"], "all histories, query instances, window sizes and radii, boundary distances included",
     "the test only checks the output shape",
     ["pysad/models/exact_storm.py", "pysad/utils/window.py"], [("window and distance count", "pysad/models/exact_storm.py")], ["score_partial result"])
prop("C19", "Half-space tree scores reflect the reference window's mass profile",
     "A half-space-trees model scores an instance as minus the sum over trees and over the nodes on its root-to-leaf path of (reference mass of the node) * 2^depth, where each tree halves the configured range of a randomly drawn feature at every level down to the configured depth (values equal to a split go to the lower half), and a node's reference mass is the number of instances falling in it among the last complete block of window_size fitted instances (among all fitted ones while the first block is being filled). Initial-window instances count as fitted. Scoring changes nothing.",
     ["inputs", "histories", "configurations", "schedules"], "all instances (also outside the declared range or on a split), window sizes, depths, tree counts and random feature draws",
     "the test only checks the output shape on one random stream with the default window",
     ["pysad/models/half_space_trees.py"], [("tree construction, mass update, model update at block ends, path score", "pysad/models/half_space_trees.py")], ["score_partial result"])
prop("C20", "xStream scores come from half-space chain counts of the reference window",
     "An xStream model scores an instance as the negated mean over its chains of the minimum over depths d of log2(1 + count_d) + d, where count_d is the number of instances of the last complete block of window_size fitted instances (all fitted ones while the first block is being filled) that fell, when they were fitted, in the bin in which the instance falls at depth d. Bins are per-feature halvings of the projected instance shifted by the chain's random shift for that feature (uniform between 0 and the scale) and scaled by half the value range (per projected feature) of the reference block current at that moment, 0.5 before the first block completes and 1 where that half range is at most 0.0001. Scoring changes nothing.",
     ["inputs", "histories", "configurations", "schedules"], "all streams, window sizes, depths, chain counts, random shifts and feature draws",
     "tests only check output shapes",
     ["pysad/models/xstream.py", "pysad/transform/projection/streamhash_projector.py"], [("_Chain.fit / bincount / score / next_window, deltamax update", "pysad/models/xstream.py")], ["score_partial result"])
prop("C21", "RS-Hash scores the decayed count of the instance's hash cells",
     "After fitting an instance an RS-Hash model reports the mean over its components of ln(1 + c), where c is the exponentially decayed number (factor 2^-decay per step) of earlier instances that fell in the same grid cell of that component's randomly drawn features, shift and cell width (width uniform between 1/sqrt(s) and 1 - 1/sqrt(s) with s the larger of 1000 and 1/(1 - 2^-decay); shift uniform between 0 and the width; features with an empty declared range are not drawn). Scoring returns this value unchanged however often it is called and ignores its argument.",
     ["inputs", "histories", "configurations", "schedules"], "all streams, decays, component and hash counts and random draws",
     "the test only checks the output shape",
     ["pysad/models/rs_hash.py"], [("cell computation, time-stamped decayed counters", "pysad/models/rs_hash.py")], ["score_partial result"])
IN = "pysad/models/integrations/"
prop("C22", "Reference-window models retrain on exactly the latest reference window",
     "A reference-window model (window size >= 2) always scores with a freshly built wrapped model trained once on its current reference window: while no initial window is given and fewer than window_size instances arrived, that is all instances so far (retrained at every instance); afterwards it retrains exactly at the instances whose number since the start of the stream is a multiple of sliding_size, on the most recent window_size of the initial-window and streamed instances, in arrival order. With an initial window it starts out trained on the whole initial window. Labels, when supplied throughout, are carried along aligned with their instances; labels that come after an initial window without labels are ignored. The user's keyword arguments reach every wrapped model, and the isolation-forest ASD model slides by its full window.",
     ["inputs", "histories", "configurations"], "all window and sliding sizes, with or without initial window and labels, all streams",
     "tests run a few fixed sizes and mostly check that scoring does not raise; two regressions fixed upstream (issues 23 and 25) were of exactly this kind",
     [IN + "reference_window_model.py", IN + "pyod_model.py", "pysad/models/iforest_asd.py"], [("fit_partial window bookkeeping and _fit_model", IN + "reference_window_model.py")], ["data passed to the wrapped model's fit", "decision_function call and returned score"])
prop("C23", "One-fit, perfect, null and random baseline models keep their contract",
     "A one-fit model trains its wrapped model exactly once, on the initial data (and labels, if given) with the user's keyword arguments, and scores every instance by that model's decision function whatever is fitted later. The perfect model returns the fitted labels first-in first-out and rejects a missing label, the null model always returns 0.5, and the random model returns the next uniform draw from [0, 1) of the seedable generator; these three ignore the features.",
     ["inputs", "histories"], "all label/instance sequences and fit/score interleavings",
     "tests fit one model and check types, or one label sequence",
     [IN + "one_fit_model.py", IN + "pyod_model.py", "pysad/models/perfect_model.py", "pysad/models/null_model.py", "pysad/models/random_model.py"], [("fit once in the constructor", IN + "one_fit_model.py"), ("label queue", "pysad/models/perfect_model.py")], ["score_partial results", "calls on the wrapped model"])
prop("C24", "Random cut forest holds exactly the most recent tree_size instances",
     "After any number of fitted instances every tree of the robust random cut forest holds exactly the most recent min(tree_size, n) of them. Once at least one instance is fitted, scoring returns the average over the trees of the collusive displacement of the instance (inserted temporarily when no equal point is present) and leaves every tree as it was.",
     ["inputs", "histories", "configurations"], "all streams (duplicates included), tree sizes and tree counts, and fit/score interleavings",
     "the test streams 150 instances into trees of size 256, so eviction never happens",
     ["pysad/models/robust_random_cut_forest.py"], [("forget oldest index, insert, probe insert/forget when scoring", "pysad/models/robust_random_cut_forest.py")], ["points held by the trees", "score_partial result"])
PJ = "pysad/transform/projection/"
prop("C25", "Projectors apply one fixed linear map to every instance of the stream",
     "The stream-hash projector maps an instance x to a vector of exactly num_components entries, each a fixed linear combination of x's features whose coefficients depend only on (component, feature position) and are -c, 0 or +c with c = sqrt(1/density)/sqrt(num_components), chosen by the feature's hash against density/2 and density. The random projectors draw their matrix once per stream, so every instance is projected by the same matrix.",
     ["inputs", "histories", "configurations"], "all instances, hash values, densities and component counts",
     "tests only check the output shape",
     [PJ + "streamhash_projector.py", PJ + "random_projector.py"], [("hash thresholds and constant, dot product", PJ + "streamhash_projector.py"), ("projector construction", PJ + "random_projector.py")], ["transform_partial results"])
prop("C26", "KitNET respects its phases and partitions the features",
     "Once at least one instance is fitted, a KitNET model scores 0 until its feature map is learnt, from the correlations of the first grace_feature_mapping + 1 instances, and its autoencoders are first trained; it then trains them on the following instances until grace_feature_mapping + grace_anomaly_detector + 1 instances were fitted in total, and is frozen afterwards: further fitting or scoring never changes any later score. The learnt feature map assigns every feature to exactly one autoencoder and none gets more than max_size_ae features (also when there is a single feature). Every score is finite.",
     ["inputs", "histories", "configurations"], "all grace periods, autoencoder size limits, feature counts and feature-correlation dendrograms, and fit/score interleavings",
     "the test leaves the default grace periods of 50000, so the model never leaves its first phase",
     ["pysad/models/kitnet.py", "pysad/models/kitnet_model/KitNET.py", "pysad/models/kitnet_model/corClust.py", "pysad/models/kitnet_model/dA.py"], [("process/train/execute phase tests", "pysad/models/kitnet_model/KitNET.py"), ("__breakClust__", "pysad/models/kitnet_model/corClust.py")], ["score_partial results", "feature map"])
prop("C27", "KNN-CAD outputs conformal scores after its probationary period",
     "A KNN-CAD model (probationary period of at least 48) scores 0 until probationary_period instances are fitted; afterwards its score is the fraction of its probationary_period - 19 kept nonconformity scores strictly below the nonconformity of the latest 19 values: the sum of the 27 smallest squared distances (d S d) between that window and the training windows, where S is the identity until probationary_period, then the inverse of the training windows' Gram matrix, renewed every half period; except that after a score of at least 0.9965 the next probationary_period/5 scores (rounded down) are 0.5. Every score lies in [0, 1].",
     ["inputs", "histories", "configurations"], "all univariate streams and probationary periods that leave more training items than neighbours",
     "the test only checks the output shape",
     ["pysad/models/knn_cad.py"], [("score_partial, calibration score queue", "pysad/models/knn_cad.py")], ["score_partial result"])
prop("C28", "Relative-entropy model compares the current window with its first one",
     "A relative-entropy model fed values within its configured range scores 0 until window_size values are fitted; afterwards it scores 0 when the statistic 2 * window_size * KL(current window histogram || histogram of the first full window) is below the 99% chi-square threshold with num_bins - 1 degrees of freedom, and -1 otherwise. The histogram covers exactly the last window_size values, quantised by rounding up into num_bins equal steps of the configured value range (the bottom edge belongs to the first bin and the top edge to the last), and scoring changes nothing.",
     ["inputs", "histories", "configurations"], "all univariate streams, value ranges, bin counts and window sizes",
     "the test checks shape and warnings on one uniform stream",
     ["pysad/models/relative_entropy.py"], [("quantisation, histogram, agreement test", "pysad/models/relative_entropy.py")], ["score_partial result"])
prop("C29", "Reading results never changes later results or the caller's data",
     "For every component whose scoring or transforming is documented as a read (all models except the label-echoing perfect model, the random model and KNN-CAD's alarm hold-off; all transformers, postprocessors, calibrators and ensemblers; all statistics and metrics), inserting any number of extra score, transform or get calls on arbitrary instances into a stream leaves every later result as it would have been without them, given the same random choices while fitting. No call modifies the arrays it is given.",
     ["histories", "inputs"], "all streams and all positions and arguments of additional read calls, for every component",
     "tests call fit and score in one fixed alternation and never compare two histories",
     ["pysad/models/", "pysad/transform/", "pysad/statistics/", "pysad/evaluation/"], [("read methods", "pysad/core/base_model.py")], ["results of two runs differing only in extra reads"])
prop("C30", "Equal seeds and streams give equal results; instances share no state",
     "Two instances of the same component built with the same parameters and driven with the same stream and the same random draws give identical results, whatever other instances of the library were created or used in between: no component keeps state outside its instance and all randomness comes from the global generators that fix_seed seeds. Fixing a seed resets both the Python and the numpy global generators to that seed.",
     ["histories", "schedules", "inputs"], "all streams, all random draws and all interleavings of two instances of a component",
     "tests run single instances; only fix_seed itself is tested, for numpy only",
     ["pysad/", "pysad/utils/__init__.py"], [("constructors, fix_seed", "pysad/utils/__init__.py")], ["results of two runs"])
prop("C31", "Data helpers split features and labels and bound the data exactly",
     "Loading a text dataset (also one with a single row) returns all columns but the last as features and the last one as labels, loading a MATLAB file returns its X and flattened y, rows in file order; the data iterator streams those rows with their labels, in an order that depends only on the given seed, whatever other random numbers are drawn before it is consumed. The min/max helpers return for every feature (or the whole array) values that are attained and that bound all entries from below and above.",
     ["inputs", "configurations"], "all dataset contents, shapes and seeds, all arrays",
     "tests use one tiny file and a few arrays",
     ["pysad/utils/data.py", "pysad/utils/__init__.py"], [("get_data, get_iterator", "pysad/utils/data.py"), ("get_minmax_array, get_minmax_scalar", "pysad/utils/__init__.py")], ["returned arrays"])
prop("C32", "LODA scores by the histograms of sparse random projections",
     "A LODA model scores an instance as the average, over its random cuts and additionally divided by their number, of minus the logarithm of the normalised histogram mass (of the most recently fitted instance) in the bin that contains the instance's projection, the outermost bins extending beyond the histogram's range. Each cut keeps floor(sqrt(number of features)) features, chosen once per stream; every score is finite, and scoring changes nothing.",
     ["inputs", "histories", "configurations", "schedules"], "all streams, bin and cut counts and random projections",
     "the test only checks the output shape",
     ["pysad/models/loda.py"], [("projection, histogram and log score", "pysad/models/loda.py")], ["score_partial result"])
prop("C33", "Density-matrix (Inqmad) scores reflect every instance fitted so far",
     "An Inqmad model's score of an instance equals the squared length of the product of its normalised Fourier-feature state with the density matrix (the average of the outer products of the states) of all instances fitted before the call, whether or not the model was scored earlier.",
     ["inputs", "histories"], "all streams and fit/score interleavings",
     "the test only checks the output shape",
     ["pysad/models/inqmad.py"], [("initial_train, predict", "pysad/models/inqmad.py")], ["score_partial result"])
prop("C34", "Local outlier probabilities delegate to the calibrated LoOP model",
     "The local-outlier-probability model calibrates once, on the initial data with the configured neighbour count and extent, and scores every streamed instance by the streaming local outlier probability with respect to that calibration, whatever is fitted or scored in between.",
     ["inputs", "histories"], "all initial data sets and streams",
     "the test only checks the output shape",
     ["pysad/models/loop.py"], [("PyNomaly delegate", "pysad/models/loop.py")], ["score_partial result"])
prop("C35", "KitNET scores are the reconstruction errors of its two autoencoder layers",
     "Once trained, a KitNET model's score of an instance is the root mean square error with which its output autoencoder reconstructs the vector of the root mean square errors of the ensemble autoencoders, one per part of the feature map. Every autoencoder scales its input by the minima and maxima seen in its training, has tied weights, ceil(hidden_ratio * inputs) sigmoid units and fixed starting weights (uniform in +-1/inputs, RandomState(1234)), and takes exactly one gradient step of size learning_rate per training instance (the biases move by the mean of their gradient), the output layer on the ensemble's errors before that step.",
     ["inputs", "histories", "configurations"], "all scored instances (and the last training instance, within the range seen) after fixed training streams, over layer sizes, learning rates and hidden ratios",
     "the test leaves the default grace periods of 50000, so no autoencoder is ever trained",
     ["pysad/models/kitnet.py", "pysad/models/kitnet_model/KitNET.py", "pysad/models/kitnet_model/dA.py", "pysad/models/kitnet_model/utils.py"], [("train, execute", "pysad/models/kitnet_model/dA.py"), ("train/execute of the two layers, __createAD__", "pysad/models/kitnet_model/KitNET.py")], ["score_partial result"])

ALL = ["pysad/models/exact_storm.py", "pysad/models/robust_random_cut_forest.py", "pysad/models/median_absolute_deviation.py", "pysad/models/standard_absolute_deviation.py", "pysad/models/relative_entropy.py", "pysad/models/knn_cad.py", "pysad/models/integrations/reference_window_model.py", "pysad/models/half_space_trees.py", "pysad/models/rs_hash.py", "pysad/models/xstream.py", "pysad/models/loda.py", "pysad/models/kitnet.py", "pysad/transform/preprocessing/seasonal_trend_decomposer.py", "pysad/transform/preprocessing/modified_stl_residual.py", "pysad/transform/projection/streamhash_projector.py", "pysad/transform/projection/random_projector.py"]
prop("C36", "Results depend on the numbers given, not on their numeric type",
     "Every model, transformer, ensembler, postprocessor, calibrator, statistic and metric gives (up to rounding) the same results for a stream of whole numbers whether it arrives as double precision numbers or as 64-bit, 16-bit signed or 8-bit unsigned integers (scalar components: also Python integers), in single instances, whole matrices or constructor arrays; and whole-numbered constructor parameters may be numpy integers: nothing is truncated to an integer, and no intermediate value overflows the input's type.",
     ["inputs", "histories", "configurations"], "all whole-numbered streams within the range of the type, for every public component",
     "tests feed double precision random numbers almost everywhere; an overflow or truncation needs particular values in a particular type",
     ALL + ["pysad/statistics/sum_squares_meter.py", "pysad/statistics/median_meter.py", "pysad/statistics/abs_statistic.py"],
     [("arithmetic on and storage of incoming values", "pysad/models/, pysad/transform/, pysad/statistics/")], ["score_partial / transform_partial / get results"])
prop("C37", "What a component has learned does not change with the caller's arrays",
     "After an array has been given to fit_partial, to fit or to a constructor (initial windows, feature ranges), or has been returned by a score or transform call, the caller may overwrite or reuse it: every later result is the same as if it had been left alone. In particular a stream read through one reused buffer gives the results of the same stream read through separate arrays. Nor do later calls change what was returned earlier.",
     ["inputs", "histories"], "all streams, all positions at which arrays are overwritten and all values written, for every public component that takes arrays",
     "tests index rows of a fixed random matrix that is never modified",
     ALL,
     [("windows and trees that keep fitted instances", "pysad/models/, pysad/transform/preprocessing/"), ("initial windows", IN + "reference_window_model.py")], ["score_partial / transform_partial results after the overwriting"])

prop("C38", "A copied component goes on exactly like the original, and separately",
     "At any point of a stream a model, transformer, ensembler, postprocessor, calibrator, statistic or metric can be copied (copy.deepcopy) or saved and loaded (a pickle round trip); from then on the copy gives the results the original would give for the same continuation and the same random draws, and neither is affected by what the other is fed. (Excepted is the random cut forest, whose third-party trees refuse to be copied; wrapped third-party detectors have to be copyable themselves.)",
     ["inputs", "histories"], "all streams before and after the copy, all positions of the copy, for every public component",
     "no test copies or pickles a component",
     ALL + ["pysad/models/kitnet_model/dA.py"],
     [("state held by the components", "pysad/models/, pysad/transform/, pysad/statistics/, pysad/evaluation/")], ["results of the copy and of the original after the copy"])
prop("C39", "Finite streams give finite results, also degenerate ones",
     "Every score, transformed instance, statistic and metric value read from a component that has been fed finite numbers of ordinary magnitude (after at least as many instances as the component needs to report anything) is a finite number, never NaN or infinite: also for constant streams, instances that are zero or have equal features, features that never vary, and values at the ends of the configured range. Where a deviation or norm of 0 would have to be divided by, the result is what a divisor of 1 gives: z-score postprocessors report s - mean while all their scores are equal, the instance standard scaler maps an instance with equal features to zeros, and the unit-norm scaler leaves a zero instance as it is.",
     ["inputs", "histories"], "all finite streams, in particular all constant ones and all departures from them, for every public component",
     "tests feed uniform random numbers, which are never constant, zero or equal",
     ALL, [("divisions, logarithms and roots of stream statistics", "pysad/models/, pysad/transform/, pysad/statistics/")], ["score_partial / transform_partial / get results"])
prop("C40", "Documented limits are enforced and rejected calls leave no trace",
     "The seasonal components accept exactly the configurations within their documented limits and raise ValueError otherwise: the STL residual transformer period >= 2 and (if given) window_size >= 2 * period; the decomposer season_length >= 1 and (if given) trend_window >= 1; seasonal (hybrid) ESD period >= 2, window_size >= 2 * period, 1 <= max_anomalies <= 0.49 * window_size and 0 < alpha < 1; the deviation model only the statistics mean and median. Inputs they reject later (several or no values where one is expected, windows that are too short or multivariate, a missing label for the perfect model, an ROC value while one class is missing, instances and labels of different length in a streamer) raise and leave the component as it was: every later result is as if the rejected call had not been made.",
     ["inputs", "configurations", "histories"], "all parameter values around the limits, all positions of rejected calls in all streams",
     "tests try a few invalid values each and throw the object away afterwards",
     [PR + "modified_stl_residual.py", PR + "seasonal_trend_decomposer.py", "pysad/models/seasonal_esd.py", "pysad/models/standard_absolute_deviation.py", "pysad/models/median_absolute_deviation.py", "pysad/models/perfect_model.py", "pysad/evaluation/metrics.py", "pysad/utils/array_streamer.py"],
     [("constructor checks and input checks", "pysad/models/, pysad/transform/preprocessing/")], ["exceptions raised; later results"])
prop("C41", "Windowed components forget what has left their window",
     "The results of components with a bounded memory depend only on the instances still in it: a running statistic or running postprocessor, a windowed calibrator, Exact-STORM, the seasonal ESD models and the STL residual transformer on the last window_size values, the random cut forest (apart from the forest's random cuts) on the last tree_size instances, half-space trees on the last complete and the current block of window_size instances, xStream on the last three blocks, reference-window models on the last reference window and the instances of the current slide. Whatever came before (any values, any number of instances that keeps the block boundaries where they are) makes no difference.",
     ["inputs", "histories"], "all prefixes, all suffixes that cover the memory, for every component with bounded memory",
     "tests never compare a long stream with its recent part",
     [ST + "running_statistic.py", PP + "running_postprocessors.py", PC + "conformal_prediction.py", PC + "gaussian_tail.py", "pysad/models/exact_storm.py", "pysad/models/half_space_trees.py", "pysad/models/xstream.py", "pysad/models/robust_random_cut_forest.py", "pysad/models/seasonal_esd.py", PR + "modified_stl_residual.py", IN + "reference_window_model.py", "pysad/utils/window.py"],
     [("windows and block counters", "pysad/")], ["results after the suffix"])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P))
