#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


M = "pysad/models/"
T = "pysad/transform/"
S = "pysad/statistics/"

prop("C01", "Independent components never influence one another",
     "However several component objects (models, transformers, postprocessors, calibrators, statistics, metrics) "
     "are interleaved in one process, including preemption between any two lines of library code, cancellation of "
     "a neighbour in the middle of a call and neighbours that are fed bad input, each object returns exactly what "
     "it returns when it runs alone on the same inputs with the same random draws, even when the objects were built "
     "from shared configuration or fed shared input arrays. Components that use no randomness do not consume or "
     "reset the process-wide random state of the others.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving (operation- and line-granular) of 2-4 tenants, every cancellation point, every operation history",
     "The tests drive one object at a time on one thread and never compare a run with neighbours to a run without.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation", "pysad/utils"],
     [("per-instance state only (no class-level or module-level mutable state)", "all constructors")],
     observe=["values returned by fit/score/transform/update/get of each tenant"])

prop("C02", "One seed, one output: seeded runs are exactly reproducible",
     "After fix_seed(s), building any component or pipeline and feeding it a given operation sequence yields "
     "bit-identical outputs every time: in another process, under another string-hash seed, at another wall-clock "
     "time, with other OS entropy, and whatever components were created, used or discarded before the seeding.",
     ["histories", "configurations", "schedules"],
     "every operation history, seed, prior process history, hash seed, clock value and entropy source",
     "Tests never rerun anything in a second process, under a second PYTHONHASHSEED or after different prior activity.",
     ["pysad/utils/__init__.py", "pysad/models", "pysad/transform/projection", "pysad/utils/array_streamer.py"],
     [("all randomness drawn from the two generators fix_seed seeds", "pysad/utils/__init__.py fix_seed")],
     observe=["output digests of node A and node B"])

prop("C03", "A checkpointed component resumes exactly after a crash",
     "A component saved with pickle or copy.deepcopy at any operation boundary and restored after a crash, in the same "
     "or in a fresh process, continues exactly as the uninterrupted object would have, given the same remaining inputs "
     "and random draws; taking a checkpoint changes nothing in the live object, and a copy and its original share no "
     "mutable state afterwards.",
     ["crash_points", "histories", "fault_sequences"],
     "every checkpoint position, crash point (also inside a later call), restore target and operation history",
     "No test saves, copies or restores a component.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation"],
     [("state held in plain, serialisable instance attributes", "all components")],
     observe=["outputs after restore versus outputs of the uninterrupted run"])

prop("C04", "Batch calls equal streaming for every chunking and every failure point",
     "fit, score, fit_score, transform and fit_transform on a batch have exactly the effect and results of applying the "
     "corresponding single-instance operation to its rows (with their labels) in order, for every way of cutting a "
     "stream into chunks, including empty and one-row chunks; results have one float64 row per instance, and fit "
     "returns the object. If an instance in the middle of a batch is refused, exactly the instances before it have been "
     "absorbed and the error propagates.",
     ["histories", "inputs", "fault_sequences"],
     "every stream, chunking, mix of batch and single-instance calls, and position of a refused instance",
     "Tests compare a few fixed batches; none checks mixed chunkings, labels pairing per row, or failure in the middle of a batch.",
     ["pysad/core/base_model.py", "pysad/core/base_transformer.py", "pysad/core/base_postprocessor.py",
      "pysad/models/half_space_trees.py", "pysad/utils/__init__.py"],
     [("default batch loops", "pysad/core/base_*.py"), ("_iterate", "pysad/utils/__init__.py")],
     observe=["batch return values", "subsequent scores"])

prop("C05", "Scoring and reading never change what comes next",
     "score, transform and get may be called any number of times, duplicated, retried or "
     "interleaved anywhere in a stream, on any instance, without changing any later result, and two equal reads with no "
     "update in between return the same value (random draws made by the read itself aside). The only exceptions are "
     "by definition: PerfectModel's score consumes one label, and KNNCAD mutes the scores it reports after one it reported as an alarm.",
     ["schedules", "histories", "fault_sequences"],
     "every placement, multiplicity and repetition of reads in every history",
     "Tests never compare a stream with extra reads to the same stream without them.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation"],
     [("score_partial/transform_partial/get compute from state without updating it", "all components")],
     observe=["later outputs with and without the extra reads"])

prop("C06", "Statistics always equal the batch statistic of their current contents",
     "After any sequence of update and remove calls, every meter (average, count, max, min, median, sum, sum of squares, "
     "variance and the absolute-value wrapper of any of them) returns the plain batch statistic of the multiset currently "
     "held, variance is never negative, and a running statistic equals the statistic of the last window_size values; "
     "update and remove return the object.",
     ["histories", "fault_sequences", "inputs"],
     "every history of updates, removals (in any order, including duplicates), reads, and duplicated, lost or reordered deliveries",
     "Tests use a few short fixed arrays and remove in insertion order only.",
     [S], [("incremental update/remove pairs", "pysad/statistics/*.py"), ("window eviction", "pysad/statistics/running_statistic.py")],
     observe=["get()"])

prop("C07", "Postprocessors and calibrators compute over exactly the scores fitted",
     "After any history of fitted scores and transforms, Average/Max/Median/ZScore postprocessors and their running "
     "versions, the conformal calibrator (fraction of held scores strictly greater than the given one) and the Gaussian "
     "tail calibrator (normal CDF at the held mean and population variance, standard deviation 1 when the variance is "
     "zero) return their defining formula over all scores fitted so far, or over the last window_size for running or "
     "windowed versions; calibrated probabilities lie in [0, 1] and the Gaussian one never decreases as the score grows.",
     ["histories", "fault_sequences", "inputs"],
     "every history of fits, transforms, duplicated, lost, delayed and spiking scores, and every window size",
     "Tests use fixed arrays shorter than, or a single multiple of, the window.",
     [T + "postprocessing", T + "probability_calibration", "pysad/utils/window.py"],
     [("meters", "postprocessors.py, running_postprocessors.py"), ("score window", "conformal_prediction.py"),
      ("running mean and variance", "gaussian_tail.py")],
     observe=["transform_partial / fit_transform_partial"])

prop("C08", "Metrics evaluate exactly the pairs seen; windowed metrics average windows",
     "A metric returns the scikit-learn value over all (label, score) pairs in arrival order; a windowed metric returns "
     "the mean over completed windows of window_size pairs (with the partial last window as one more window when "
     "ignore_nonempty_last is False, and the partial window's own value before the first completes), every window being "
     "evaluated by a metric built with the same arguments. A window on which the metric is undefined makes update raise, "
     "is left out of the average, and leaves later windows unaffected.",
     ["histories", "fault_sequences"],
     "every history of pairs, reads at any point, window size, metric class and undefined (single-class) windows",
     "Tests use a couple of fixed label arrays; no undefined window, no constructor arguments, no read in mid-window.",
     ["pysad/evaluation"], [("pair log", "pysad/evaluation/metrics.py"), ("window roll-over", "pysad/evaluation/windowed_metric.py")],
     observe=["get() and exceptions of update()"])

prop("C09", "Wrapped batch detectors are trained on exactly the right window",
     "ReferenceWindowModel (and IForestASD) scores every instance with a fresh detector of the configured class and "
     "arguments fitted on exactly the reference window: everything so far during a cold start until window_size "
     "instances, the initial window if one is given, and after each sliding_size new instances the last window_size "
     "instances with their labels in order (without labels if the initial window had none); OneFitModel uses its initial data forever. If a refit fails, the error "
     "propagates and scoring continues with the last successfully fitted detector; later refits again use the exact window.",
     ["histories", "fault_sequences", "configurations"],
     "every stream, window/sliding size, initial window, labelled or not, and every failure of the wrapped detector's fit",
     "Tests only check that scoring runs; the training window is never observed and no fit ever fails.",
     [M + "integrations", M + "iforest_asd.py"],
     [("window bookkeeping", "reference_window_model.py fit_partial"), ("reset and refit", "_fit_model")],
     observe=["what the wrapped detector is fitted on", "scores"])

prop("C10", "Streamers deliver every instance exactly once with its own label",
     "ArrayStreamer, PandasStreamer and Data.get_iterator yield each row exactly once with its own label, in order "
     "without shuffling and in a permutation with it; the order is fixed when the iterator is created (so one fix_seed, "
     "or a seed given to get_iterator, determines it), whatever other iterators, random draws or abandoned iterations "
     "are interleaved, and the source data is never modified. Length mismatches between data and labels are refused.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of several live iterators over the same or other data, abandonment, random draws in between, and seeds",
     "Tests exhaust one iterator at a time and never interleave iterators or random draws.",
     ["pysad/utils/array_streamer.py", "pysad/utils/pandas_streamer.py", "pysad/utils/data.py"],
     [("index permutation drawn per iteration", "array_streamer.py iter")],
     observe=["sequence of yielded pairs"])

prop("C11", "The data loader returns the file's contents or raises, never something else",
     "Data.get_data on a comma-separated text file (last column is the label) or a MATLAB file (X and y) returns exactly "
     "the rows and labels stored there at the time of the call, also for one-row files and under short or interrupted "
     "reads; when the file is missing, unreadable, has a row with missing columns or fails in the middle of a read, it raises "
     "instead of returning altered or partial rows, and a retry after the fault is over succeeds with the then-current contents.",
     ["fault_sequences", "histories"],
     "every file content, sequence of disk faults, rewrites between calls, interleaved loads and retries",
     "Tests load two mocked arrays; no I/O error, short read, rewrite or retry is ever exercised.",
     ["pysad/utils/data.py"], [("loadtxt / loadmat parsing", "data.py get_data")],
     observe=["get_data, get_iterator"])

prop("C12", "A refused input leaves no trace",
     "When a component refuses an input by raising (wrong-shape instances for SeasonalESD, SeasonalHybridESD, "
     "ModifiedSTLResidualTransformer, MedianAbsoluteDeviation and StandardAbsoluteDeviation; a missing label for PerfectModel; "
     "removing a value a max/min/median meter does not hold; metrics that are undefined on the pairs so far; too short STL "
     "windows; data and labels of different lengths; a wrong-width or premature score or transform), everything it returns afterwards is exactly what it would return had the refused "
     "call not been made.",
     ["fault_sequences", "histories"],
     "every history and every position and kind of refused call, single or in bursts, retried or not",
     "Tests check that the error is raised, on fresh objects; none checks the object's state afterwards.",
     [M + "seasonal_esd.py", T + "preprocessing/modified_stl_residual.py", M + "median_absolute_deviation.py",
      M + "standard_absolute_deviation.py", M + "perfect_model.py", "pysad/evaluation", S],
     [("validate before mutate", "listed files")],
     observe=["later outputs with and without the refused calls"])

prop("C13", "Windowed components forget faulty data completely once it leaves the window",
     "After a burst of corrupted instances ends, every windowed component behaves, once its documented window (two windows "
     "for HalfSpaceTrees, three for xStream) has passed over correct data, as if the corruption had never happened: windows, running "
     "statistics and postprocessors, windowed calibrators, ExactStorm, SeasonalESD/HybridESD, the STL residual transformer, "
     "ReferenceWindowModel, IForestASD and KNNCAD.",
     ["fault_sequences", "histories", "configurations"],
     "every position, length and magnitude of a corruption burst, and every window configuration",
     "Tests never compare a corrupted stream's recovery against the clean stream.",
     ["pysad/utils/window.py", S + "running_statistic.py", T + "postprocessing/running_postprocessors.py",
      T + "probability_calibration", M],
     [("eviction of the oldest instance", "window.py, running_statistic.py"),
      ("mass/sketch roll-over", "half_space_trees.py, xstream.py")],
     observe=["scores of the faulty replica and of the clean replica after recovery"])

prop("C14", "Deterministic detectors score by their definition on every history",
     "For every history of fits and scores, ExactStorm, MedianAbsoluteDeviation, StandardAbsoluteDeviation, RelativeEntropy, "
     "KNNCAD, SeasonalESD, SeasonalHybridESD, KitNet, PerfectModel and NullModel return the score that an independent "
     "straightforward implementation of their published definition computes from the instances fitted so far (the last "
     "window_size for windowed ones).",
     ["histories", "fault_sequences", "configurations"],
     "every history of deliveries (lost, duplicated, reordered, stuck, spiking) and reads, and every configuration",
     "Tests only assert shapes or finiteness, or check one or two hand-made points.",
     [M], [("window and meter bookkeeping", "exact_storm.py, median_absolute_deviation.py, standard_absolute_deviation.py, "
            "relative_entropy.py, knn_cad.py, seasonal_esd.py, kitnet.py, perfect_model.py")],
     observe=["score_partial, fit_score_partial"])

prop("C15", "Random forests and sketches count exactly what they were fed",
     "Whatever their random choices, HalfSpaceTrees scores with the masses of the last completed window (the current one "
     "while it is the first) summed along one fixed tree path per tree, RSHash with the exponentially decayed count of "
     "earlier equal instances, xStream with the counts of the reference window, RobustRandomCutForest with the displacement "
     "among the last tree_size instances, and RandomModel with independent uniform draws from [0, 1).",
     ["histories", "configurations", "schedules"],
     "every random draw, stream over well-separated values, window configuration and placement of reads",
     "Tests assert only shapes on random data; nothing ties a score to the counts.",
     [M + "half_space_trees.py", M + "rs_hash.py", M + "xstream.py", M + "robust_random_cut_forest.py", M + "random_model.py"],
     [("mass update and window swap", "half_space_trees.py"), ("decayed count sketch", "rs_hash.py"),
      ("two-window count sketch", "xstream.py"), ("insert/forget", "robust_random_cut_forest.py")],
     observe=["score_partial, fit_score_partial"])

prop("C16", "Seasonal preprocessors follow the stream's phase on every history",
     "SeasonalTrendDecomposer returns the instance minus the mean of the last trend_window instances minus the average "
     "detrended value of the current season phase (zero until known), the phase advancing by one per fitted instance and "
     "by nothing else; ModifiedSTLResidualTransformer returns the newest value's residual of STL over the last window_size "
     "values, counting the given value as newest when it was not fitted, and 0 until two periods are held.",
     ["histories", "fault_sequences", "configurations"],
     "every mix of fit, transform and fit_transform calls, lost/duplicated instances, periods and windows",
     "Tests check one short hand-computed sequence each.",
     [T + "preprocessing/seasonal_trend_decomposer.py", T + "preprocessing/modified_stl_residual.py"],
     [("phase counter and per-phase sums", "seasonal_trend_decomposer.py"), ("candidate window", "modified_stl_residual.py")],
     observe=["transform_partial, fit_transform_partial"])

prop("C17", "Memory stays bounded on an unbounded stream",
     "The memory reachable from a windowed or constant-state component (all except the unwindowed median/max/min meters "
     "and their users, the unlimited calibrator, plain metrics and PerfectModel; RSHash and xStream keep one counter per distinct grid cell) stops growing once its window is full, "
     "however long the stream continues and whatever duplicated reads, refused inputs, failed refits and abandoned calls it sees.",
     ["histories", "fault_sequences"],
     "every stream length, window configuration and fault sequence",
     "Tests run at most a few hundred instances and never look at memory.",
     ["pysad/models", "pysad/utils/window.py", S + "running_statistic.py", T],
     [("eviction", "window.py, running_statistic.py, reference_window_model.py, robust_random_cut_forest.py, relative_entropy.py, knn_cad.py")],
     observe=["size of the object graph reachable from the component"])

prop("C18", "Inputs are never modified, and a reused input buffer does no harm",
     "No operation modifies an array, list, frame or label given to it, and a component never depends on the caller "
     "keeping it intact: if the producer overwrites its buffer with the next reading as soon as a call returns, all "
     "results are the same as with fresh arrays for every instance.",
     ["schedules", "histories"],
     "every component, every history, and every moment between calls at which the producer overwrites its buffer",
     "Tests build fresh arrays and never look at them again.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/core"],
     [("store values or private copies", "all stateful components")],
     observe=["contents of the inputs after each call", "scores with a reused buffer versus fresh arrays"])

prop("C19", "A fitted detector always has a finite score",
     "From its first fitted instance on (or from construction, for those that need no data), every detector answers every "
     "score with one finite number on finite in-range input, including during cold start, at phase and window boundaries, "
     "on constant (stuck), repeated and extreme streams and directly after faults.",
     ["histories", "fault_sequences", "configurations"],
     "every prefix of every finite stream, including stuck-at, spike and duplicate faults, and every configuration",
     "Tests use random Gaussian data and default configurations, mostly checking shape only.",
     ["pysad/models"], [("cold-start and zero-variance guards", "pysad/models/*.py, pysad/statistics/variance_meter.py")],
     observe=["score_partial, fit_score_partial"])

prop("C20", "A random projection is one fixed linear map for the whole stream",
     "A projector (Gaussian, sparse or stream-hash) applies one and the same linear map to every instance of a stream from "
     "its first use on: equal instances project equally whenever they arrive, projections of sums are sums of "
     "projections, the output is a vector of num_components entries, and no other use of the random generator in between changes it; "
     "the stream-hash map is the same in every process.",
     ["histories", "schedules"],
     "every stream, order of fit and transform calls and interleaved use of the random generator",
     "Tests project one batch and look at its shape.",
     [T + "projection"], [("projection matrix drawn once / hashed", "random_projector.py, streamhash_projector.py")],
     observe=["transform_partial, fit_transform_partial, batch variants"])

prop("C21", "A whole detection pipeline is the composition of its stages on every run",
     "A pipeline that streams data through preprocessing, projection, one or several detectors, score combination, "
     "postprocessing, calibration and a windowed metric reports, for every delivered instance, exactly the values obtained "
     "by applying the stages' definitions one after another, each instance counting exactly once in every stage, "
     "whatever is lost, duplicated or delayed before it, and however stages are polled, cancelled and resumed between instances.",
     ["histories", "fault_sequences", "schedules"],
     "every pipeline composition, delivery history, poll placement and crash/restore point between stages",
     "Example scripts run one pipeline without any oracle; the tests exercise stages one by one.",
     ["pysad/core", "pysad/models", "pysad/transform", "pysad/evaluation", "pysad/utils"],
     [("fit/transform/score contracts", "pysad/core")],
     observe=["final probabilities and metric values"])

prop("C25", "Results given out are snapshots",
     "A score, transformed instance, statistic or metric value returned by a component belongs to the caller: it never changes afterwards, "
     "whatever the component processes next, and overwriting it in place has no effect on anything the component returns later "
     "(aside from IdentityScaler, whose result is the given instance itself, and Window.get, whose result is the live window by contract).",
     ["histories"], "every component, operation sequence and moment at which the consumer overwrites a result it was given",
     "Tests compare a result right after the call and drop it; an alias of internal state shows only in a later operation.",
     ["pysad/models", "pysad/transform", "pysad/statistics"],
     [("returned arrays and lists", "score_partial/transform_partial/get of every component")],
     observe=["every returned array or list, at return and after all later operations"])

prop("C26", "Combined operations equal their parts",
     "For every model, transformer, postprocessor and calibrator, fit_score_partial or fit_transform_partial returns exactly what fit_partial followed by "
     "score_partial or transform_partial of the same instance returns, and leaves the object exactly as fit_partial alone does, at every point of every "
     "history. By definition, SeasonalESD, SeasonalHybridESD and ModifiedSTLResidualTransformer judge the instance as the newest of the window, the value "
     "score or transform gives just before the fit; SeasonalTrendDecomposer uses the phase of the instance itself; PerfectModel's score consumes its label.",
     ["histories"], "every component and every placement of combined and separate calls in a stream",
     "Tests call one form or the other; a difference shows only at particular window positions or in a later result.",
     ["pysad/core", "pysad/models", "pysad/transform"],
     [("combined calls", "fit_score_partial/fit_transform_partial in pysad/core and their overrides")],
     observe=["results of combined and separate calls and everything returned later"])

prop("C27", "A windowed component can be rebuilt from its last window alone",
     "A node that lost its state and feeds a new component, built with the same arguments and random draws, only the last window_size instances (two windows for HalfSpaceTrees, three for "
     "xStream, five probationary periods for KNNCAD; starting at a window, sliding or period boundary for components that work in blocks) gets from it, from then on, exactly what the uninterrupted component "
     "returns, up to the rounding of running sums, however long the stream was before. This holds for ExactStorm, HalfSpaceTrees, xStream, KNNCAD, SeasonalESD, "
     "SeasonalHybridESD, ModifiedSTLResidualTransformer, ReferenceWindowModel, IForestASD, the running statistics and postprocessors, the windowed calibrators and Window.",
     ["histories", "crash_points"], "every stream, moment of the loss, number of instances replayed and way of feeding them",
     "Tests never compare components with histories of different length.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/utils/window.py"],
     [("windows and step counters", "window handling of the components named")],
     observe=["results after the loss in both replicas"])

prop("C28", "Labels never reach detectors that ignore them",
     "For every detector documented as ignoring labels, scores and all later behaviour are exactly the same whichever labels accompany the instances: none, right, "
     "wrong, late, missing in places, NaN or of any type, one by one or in batches. This covers all models but PerfectModel, ReferenceWindowModel (which "
     "hands labels to the wrapped detector) and IForestASD without an initial window; OneFitModel learns from its initial labels only.",
     ["fault_sequences", "histories"], "every detector, stream and assignment of labels, by a faulty labeller, to its instances",
     "Tests pass one label array or none and never compare the two.",
     ["pysad/models", "pysad/core/base_model.py"],
     [("label argument ignored", "fit_partial/fit/fit_score of the models")],
     observe=["scores of two replicas with and without labels"])

prop("C29", "The values of a stream decide, not how they are encoded",
     "Instances, scores, labels and constructor data (bounds, windows, initial data, weights) with the same values give exactly the same results from every component however a sender encodes them: as float64 or, for whole numbers of moderate "
     "size, as 32 or 64 bit integers or Python ints, in another byte order, read-only, as a non-contiguous view (up to the rounding of BLAS dot products), as a row of a "
     "memory-mapped file or of another ndarray subclass, or as 0-d arrays for numbers, and when encodings alternate within one stream. Wrapped scikit-learn detectors are outside.",
     ["fault_sequences", "histories", "configurations"], "every component, stream, configuration and alternation of encodings between senders",
     "Tests feed one contiguous random float64 array; integer or alternating encodings never occur.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation"],
     [("arrays taken from instances and constructor data", "fit_partial and constructors")],
     observe=["results of two replicas fed the same values in different encodings"])

prop("C30", "It does not matter which thread, task or context makes a call",
     "As long as calls on a component do not overlap, its results are exactly the same whichever thread makes each call, whether the thread is new, reused or the one that built the component, and whatever "
     "contextvars context the call runs in: components keep no state per thread or context. The random draws of a component are those of the process-wide generator in call order."
     "",
     ["schedules", "histories", "configurations"], "every component, stream and assignment of non-overlapping calls to threads and contexts",
     "Tests run everything on the main thread.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation", "pysad/core"],
     [("instance state only, no thread-local or context state", "all fit_partial/score_partial/transform_partial/update/get")],
     observe=["results of a replica on one thread and one whose calls hop between threads and contexts"])

prop("C31", "The work of one operation is bounded, however long the stream has been",
     "Once a component's window, reference or capacity is filled, the work its own code does for one fit, score, transform, update or read no longer grows with the number of instances seen before, with the "
     "time since a region of the space was last visited, or with failed refits. Components documented to keep the whole stream (unlimited windows, unbounded median and metrics over everything) are outside.",
     ["histories", "configurations"], "every windowed or constant-state component and every long stream",
     "Tests feed a few dozen instances and never measure work.",
     ["pysad/models", "pysad/transform", "pysad/statistics/running_statistic.py", "pysad/utils/window.py", "pysad/evaluation/windowed_metric.py"],
     [("bounded state and loops", "fit_partial/score_partial/transform_partial/update/get")],
     observe=["lines, branches, jumps and calls of library code per operation"])

prop("C32", "A read that is interrupted or fails half-way leaves no trace",
     "When score_partial, transform_partial, get or their batch forms are cancelled, interrupted (KeyboardInterrupt) or run out of memory at any point, every later result is exactly the one that would have been returned "
     "had the read never been started (random draws it made aside). For RobustRandomCutForest, which has to hold an instance while scoring it, this is claimed for failures while the displacement is computed. "
     "KNNCAD's reads are left out once one has ended in an alarm, and so is PerfectModel.",
     ["crash_points", "fault_sequences", "histories"], "every component, stream and point at which a read can be interrupted",
     "Tests never interrupt a call.",
     ["pysad/models", "pysad/transform", "pysad/evaluation", "pysad/statistics"],
     [("reads do not write component state", "score_partial/transform_partial/get"), ("clean-up of the scored instance", "robust_random_cut_forest.py score_partial")],
     observe=["results of a replica with interrupted extra reads and one without"])

prop("C33", "Overlapping reads do not disturb one another",
     "While nothing is being fitted, score_partial, transform_partial, get and their batch forms may run on several threads at the same time, however they are preempted: each returns exactly what it returns alone, "
     "and nothing returned later changes. Left out are components whose read holds or changes something by definition: RobustRandomCutForest (holds the scored instance), KNNCAD (mutes scores after an alarm) and PerfectModel.",
     ["schedules", "histories", "configurations"], "every component, stream and interleaving of overlapping reads",
     "Tests never make two calls at once.",
     ["pysad/models", "pysad/transform", "pysad/evaluation", "pysad/statistics"],
     [("reads work on local data only", "score_partial/transform_partial/get")],
     observe=["results of overlapping reads and of the same reads made in turn"])

prop("C34", "Components neither change nor depend on the settings of their process",
     "After any construction or call, also one that raises or is cancelled half-way, floating point error handling, print options, warning filters, recursion limit, decimal context, garbage collector, working directory, "
     "environment, locale, time zone, signal handlers, timers, standard streams, hooks, module path, threads, open and temporary files are as they were. Results are the same under any of these settings "
     "(error handling that raises aside).",
     ["configurations", "crash_points", "histories"], "every component, stream, process setting and point of failure",
     "Tests run under one setting and never look at it afterwards.",
     ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation", "pysad/utils"],
     [("no process-wide settings touched", "all operations")],
     observe=["snapshot of the process's settings around every call; results of two nodes with different settings"])

prop("C22", "Stateless instance scalers and score combiners compute their formula",
     "InstanceStandardScaler, InstanceUnitNormScaler, IdentityScaler and the score ensemblers return their stated formula for each input.",
     ["inputs"], "every input", "Tests sample a few inputs.",
     [T + "preprocessing", T + "ensemble"], [("formula", "listed files")])

prop("C23", "Constructors refuse invalid configurations",
     "Invalid periods, window sizes, anomaly counts, significance levels and statistic names are refused at construction.",
     ["configurations"], "every configuration", "Tests sample the obvious invalid values.",
     [M + "seasonal_esd.py", T + "preprocessing", M + "standard_absolute_deviation.py"], [("argument checks", "constructors")])

prop("C24", "Anomalous instances score higher than normal ones",
     "A detector gives clearly anomalous instances higher scores than the bulk of the data it was fitted on.",
     ["inputs"], "every data distribution", "Statistical quality; tests do not measure it.",
     [M], [("detector design", "pysad/models")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
