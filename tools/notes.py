"""Per property: (technique for the manifest, level note, paragraph for DESIGN.md). Used by manifest.py and design.py."""
STD = 'Held on K executions (counts in the evidence file), never "verified": says nothing about inputs the workload did not produce.'
_N = {
 'C01': ('two-run non-interference monitor over random datasets and configurations',
   'Two datasets equal up to a random cut (later part replaced, or removed) are formatted with the same configuration; every delivered row before the cut, every column and the set of rows must be identical. Datasets include dropped rows and short runs of missing cells next to the cut; negative lags are bounded by the window end in the metadata. Unit tests never perturb the future.'),
 'C02': ('brute-force reference model of every generated column + window perturbation',
   'Each column is recomputed by a loop from its declaration (statistic, lag, window, bins) and its name/metadata decoded; a second monitor perturbs single observations inside and outside the reported window. Lags -8..12, windows 1..8 steps, durations or steps, custom callables, repeated use.'),
 'C03': ('reference row set, frame digests and call histories',
   'Complete rows are computed by the oracle from brute-force windows; the delivered index, the pass-through of original columns, absence of missing generated values, the newest row at prediction time, input frames (also shuffled, views, object columns) before and after, and repetition after other data are observed.'),
 'C04': ('reference normalization and round-trip monitor',
   'Normalizers by brute force, normalized targets and features by evaluating the expression in the oracle, denormalization of point and quantile tables back to the raw values, signals without a normalizer (or with one of several) checked for scope, forecasters owning a formatter checked to answer and to keep residuals in original units.'),
 'C05': ('interval monitor on every produced fold',
   'Look-back and look-ahead are taken from the declared configuration, not from the code; train, test and dead-band membership of each row is recomputed and overlap of windows is forbidden. Irregular indices, multipliers, too short series.'),
 'C06': ('recomputed selection over call sequences',
   'The kept columns for every step, method, period and tolerance are recomputed from declared windows; sequences of selections on one formatter detect state left behind.'),
 'C07': ('differential monitor: stacked, threaded, simulated and parallel runs against plain ones',
   'Each signal of the stacked form is compared with a fresh formatter on that signal alone (missing cells included). The rounds of the parallel form are observed with the distributed map replaced by a sequential stand-in (ray itself runs once per quick check: starting it dominates the cost). Metadata after simulation is compared with the real one, also after work on data with another step.'),
 'C08': ('independent calendar (zoneinfo arithmetic on UTC instants, day-by-day holiday rules)',
   'Every calendar value is recomputed without pandas calendars, in 10 zones around DST changes and year ends; sub-ranges must give the same values.'),
 'C09': ('residual quantiles recomputed from point forecasts; label, order and table/array monitors',
   'For every forecaster class the quantiles are rebuilt from the point forecasts on the held-out rows (per hour when all hours are present).'),
 'C10': ('recorded rows handed to the dependence estimation',
   'The residual table that reaches the scenario generator is recorded and compared with the source rows (values, index, cap, hours, reproducibility); an aggregate workload bounds unfairness between hours statistically.'),
 'C11': ('two-run non-interference on held-out targets',
   'Fits that differ only in held-out (or training) targets; point forecasts (or quantiles) must (or must not) change. Split references for integer, ratio and time forms.'),
 'C12': ('digests of inputs and fitted state, row-wise differential',
   'Repeated, permuted, subset, single-row and interleaved predictions against each other; frames and readable fitted state are hashed before and after.'),
 'C13': ('differential histories: refit, set_params, clone, deepcopy, pickle against a new model',
   'A model with a history is compared with a new one under the same generator state; attributes are compared by behaviour (forecasts, quantiles, scenarios).'),
 'C14': ('codes observed at the boundary with the wrapped regressor',
   'A spy regressor records what reaches it; same category = same code, train and predict agree, unseen categories do not collide silently.'),
 'C15': ('independent recount of probability cells',
   'pmf cells and conditional frequencies recounted by a Python loop; mass, sign, support and labels.'),
 'C16': ('distribution monitor at a false-alarm level below 1e-9',
   'Thousands of scenarios per row and step against the distribution interpolating the predicted quantiles (DKW bound), seeds, initial nodes, labels.'),
 'C17': ('estimated matrices and rank correlation of draws against the residuals of the hour',
   'Per-hour dependence with deliberately different correlations, zones and permuted rows; sparse hours; positive semidefiniteness and unit diagonal.'),
 'C18': ('graph invariants on every produced tree', 'Every node/edge/probability/time of the networkx graph; builders, repeated values, default and given node counts.'),
 'C19': ('mass, survivor and nearest-scenario monitor on returned arrays', 'Values must be original ones, probabilities sum to one and follow merges, counts are monotone, the graph agrees with the arrays.'),
 'C20': ('superposition monitor: node values against stored error tree plus forecast', 'Every node of every row, order, hour, parallel prediction, repeated calls, initial observation.'),
 'C21': ('optimality against independently solved normal equations; coherence by names', 'MinT/OLS/WLS forms re-derived, columns looked up by name in shuffled tables.'),
 'C22': ('independent recursion over random hierarchies', 'Levels, leaves, sums, S matrix and target tables.'),
 'C23': ('scores recomputed cell by cell', 'Every score from its textbook definition on both layouts, ties, constant columns.'),
 'C24': ('group membership recount', 'Each cell recomputed from the rows of its group; masks, intervals, categories.'),
 'C25': ('event log of a spy model', 'Offline checker over the recorded log of fits, predictions and trials: exactly one fit and one evaluation per fold, no held-out row in a fit, objective value recomputed, best parameters returned.'),
 'C26': ('shadow recursion in plain Python', 'States and forecasts of the compiled recursion replayed; chunked, perturbed and gap streams; tuning trials recorded.'),
 'C27': ('shadow recursion over history', 'One plain recursion over fit and test data; futures perturbed; covariances and weights inspected.'),
 'C28': ('indexing oracle', 'Forecasts recomputed by indexing the concatenated history.'),
 'C29': ('label recovery and differential forests', 'Every target a different function of the features; must be found under its own label, per-step models refitted independently, parallel = serial.'),
 'C30': ('least squares on reported features, replay of stages', 'The linear map is re-solved on the features the model reports; boosted bins are replayed stage by stage.'),
 'C31': ('convexity / monotonicity / bounds monitors on forecasts for many weights', 'Midpoint and secant tests on triples in the optimization inputs at initial, in-training (recorded), trained, reloaded weights; the optimizer output re-evaluated.'),
 'C32': ('round-trip and causality monitors', 'decode(encode(x)) and perturbation after every step for random and trained parameters; activations on their range.'),
 'C33': ('save/load, rerun and unit-change differentials', 'Bitwise comparison of forecasts after reloading and retraining; affine unit changes with tolerances measured against training noise.'),
 'C34': ('numerical integration of the score', 'CRPS integral and likelihood for normal, log-normal and mirrored; propriety in expectation; finite gradients; network losses recomputed.'),
 'C35': ('cell-by-cell comparison', 'Values after downcast, chunk boundaries, order; ray once per run.'),
 'C36': ('definition oracles with recorded resamples', 'Bootstrap draws recorded while the real code runs; Kalman step against textbook Joseph form.'),
 'C37': ('bounds-checked compiled kernels replayed in the interpreter (sanitizer)', 'NUMBA_BOUNDSCHECK=1 for every jitted kernel while a monitor replays each call in pure Python on copies of its arguments: out-of-bounds accesses, mutation of inputs and miscompiled semantics become visible.'),
 'C38': ('plain recursion and one-shot filter of the known past', 'Fitted parameters read from the model; forecasts recomputed by an explicit recursion (no missing values) or by filtering training series, gap and rows up to the forecast at once; data starting next to, after, inside the training set; later rows cut or replaced; residual quantiles recomputed.'),
 'C39': ('recorded training arrays and hand-cut windows', 'The training call of the Keras network is recorded at the library boundary and compared (up to one affine scaling) with windows cut from the raw series; forecasts recomputed from the network; rows outside the window replaced, newest row changed.'),
 'C40': ('artist data read back from the figures', 'Animation functions are captured and frames drawn in random order; meshes, lines, bars, tick labels compared with the source; sources compared before and after.'),
 'C41': ('metamorphic pairs of executions', 'Each case runs the real code twice: as it is, and renamed (names that contain each other, spaces, signs, accents), reordered, with unrelated columns, in another unit (powers of two, so that floating point adds no difference) or moved by whole weeks; results compared value by value and label by label.'),
 'C42': ('interleaving and concurrency monitor', 'Call sequences on 2-5 objects run alone, then under random interleavings and from threads (barrier start, 10 microsecond switch interval); digests of every result compared with the undisturbed run; evidence counts interleavings, switches and threads.'),
 'C43': ('refusal monitor', 'Every documented refusal is provoked with one inadmissible value at a time (boundary values included) and its admissible twin is served next to it; after the refusals the object must give the results of a fresh one.'),
 'C44': ('cross-process differential monitor', 'The same seeded sequences run in processes that differ in hash seed, time zone, locale and working directory; all returned values and the forecasts of stored objects loaded elsewhere are compared.'),
}
NOTE = {k: ('runtime monitor: ' + a, STD) for k, (a, b) in _N.items()}
TEXT = {k: b for k, (a, b) in _N.items()}
