"""Source of properties.jsonl: run `python3 tools/props.py` to regenerate it."""
import json, os

FM = 'pyforecaster/formatter.py'
FC = 'pyforecaster/forecaster.py'
SG = 'pyforecaster/scenarios_generator.py'
CO = 'pyforecaster/copula.py'
TB = 'pyforecaster/tree_builders.py'
SR = 'pyforecaster/scenred.py'
RE = 'pyforecaster/reconciliation/reconciliation.py'
ME = 'pyforecaster/metrics.py'
TR = 'pyforecaster/trainer.py'
HW = 'pyforecaster/forecasting_models/holtwinters.py'
FA = 'pyforecaster/forecasting_models/fast_adaptive_models.py'
BM = 'pyforecaster/forecasting_models/benchmarks.py'
GB = 'pyforecaster/forecasting_models/gradientboosters.py'
RF = 'pyforecaster/forecasting_models/randomforests.py'
FF = 'pyforecaster/forecasting_models/random_fourier_features.py'
SM = 'pyforecaster/forecasting_models/statsmodels_wrapper.py'
BN = 'pyforecaster/forecasting_models/neural_models/base_nn.py'
IC = 'pyforecaster/forecasting_models/neural_models/ICNN.py'
IN = 'pyforecaster/forecasting_models/neural_models/INN.py'
LY = 'pyforecaster/forecasting_models/neural_models/layers.py'
NU = 'pyforecaster/forecasting_models/neural_models/neural_utils.py'
LS = 'pyforecaster/forecasting_models/neural_models/LSTM_bidir.py'
BD = 'pyforecaster/big_data_utils.py'
SU = 'pyforecaster/stat_utils.py'
UT = 'pyforecaster/utilities.py'
PU = 'pyforecaster/plot_utils.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'Features never look into the future',
     'When a formatter is configured only with non-negative feature lags, every feature value delivered for time t is a function of '
     'observations at or before t: changing, or removing, any later observation leaves that row of features unchanged. '
     'When a feature does use a negative lag it depends on nothing later than the window end that the formatter reports for it.',
     ['inputs', 'configurations'],
     'for every dataset, sampling step, combination of lags, aggregation frequencies, bins, relative lags, functions, normalizers and every time t',
     'test_formatter samples one dataset with fixed lags and checks shapes and spot values; a leak appears only when the future is perturbed under the same configuration.',
     [FM], [('lagging and rolling aggregation', FM + ':Transformer.transform'), ('binned statistics', FM + ':Reducer')],
     ['rows returned by the dataset transformation for two datasets that differ only after t'])

prop('C02', 'Feature and target values match their declared definition and time window',
     'Every column the formatter generates (features and targets) equals the declared statistic of the declared source signal over the declared window: '
     'lag k means the value k steps (or k aggregation windows, for relative lags) earlier, negative lags mean the future, an aggregation covers exactly the stated number of steps, a bin covers exactly the stated steps. '
     'The time window reported in the metadata of the column is exactly the window of observations that the value depends on, and the column name states its lag.',
     ['inputs', 'configurations'],
     'for every signal, sampling step, function list, aggregation length given in steps or as a duration, lag vector, bin vector, and relative/absolute lags, on first and on repeated use of the same formatter',
     'Existing tests compare a handful of columns on one dataset; window, lag sign and naming conventions interact and an off-by-one shows only for particular combinations.',
     [FM], [('Transformer', FM + ':Transformer.transform'), ('naming', FM + ':hr_timedelta')],
     ['columns of the transformed dataset', 'per-transformer metadata table'])

prop('C03', 'Formatted features and targets stay aligned, complete and uncontaminated',
     'The formatted features and targets always share exactly the same timestamps, keep every row for which all generated values exist and no other, contain no missing generated value and pass original signals through unchanged at their own timestamps. '
     'Formatting without targets gives the same features on the common rows, and also the most recent rows needed at prediction time. '
     'Formatting never changes the caller\'s data and gives the same answer when repeated, also after formatting other data in between.',
     ['inputs', 'configurations', 'histories'],
     'for every dataset (also with gaps or missing values), every transformer configuration, and every sequence of transform calls on one formatter',
     'The tests never compare the surviving row set with the set of complete rows, nor call the same formatter in different sequences.',
     [FM], [('row filter', FM + ':Formatter._transform')], ['both outputs of the transform call', 'the input frame after the call'])

prop('C04', 'Target normalization is undone exactly and touches only its own target',
     'With a normalization expression and its inverse, denormalizing the normalized targets gives back the original targets for every row and step, for point values and for quantile tables, and does not modify the features passed in. '
     'Normalized target values equal the given expression evaluated on the original value and on the normalizer computed for that row from past data; a signal that has no normalizer is left unnormalized, and so are its features.',
     ['inputs', 'configurations'],
     'for every dataset, admissible normalizer (function, window, lag), invertible expression, number of targets and quantile levels',
     'Tests run one expression on one dataset with a single target.',
     [FM, FC], [('normalize/denormalize', FM + ':Formatter.normalize'), ('anti-transform of forecasts', FC + ':ScenarioGenerator.anti_transform')],
     ['targets before, after normalization, and after the inverse'])

prop('C05', 'Time cross-validation folds keep a leak-free distance between train and test',
     'For every fold the training and test rows are disjoint, and no training row is closer in time to the test window than the longest look-back used by the features. '
     'Each test set is exactly the contiguous set of rows in a window of the advertised length, every row outside the dead band is used for training, the advertised number of folds is produced and together the test windows cover the whole period.',
     ['inputs', 'configurations'],
     'for every time index (any step, gaps), number of folds, multiplier, and transformer configuration with any look-back',
     'The formatter test only prints the folds for one configuration.',
     [FM], [('fold generator', FM + ':Formatter.time_kfcv'), ('look-back from metadata', FM + ':Transformer.transform')],
     ['the masks yielded per fold against the time index'])

prop('C06', 'Per-step feature selection keeps exactly the features it promises',
     'Selecting features for one step ahead keeps, unchanged and on the same rows, exactly the columns whose time window satisfies the documented criterion for that step (same phase within tolerance for the periodic rule, ending no later than the target for the up-to rule, all otherwise), plus the requested recent lags, and the listed metadata columns. '
     'The selected set depends only on the declared time windows, not on data values, and selection never modifies the dataset or the stored metadata.',
     ['inputs', 'configurations', 'histories'],
     'for every transformer configuration, step ahead, method, period, tolerance and number of recent lags, in any call order',
     'One formatter test calls it for plotting with a single configuration and asserts nothing about the set kept.',
     [FM], [('pruning', FM + ':Formatter.prune_dataset_at_stepahead')], ['columns returned per step ahead'])

prop('C07', 'Global form, parallel and simulated formatting agree with plain formatting',
     'The global (stacked) form contains for every independent signal exactly the rows and values obtained by formatting that signal on its own, labelled with the signal name, up to the documented reduced precision. '
     'Formatting in parallel gives the same result as formatting serially, and a simulated run populates the same column metadata as a real run. '
     'When features are reordered by correlation, every signal keeps its own values and its own order, which is applied unchanged to the tables formatted later for prediction.',
     ['inputs', 'configurations', 'schedules'],
     'for every number of signals, shared covariates, flat or two-level columns, transformer set, reduced-memory setting, thread schedule',
     'One test checks that the global form runs; equivalence with the individual transforms is never compared.',
     [FM, BD], [('global form', FM + ':Formatter.global_form_preprocess'), ('parallel transform', FM + ':Formatter._transform'), ('simulate', FM + ':Formatter._simulate_transform'), ('memory reduction', BD + ':reduce_mem_usage')],
     ['stacked output grouped by signal name', 'metadata tables'])

prop('C08', 'Calendar features agree with the timestamps they label',
     'Hour, weekday, minute-of-day and UTC-offset features equal those of the row\'s own timestamp in its own time zone, including across daylight-saving changes, and holiday classes agree with the official holiday calendar of the requested country: 3 on a holiday, otherwise 2 on a day of a long weekend, otherwise 1 on a bridge day, otherwise 0. '
     'Calendar features of a timestamp do not depend on which other rows or columns are formatted with it.',
     ['inputs', 'histories'],
     'for every index (zone aware or naive, any step, DST transitions), country, and any sub-range of rows',
     'Tests use one naive index; nothing checks DST days, offsets or holiday codes.',
     [FM], [('time features', FM + ':Formatter.add_time_features'), ('holidays', FM + ':Formatter.add_holidays')], ['calendar columns of the formatted dataset'])

prop('C09', 'Quantile forecasts are labelled, ordered and calibrated to the residuals',
     'Quantile forecasts have one row per input row and, per target and requested level, one correctly labelled column; the table and array forms hold the same numbers, and values never decrease with the level. '
     'For forecasters with residual-based quantiles, the quantile equals the point forecast plus the empirical quantile of held-out residuals, of the same hour of the day when conditioning on the hour and all hours are present, of all residuals otherwise.',
     ['inputs', 'configurations'],
     'for every residual-based forecaster, dataset, validation ratio, quantile-level vector, number of steps, hour coverage, and conditioning option',
     'Tests draw plots or compute one score on a single dataset; the boosting, Fourier-feature and additive models are not run by the stable tests at all.',
     [FC, GB, FF], [('residual quantiles', FC + ':ScenarioGenerator._estimate_err_distr'), ('labelling', FC + ':ScenarioGenerator.quantiles_to_df')],
     ['point and quantile predictions, recomputed residuals'])

prop('C10', 'The post-fit row cap is respected, fair and reproducible',
     'With a cap on post-fit rows, at most that many distinct rows, drawn without replacement from the given rows with features and targets kept paired and in time order, are used to estimate residual distributions and dependence; the trained point model is unaffected. '
     'The draw depends only on the seed, the cap and the rows, spreads over the hours of the day in proportion to their frequency, and a cap at or above the number of rows changes nothing.',
     ['inputs', 'configurations'],
     'for every dataset size, cap, seed, index type, hour distribution',
     'test_max_scengen_rows checks a few sizes; proportionality, pairing and determinism quantify over all hour distributions and seeds.',
     [FC], [('row cap', FC + ':ScenarioGenerator._maybe_subsample_for_scengen'), ('stratified draw', FC + ':ScenarioGenerator._subsample_stratified_by_hour')],
     ['frames handed to the residual and scenario estimators'])

prop('C11', 'Held-out validation rows never influence the point model',
     'With a validation ratio, the last share of the rows is held out: point forecasts do not change when held-out targets change, and residual quantiles do not change with training residuals beyond the model itself. '
     'Training and held-out rows partition the data in time order, and without a ratio the residuals are computed on the training rows.',
     ['inputs', 'configurations'],
     'for every forecaster with a validation ratio, dataset and ratio',
     'No test perturbs the held-out part of the data.',
     [FC, GB, RF, FF], [('train/validation split', FC + ':ScenarioGenerator.train_val_split')], ['predictions of models fitted on data differing in the held-out rows only'])

prop('C12', 'Prediction is a pure row-wise function of the fitted model and its inputs',
     'For feature-based forecasters, predicting leaves the inputs and the fitted model unchanged, repeated calls give the same answer, and each row\'s point and quantile forecasts do not depend on which other rows are predicted with it or in what order. '
     'Every forecast keeps the index of its inputs and the target labels seen in training.',
     ['inputs', 'histories', 'configurations'],
     'for every feature-based forecaster, dataset, row subset, permutation and interleaving of predict calls',
     'Tests predict once on one test split, so state leaking between calls or rows cannot show.',
     [FC, GB, RF, FF, BN], [('predict', FC + ':LinearForecaster.predict'), ('quantiles', FC + ':ScenarioGenerator.predict_quantiles')],
     ['predictions for permuted, split and repeated inputs'])

prop('C13', 'Refits, clones and parameter changes behave as new models',
     'Fitting a model a second time gives the same forecasts as fitting a new model with the same settings on the second data. '
     'Parameters changed through the tuning interface take effect at the next fit, reported parameters recreate an equivalent model, and a copied or serialized fitted model predicts exactly as the original.',
     ['histories', 'configurations', 'inputs'],
     'for every forecaster class, parameter assignment and sequence of fit / set / copy / serialize / predict',
     'Tests fit each model object once.',
     [FC, GB, RF, FF, HW, FA], [('parameter protocol', FC + ':ScenarioGenerator.get_params/set_params'), ('fit', GB + ':LGBMHybrid.fit'), ('fit', RF + ':QRF.fit')],
     ['predictions of the refitted, cloned, re-parameterised and deserialized models'])

prop('C14', 'Categorical inputs are encoded consistently between fit and predict',
     'The same category always gets the same code in training and in prediction, whatever subset or order of categories appears later, so forecasts equal those of a model given the training codes explicitly. '
     'A category not seen in training is rejected with an error instead of being silently coded, and the caller\'s data are not altered.',
     ['inputs', 'histories'],
     'for every set of categorical columns, categories, subsets and order of later calls',
     'No stable test passes categorical columns.',
     [FC], [('encoding wrapper', FC + ':encode_categorical')], ['predictions and errors on recoded inputs'])

prop('C15', 'Discrete forecast distributions are probability distributions',
     'The probability mass predicted on a discrete grid is non-negative, adds up to one when the grid covers the predicted quantiles (and to the covered share otherwise), has one value per grid cell, and puts in each cell the share of predicted quantile levels falling there. '
     'Discrete-distribution forecasts give frequencies of the training values of the conditioning group, summing to one over the observed values.',
     ['inputs', 'configurations'],
     'for every grid, forecaster, dataset, conditioning',
     'Tests never call these on more than one grid.',
     [FC, BM], [('pmf', FC + ':ScenarioGenerator.predict_pmf'), ('discrete distribution', BM + ':DiscreteDistr')], ['returned probability tables'])

prop('C16', 'Scenarios follow the predicted quantiles and are reproducible',
     'Scenario arrays have one path per requested scenario, step and row; at every step the scenarios of a row are distributed according to that row\'s predicted quantiles (through monotone interpolation, also in the tails), and different rows and paths are different draws. '
     'The same random state gives the same scenarios up to a negligible jitter, and adding an initial node prepends the given observation and leaves the other steps as they would be.',
     ['inputs', 'configurations', 'schedules'],
     'for every quantile table, level vector, number of scenarios, steps, random state, additional initial node',
     'test_scenario mostly plots; distributional agreement and seeding need many samples and repeated calls.',
     [SG, CO, FC], [('sampling', SG + ':ScenGen.sample_scenarios'), ('interpolation', SG + ':interp_scens'), ('copula', CO + ':HourlyGaussianCopula.sample')],
     ['scenario arrays against the quantile arrays'])

prop('C17', 'Scenario dependence reproduces the residual correlation of the right hour',
     'For each hour of the day the dependence used between steps is a valid correlation matrix (symmetric, unit diagonal, positive definite, entries within [-1,1]) estimated only from the residuals of that hour. '
     'Rank correlations of generated scenarios at an hour match those of that hour\'s residuals, and each row uses its own hour.',
     ['inputs', 'configurations'],
     'for every residual dataset, hour coverage, number of steps and covariance estimator',
     'Needs statistics over many samples per hour; tests only check shapes.',
     [CO, SG], [('estimation', CO + ':HourlyGaussianCopula.fit'), ('sampling', CO + ':HourlyGaussianCopula.sample')], ['copula samples and estimated matrices'])

prop('C18', 'Every scenario tree is a well-formed probability tree over the horizon',
     'Whatever the tree type, a generated tree is a rooted tree: one root at the first step with probability one, every other node has exactly one parent at the previous step, all leaves lie at the last step, children probabilities are positive and add up to their parent\'s, and each step has the requested number of nodes. '
     'Node values are finite and lie within the range of the scenarios of their step (up to the optimizing tree types\' documented iterations), and the caller\'s scenarios, starting tree and settings are not modified. A tree grown from a starting tree keeps its structure and probabilities, and the scenario matrix, path indexes and values returned with the tree are those of the tree.',
     ['inputs', 'configurations'],
     'for every scenario matrix, tree type, nodes-per-step vector and number of steps',
     'Tests build few trees and mostly plot them.',
     [TB, SR], [('initial tree', TB + ':ScenarioTree.gen_init_tree'), ('values', TB + ':ScenarioTree.init_vals'), ('network', SR + ':_get_network')], ['the returned graph'])

prop('C19', 'Scenario reduction preserves probability mass and uses only original scenarios',
     'The reduced set has at each step at most the requested number of scenarios with probabilities that are non-negative and add up to one, no more scenarios at an earlier step than at a later one, and every reduced value is a value of an original scenario at that step. '
     'Merged probability goes to the surviving scenarios, so that expectations over an unreduced last step are preserved, and the graph encodes exactly the reduced scenarios as root-to-leaf paths. '
     'The closest scenarios are merged first: well separated groups keep one representative each with the probability of the group, and of two groups the root belongs to the more probable one.',
     ['inputs', 'configurations'],
     'for every scenario matrix or multivariate scenario list, node vector, tolerance and metric',
     'A single smoke test covers the reduction; conservation must hold for every matrix.',
     [SR], [('reduction', SR + ':scenred'), ('graph', SR + ':_get_network'), ('leaf paths', SR + ':retrieve_scenarios_indexes')], ['reduced arrays, probabilities and graph'])

prop('C20', 'Tree forecasts are the hour\'s error tree shifted by the forecast, one per row',
     'With pre-fitted trees, each row\'s tree equals the tree fitted for that row\'s hour plus that row\'s point forecast at each step, with the same structure and probabilities; predicting never changes the fitted trees, so row order and repetition do not matter. '
     'With an initial observation, the root takes that row\'s value; one tree is returned per row (a bare tree for a single row), in row order.',
     ['inputs', 'histories', 'configurations'],
     'for every forecaster, hour, row order, repetition and initial observation',
     'Tests generate trees once and look at a plot.',
     [SG, SR, FC], [('superposition', SR + ':superimpose_signal_to_tree'), ('tree prediction', SG + ':ScenGen.predict_trees')], ['predicted trees versus fitted trees and point forecasts'])

prop('C21', 'Reconciled forecasts are coherent and correctly labelled',
     'After reconciliation every aggregate forecast equals the sum of its bottom-level forecasts, for every row and step, whatever the order in which signals or columns were supplied, and each value is reported under the label of its own signal and step. '
     'Forecasts that are already coherent are left unchanged by projection-based reconciliation, and reconciling twice changes nothing.',
     ['inputs', 'configurations'],
     'for every hierarchy, error covariance estimator, set of base forecasts, column order and number of steps ahead',
     'test_hierarchical checks one hierarchy with one column order and one step.',
     [RE], [('reconcile', RE), ('summation matrix', RE)], ['reconciled tables'])

prop('C22', 'Hierarchical aggregation builds the declared sums',
     'Unrolling a hierarchy lists for every declared node exactly the bottom signals below it, once each and under their own names, so that aggregates equal the sum of all bottom signals below them for every row; the multi-level target table built from stacked data contains every declared node and bottom signal exactly once, with its own unchanged values. '
     'The summation matrix and level lists agree with that structure.',
     ['inputs', 'configurations'],
     'for every tree-shaped hierarchy (depth, width, naming) and dataset',
     'One fixed hierarchy in the tests.',
     [RE], [('hierarchy unrolling', RE), ('target table', RE + ':get_target_matrix')], ['aggregated data columns'])

prop('C23', 'Scores equal their mathematical definition',
     'Error (root mean square, absolute percentage, normalized absolute), quantile, reliability and distribution scores equal their definitions computed directly from forecasts and observations, for every target, step and quantile level, are reported under the right labels, and are invariant to a common reordering of rows. '
     'Perfect forecasts score zero error, error scores are never negative, and scoring never modifies the data it is given.',
     ['inputs', 'configurations'],
     'for every forecast/observation pair of tables, quantile set, number of steps, ties and constant signals',
     'test_01_scores evaluates a few tables and compares few values.',
     [ME], [('metrics', ME)], ['returned score tables'])

prop('C24', 'Aggregated scores are group means over exactly the requested rows and groups',
     'Scores aggregated by an index equal the score computed separately on the rows of each group, masked scores use exactly the masked rows, and the groups partition the rows. '
     'The summary table contains every requested metric and group with the value of that metric on the (masked) rows of that group, where only continuous indexes are quantized, KPIs of a hierarchy level are the mean over the series of that level of their own scores, and the inputs are left unchanged. (The normalization offset of the normalized absolute error is that of the whole table.)',
     ['inputs', 'configurations'],
     'for every grouping index (also interleaved or with missing hours), masks, metrics',
     'Tests group one dataset by one feature.',
     [ME], [('grouping', ME + ':summary_score'), ('summary', ME + ':summary_scores')], ['score tables per group'])

prop('C25', 'Tuning evaluates each trial on its fold rows only, with its own parameters',
     'In every cross-validation fold the model is fitted on exactly the training rows and evaluated on exactly the test rows given by the fold, with the hyper-parameters of that trial, on a fresh model; the reported trial value is the mean over folds of the score of those evaluations. '
     'The number of trials requested is run, stored scores are attributed to the trial and parameters that produced them, and the caller\'s fold definition, base model settings and data are not modified.',
     ['inputs', 'configurations', 'histories'],
     'for every fold set, parameter space, number of trials, score and storage/replay option',
     'test_trainer checks that the study runs on one model.',
     [TR], [('objective', TR + ':objective'), ('fit sample', TR + ':fit_sample'), ('cross validation', TR + ':cross_validation')], ['recorded fit/predict calls of a spy model'])

prop('C26', 'Holt-Winters forecasts follow the smoothing recursions causally',
     'The exponential-smoothing forecaster\'s states and forecasts follow the documented additive double-seasonal recursion for every series and parameter set, each row\'s forecast uses only observations up to that row, and forecasting a stream in consecutive chunks equals forecasting it at once. '
     'Fitted smoothing parameters stay in their allowed range, tuning returns the best of the trials it made (each scored on every target with its own parameters) whatever the number of processes, and quantiles are the forecast plus the fitted error quantiles. A missing observation counts as its one-step-ahead forecast; refitting starts from fresh states.',
     ['inputs', 'histories', 'configurations'],
     'for every series, seasonal periods, number of steps, chunking and parameter set',
     'Holt-Winters is not in the stable tests at all.',
     [HW], [('jitted recursion', HW), ('fit', HW + ':HoltWinters.fit'), ('multi', HW + ':HoltWintersMulti')], ['one-step and multi-step predictions of perturbed, chunked series'])

prop('C27', 'Adaptive Fourier and Kalman forecasters are causal and reproducible',
     'Each forecast of the adaptive Fourier models uses only the fitted history and observations up to its own row, matches the direct computation of the windowed Fourier/Kalman recursion, and repeating the same prediction after the same fit gives the same result. '
     'Forecasts continue the phase and history of the fitted series, constant series are forecast exactly, Fourier smoothing forecasts exactly the signals in the span of its basis that repeat after its periodicity, ensemble weights are convex, and state covariances stay symmetric positive semidefinite.',
     ['inputs', 'histories', 'configurations'],
     'for every series, period, number of harmonics, horizon and number of predictors',
     'The fast adaptive models are not in the stable tests.',
     [FA, SU], [('Fourier_es', FA + ':Fourier_es'), ('FK', FA + ':FK'), ('FK_multi', FA + ':FK_multi')], ['predictions for perturbed futures and repeated calls'])

prop('C28', 'Benchmark forecasters repeat the past values they promise',
     'The persistence forecaster gives at every step the last observed value of the target, the seasonal persistence gives the observations one season earlier, and both depend on no later observation. '
     'Their residual quantiles equal the empirical residual quantiles, and forecasts are labelled with the row\'s timestamps.',
     ['inputs', 'configurations'],
     'for every series, horizon, season and index',
     'Benchmarks are exercised by no stable test.',
     [BM, '' + 'pyforecaster/forecasting_models/identity.py'], [('benchmarks', BM)], ['forecasts versus shifted observations'])

prop('C29', 'Tree-ensemble forecasters keep steps, targets and levels in their place',
     'Boosting and random-forest forecasters report under each target column the forecast learned for that column, whichever way the horizon is split between one model per step and a model shared by the later steps; a step whose target is an exact function of the features is recovered under its own label. '
     'Parallel and serial evaluation agree, quantile forests report the quantile of the right level, ordered in the level and inside the range of the training targets.',
     ['inputs', 'configurations', 'schedules'],
     'for every number of steps, split between per-step and shared models, feature-selection method, row order and thread count',
     'Boosters and quantile forests run in no stable test, so a swapped step cannot be noticed.',
     [GB, RF, FC], [('hybrid boosting', GB + ':LGBMHybrid'), ('quantile forest', RF + ':QRF')], ['per-step predictions against per-step targets'])

prop('C30', 'Random-feature regressors are ridge fits of their own features',
     'The random-Fourier-feature regressor learns one function per target: forecasts scale and shift with the targets, are in the original units and reproduce targets that lie in the span of the model; the additive version is the sum of members each fitted to what the previous ones left, and the boosted binned regressor the sum of shrunk bin means of its stages. '
     'Fits are deterministic given the random state, predictions equal the linear map of the features the model itself reports, and held-out rows influence neither the scaling nor the coefficients.',
     ['inputs', 'configurations'],
     'for every dataset, scaling, ensemble size, number of features',
     'No stable test runs these models.',
     [FF], [('RFF', FF)], ['predictions under affine target changes'])

prop('C31', 'Partially input-convex networks are convex (and monotone) in the chosen inputs',
     'After construction, loading, or any number of training epochs, the forecast of a partially input-convex network (PICNN, RecStablePICNN) is convex in the declared optimization inputs for every value of the other inputs; with output bounds it stays within them and is quasi-convex; the monotone variants (PIQCNNSigmoid, StructuredPICNN without augmented controls) are monotone in those inputs; the latent variant is convex in its embedding and its decoder monotone. '
     'Optimizing the inputs changes only the optimization variables, never returns a point worse than its start in the given objective (in the network\'s normalized units), and the value and forecast it returns are those of the returned point.',
     ['inputs', 'configurations', 'histories'],
     'for every architecture, weight initialization, training history, pair of points and convex combination',
     'Neural tests are not in the stable set; convexity quantifies over all point pairs and training histories.',
     [IC, BN], [('weight reprojection', 'pyforecaster/forecasting_models/neural_models/neural_utils.py:reproject_weights'), ('network', IC + ':PICNN_module')], ['forecasts at convex combinations during training'])

prop('C32', 'Invertible networks invert: encoding then decoding is the identity',
     'For every parameter value reached by training, decoding an encoding of a signal gives the signal back within numerical precision, the causal variants never let an encoded step depend on later steps, and every invertible activation composed with its inverse is the identity on the range it is used on. '
     'Forecasts made by evolving the encoding and decoding it are in the units of the data.',
     ['inputs', 'configurations', 'histories'],
     'for every input, layer count, activation, seed and training history',
     'Neural tests are not in the stable set and check one example visually.',
     [IN, LY], [('invertible layers', LY), ('causal INN', IN)], ['round trips through encode/decode'])

prop('C33', 'Saved neural models load back unchanged and training is reproducible',
     'A neural forecaster saved to disk and loaded gives exactly the forecasts of the original (same labels, scaling and units), and fitting twice from the same seed and data gives the same model. '
     'Inputs and outputs are scaled consistently between fit and predict: affine changes of units of a target change its forecasts by the same affine map up to training noise, changes of units of the normalized inputs change nothing, and rows held out for the error distribution influence neither scaling nor training. Quantiles are the forecast plus the error quantiles of the held-out rows, or those of the predicted normal distribution for probabilistic networks.',
     ['inputs', 'configurations', 'histories'],
     'for every neural forecaster class, architecture, dataset and save/load sequence',
     'Neural tests are not in the stable set.',
     [BN, IC, IN], [('save/load', BN + ':NN.save'), ('scaling', BN + ':NN.get_normalization')], ['predictions before save and after load'])

prop('C34', 'Probabilistic losses equal the scores they approximate',
     'The closed-form distribution scores used as training losses equal numerically integrated scores of the same distribution for every mean, spread and observation, are proper (no forecast distribution beats the true one in expectation) and their gradients are finite wherever the spread is positive. '
     'The loss each network is trained on is the mean of that score (or of the squared error, plus the stated penalties) over its own predictions.',
     ['inputs'],
     'for every forecast distribution and observation, including extreme ones',
     'No test touches the losses.',
     [BN, IC], [('losses', BN + ':probabilistic_loss'), ('losses', IC)], ['loss values against numeric integration'])

prop('C35', 'Memory reduction and chunked execution preserve the data',
     'Reducing memory keeps the index, columns, order, missing values and every value up to the documented single-precision rounding, never overflows or wraps a value, and does not modify its input. '
     'Splitting a table and applying a row-wise or column-wise function chunk by chunk gives, in the original order, the same result as applying it at once.',
     ['inputs', 'configurations', 'schedules'],
     'for every table (dtypes, magnitudes near type limits, missing values), chunk count and axis',
     'Tests cover a few dtypes and one chunking.',
     [BD], [('dtype reduction', BD + ':reduce_mem_usage'), ('chunked execution', BD + ':fdf_parallel')], ['returned tables'])

prop('C36', 'Statistical helpers equal their textbook definitions',
     'Bootstrap confidence bands contain their point estimate, are ordered in the level, match the resampling distribution and are reproducible; the Hankel embedding holds exactly the time-shifted windows of its series; table/tensor conversions are inverse of each other and keep labels. '
     'The Kalman gain, covariance and prediction updates equal the textbook filter for every linear system and keep the covariance symmetric positive semidefinite.',
     ['inputs'],
     'for every series, window, statistic, confidence level, and linear system',
     'tests_stats evaluates single examples.',
     [SU, UT, BD], [('stat utils', SU), ('kalman', UT)], ['returned arrays against references'])

prop('C37', 'Compiled kernels never read or write outside their arrays',
     'Every compiled numerical kernel (tree reduction, tree superposition, smoothing recursions) stays within the bounds of the arrays it is given and computes the same result compiled and interpreted, for all admissible shapes, including minimum ones.',
     ['inputs', 'configurations'],
     'for every admissible series length, number of scenarios, seasonal period and horizon, including the smallest',
     'Compiled code skips bounds checks: an out-of-range access silently reads foreign memory and tests pass.',
     [SR, HW, FA], [('jitted kernels', SR + ':_get_network'), ('jitted kernels', HW)], ['bounds-checked and interpreted executions compared with the compiled ones'])

prop('C38', 'Exponential-smoothing forecasts are aligned, causal and continue training',
     'The state-space exponential-smoothing forecaster gives for each row the forecast of the steps after it, computed with its fitted parameters from the training series and every row up to and including that row: data that follows the training set, follows after a gap, or lies inside it gets the forecasts (and seasonal phase) of one continuous filter, cutting or replacing later rows changes nothing, and neither the data nor the fitted model is modified. '
     'Its quantiles are the forecasts plus the quantiles of the in-sample forecast errors of the same step, labelled like the forecasts.',
     ['inputs', 'configurations', 'histories'],
     'for every series, trend and seasonal setting, horizon, start of the data and missing training values',
     'The test only runs the wrapper once.',
     [SM], [('wrapper', SM + ':ExponentialSmoothing.predict'), ('residuals', SM + ':StatsModelsWrapper.fit')], ['fitted parameters, forecasts per row, error quantiles'])

prop('C39', 'The sequence network is trained and queried on the windows it declares',
     'The LSTM forecaster trains on every window of the last lstm_history target values with the exogenous row of the last window value, paired with the pred_horizon values that follow, in time order with the last val_split share held out; a forecast labelled t is the network output for the window ending at t (original units), uses nothing outside that window, reaches the newest row, and needs no more than lstm_history rows.',
     ['inputs', 'configurations'],
     'for every history length, horizon, column order and validation share',
     'No test runs this model.',
     [LS], [('windows', LS + ':LSTM_Forecaster.fit'), ('forecasts', LS + ':LSTM_Forecaster.predict')], ['arrays passed to the network, forecasts'])

prop('C40', 'Plots draw the data they are given and leave it unchanged',
     'Every plotting helper draws exactly the values of its source: heat maps of scores show each cell and label its row and column, the frame of an animation shows the forecasts, quantile fans, trees or formatted features of its row (each step or time window at its place), two-dimensional histograms hold the mean of each cell. None of them modifies the tables, lists, trees or results handed in, and all run with their default arguments.',
     ['inputs'],
     'for every table shape, number of signals, levels and frames',
     'Tests call some of the plots without looking at them.',
     [PU, FM, SR, SU], [('plots', PU), ('feature plots', FM + ':Formatter.plot_transformed_feature'), ('tree plots', SR + ':plot_from_graph')], ['data of the drawn artists at each frame'])

prop('C41', 'Results do not depend on names, column order, units or the calendar week',
     'The same data under other signal and target names, with its columns in another order, with unrelated signals added, in another unit of the target or of the features, or moved by whole weeks, gives the same results: generated features, normalized targets and selections are the same values under the corresponding names; forecasts, quantiles, scenarios and scores of every forecaster are the same numbers (times the unit), under the corresponding labels; scenario reductions keep their structure and probabilities.',
     ['inputs', 'configurations'],
     'for every renaming, order, unit and shift, over all forecasters, adaptive models and scores',
     'Tests use one naming and one unit.',
     [FM, FC, ME, SR, HW, FA], [('formatting', FM + ':Formatter.transform'), ('forecasting', FC + ':ScenarioGenerator.fit'), ('scores', ME), ('recursions', HW), ('reduction', SR + ':scenred')], ['tables, forecasts, quantiles, scenarios, scores and trees of paired runs'])

prop('C42', 'Objects do not influence each other',
     'Formatters, forecasters, adaptive models, reconcilers, copulas, networks, scores and reductions keep their state to themselves: using several of them interleaved in any order (created up front or when first used), or from concurrent threads (forests excepted, whose library draws from a process-wide generator), returns the same tables, forecasts, scenarios (given the same seeds) and trees as using each one alone.',
     ['histories', 'schedules'],
     'for every interleaving of calls on several objects with different settings and data',
     'Tests use one object at a time.',
     [FM, FC, CO, SR, ME, HW, FA, RE, BN], [('formatter state', FM + ':Formatter.__init__'), ('forecaster state', FC + ':ScenarioGenerator.__init__'), ('category encoders', FC + ':encode_categorical'), ('network state', BN)], ['results of every call, interleavings, threads'])

prop('C43', 'Inadmissible requests are refused and leave the object usable',
     'A request the library declares inadmissible raises instead of returning something: normalizers of several targets, several lags or a lag that is not strictly past, unsorted bins, functions not given as a list, columns absent from the table, fewer than two folds, a stacked target not called target; a row cap that is not a positive integer (or given to an adaptive model), a row cap on tables of different rows, an unknown kind of linear model, forecasts before fit; quantiles, timestamps, levels and first observations of different lengths, trees without the data they need, uneven children, unknown covariance estimators; smoothing weights outside (0, 1), harmonics or history not positive, a period not shorter than the history; score tables of different rows, unknown tuned parameters or cross-validation types, incomplete hierarchies, unknown reconciliation methods or levels; tables shorter than the history of the sequence network. The nearest admissible request is served, and an object that refused a request keeps giving the results of an object never asked.',
     ['inputs', 'histories'],
     'for every inadmissible value of each rule, boundary values included, and for calls after the refusal',
     'Tests provoke three of the refusals.',
     [FM, FC, SG, TB, CO, FA, HW, RE, ME, TR, SU, BD], [('normalizer rules', FM + ':Formatter.add_target_normalizer'), ('bins and functions', FM + ':Transformer.__init__'), ('scenario rules', SG + ':ScenGen.predict_scenarios'), ('tree rules', SG + ':ScenGen.predict_trees'), ('row cap', FC + ':_validate_max_scengen_rows'), ('smoothing weights', FA + ':Fourier_es.__init__'), ('score tables', ME + ':summary_scores'), ('tuning', TR + ':optuna_objective'), ('hierarchies', RE + ':HierarchicalReconciliation.check_x')], ['outcome of each request, results after refusals'])

prop('C44', 'Results are the same in every process',
     'The same calls on the same data with the same seeds return the same tables (columns and rows in the same order), forecasts, quantiles, scenarios, trees, scores, tuning trials and reconciled forecasts in every process, whatever its hash seed, local time zone, locale, working directory and what it computed before; a formatter or fitted model stored by one process and loaded by another continues with the results it would have given in the first.',
     ['configurations', 'histories'],
     'for every process environment, over formatters, forecasters, adaptive models, copulas, reductions, scores, tuning, reconciliation and networks',
     'Tests run in one process.',
     [FM, FC, SG, CO, SR, ME, TR, HW, FA, RE, BN], [('stacked form', FM + ':Formatter.global_form_preprocess'), ('calendar features', FM + ':Formatter.add_time_features'), ('category encoders', FC + ':encode_categorical'), ('scores', ME + ':summary_scores'), ('tuning', TR + ':hyperpar_optimizer')], ['results of every call in each process, stored objects'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
