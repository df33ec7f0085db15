import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
T='convst/transformers/'
K=[T+'_univariate_same_length.py',T+'_univariate_variable_length.py',T+'_multivariate_same_length.py',T+'_multivariate_variable_length.py']
p('C01','Shapelet features are exact under every worker-thread schedule',
 'Transforming a dataset (one or several channels, equal or unequal lengths) with a fitted RDST model, standalone or inside a classifier or ensemble, yields, for each series and each retained shapelet in order, three consecutive columns: the minimum L1 distance between the shapelet and every dilated window of that series (summed over the shapelet\'s channels, windows z-normalised if the shapelet is normalised, wrapping round the end of the series iff phase invariance is on), the index of the first window attaining that minimum, and the number of windows whose distance is at most the shapelet\'s threshold. This holds for every thread count, every interleaving of the worker threads and with numba parallelism switched off, and a row depends on its own series only: not on padding, on the other series of the batch or on their order. A series in which a shapelet does not fit is refused. The parallel z-normalising input transformer likewise returns every channel of every series centred and divided by its standard deviation plus 1e-8.',
 ['schedules','inputs','configurations'],'every thread count, work partition and interleaving of the parallel loops; every dataset shape, container, shapelet set and phase/normalisation setting',
 'The stable tests never execute a kernel (numba is not installable); upstream tests only check shapes of strides and accuracy of a few datasets, on one machine schedule.',
 K+[T+'_commons.py',T+'_input_transformers.py',T+'rdst.py'],
 [dict(name='parallel loop over samples, each iteration writes only its own row of the output',where=T+'_*_length.py: *_apply_all_shapelets'),dict(name='stride generation / z-normalisation on a private copy, shared by shapelets with equal length and dilation',where=T+'_commons.py generate_strides_*'),dict(name='true lengths passed beside the zero-padded array',where=T+'rdst.py _format_uneven_timestamps')],
 [dict(name='shapelets_',meaning='the fitted shapelet arrays',where=T+'rdst.py')],['R_DST.transform return value','R_DST.shapelets_'])
p('C02','Every shapelet is a genuine excerpt of the training data',
 'After fit (standalone or inside a classifier or ensemble), under every thread schedule, each retained shapelet equals (z-normalised by its own mean and standard deviation iff flagged normalised) the dilated excerpt at one start position of one training series, on distinct existing channels and within that series\' true extent, never touching padding (it may wrap round the series end only with phase invariance). Its length is one of the requested lengths (absolute, relative to the shortest series, or within the requested bounds; a length longer than the series is replaced by half the series length), and every requested length that fits, training series, start, channel, channel count and both normalisation flags (with the requested share) can be drawn; (length-1)*dilation is smaller than the shortest series (or min_len, if shorter), dilations are 1 or prime when prime dilations are requested, and at most n_shapelets shapelets on at most max_channels channels (all there are, if fewer) are kept. Its threshold lies between the two requested percentiles of its distance vector to some training series of the same class as the series it came from, and to a different series whenever that class has more than one.',
 ['schedules','inputs','configurations'],'every dataset, label set, parameter setting, worker count and interleaving of the sampling threads',
 'No stable test fits a model; upstream tests check only the set of lengths on one dataset and that dilations are prime.',
 K+[T+'_commons.py',T+'rdst.py'],
 [dict(name='parallel loop over dilations sampling excerpts, thresholds from a same-class sample',where=T+'_*_length.py: *_generate_shapelet'),dict(name='length and dilation bounds',where=T+'rdst.py _set_lengths/_check_params; *_init_random_shapelet_params')],
 [dict(name='shapelets_',meaning='fitted shapelet arrays',where=T+'rdst.py')],['R_DST.shapelets_'])
p('C03','Same seed, same model, whatever the threads do',
 'Fitting with a given integer random_state on the same data with the same parameters gives bit-identical shapelets, features, ensemble weights and predictions on every run: whatever the number of worker threads, the way work is partitioned and interleaved between threads or model workers, whether numba parallelism is enabled, what random numbers or seeds other code used before or concurrently, and whether training-sample subsampling is on. This holds for the transformer, the ridge classifier and the ensemble with its default input transformers.',
 ['schedules','configurations','histories'],'every thread count, thread layer, partition and interleaving, every initial state of every thread-local and global generator',
 'Reproducibility failures need two runs with different schedules or thread-local generator states; the tests run one, with whatever schedule the machine gives, and do not compare.',
 K+[T+'rdst.py','convst/classifiers/rdst_ensemble.py','convst/classifiers/rdst_ridge.py'],
 [dict(name='seed drawn from random_state and handed to the sampling kernels',where=T+'rdst.py _check_params; *_generate_shapelet'),dict(name='per-model seeds in the ensemble',where='convst/classifiers/rdst_ensemble.py fit')],
 [dict(name='thread-local numba generators',meaning='one random stream per worker thread',where='numba runtime'),dict(name='random_state',meaning='generator shared by the ensemble members',where='convst/classifiers/rdst_ensemble.py')],['shapelets_','transform/predict output'])
p('C04','Similarity pruning holds under every schedule',
 'Among retained shapelets with equal dilation and equal normalisation flag, taken in order, none starts at a position already excluded by earlier ones: a shapelet of length L started at s in a series of n points excludes, in that series and on its channels, the positions s +/- j*dilation (modulo n) for 0 <= j < L - max(1, floor((1-alpha)*Lmin)), Lmin being the smallest length sampled for that dilation; on several channels a start is allowed iff at least alpha times the shapelet\'s channel count are not excluded there. Fewer than n_shapelets shapelets are returned only if some dilation/normalisation class had no allowed start left (or an all-zero excerpt was discarded).',
 ['schedules','inputs','configurations'],'every interleaving of the per-dilation sampling threads, every alpha, length set, dataset',
 'No test examines the positions of sampled shapelets; a race or a wrong mask only shows as a statistical loss of diversity.',
 K,[dict(name='self-similarity mask indexed by normalisation, dilation, sample and time, one dilation per parallel iteration',where=T+'_*_length.py: *_generate_shapelet')],
 [dict(name='mask_sampling',meaning='allowed start positions',where=T+'_*_length.py')],['R_DST.shapelets_'])
p('C05','Refitting equals fitting afresh, whatever happened before',
 'For every history of constructing, changing parameters, fitting (successfully or interrupted by an error at any point), transforming, predicting and cloning, fitting an estimator on a dataset gives the same model and outputs as fitting a newly built estimator with the same parameters and integer seed on that dataset, even if earlier fits used other lengths, channel counts, or equal- versus variable-length data. Cloning any estimator, fitted or not, succeeds and gives an unfitted one that fits to the same model as a newly built one would.',
 ['histories','fault_sequences','inputs'],'every sequence of operations and injected failures on one estimator object',
 'Upstream tests fit each estimator once; state carried from one fit to the next needs a multi-step history.',
 [T+'rdst.py','convst/classifiers/rdst_ridge.py','convst/classifiers/rdst_ensemble.py'],
 [dict(name='parameters resolved per fit (type detection, minimum length, channel cap, lengths)',where=T+'rdst.py fit/_auto_class/_set_lengths'),dict(name='components rebuilt per fit',where='convst/classifiers/rdst_ridge.py _init_components')],
 [dict(name='constructor attributes',meaning='transform_type, min_len, max_channels, shapelet_lengths, random_state, n_jobs',where=T+'rdst.py')],['shapelets_','transform/predict output','sklearn clone'])
p('C06','A failed fit never leaves a hybrid model',
 'If fit, transform or predict fails part-way (memory exhaustion, interrupt, error inside a worker or model component), the error reaches the caller and no partial result is returned. Afterwards the estimator either refuses to transform or predict, or answers exactly as the previously fitted model or exactly as the completed new one would: never from a mixture of old and new state.',
 ['fault_sequences','crash_points','schedules'],'every point of every operation at which an error can surface, under every worker schedule',
 'Needs an exception at a chosen instant inside fit, followed by use of the surviving object; no test injects failures.',
 [T+'rdst.py','convst/classifiers/rdst_ridge.py','convst/classifiers/rdst_ensemble.py',T+'_input_transformers.py'],
 [dict(name='results published as attributes at the end of fit; fitted checks before use',where='fit / predict / transform of the three estimators')],
 [dict(name='fitted attributes',meaning='shapelets_, transformer, classifier, models, model_weights',where='the three estimators')],['exception type','transform/predict after the failure'])
p('C07','The caller\'s data is never modified',
 'Fitting, transforming, predicting and scoring leave every array and list the caller passed in - series, labels, and parameter arrays - bit-for-bit unchanged, for every container, dtype and memory layout accepted, at every instant while worker threads run (the ensemble members share one copy) and also when the operation fails part-way.',
 ['schedules','inputs','fault_sequences'],'every input container and layout, every interleaving of workers sharing the data, every failure point',
 'The tests never compare inputs before and after; in-place kernels on shared arrays corrupt data only for some layouts or interleavings.',
 K+[T+'rdst.py',T+'_input_transformers.py','convst/classifiers/rdst_ensemble.py','convst/classifiers/rdst_ridge.py'],
 [dict(name='conversion copies before kernels; kernels write to fresh arrays only',where=T+'rdst.py fit/transform (astype); generate_strides_*')],
 [dict(name='caller arrays',meaning='X, y, parameter arrays',where='caller')],['caller arrays'])
p('C08','A fitted model can be used from several threads at once',
 'When several threads concurrently call transform, predict or score on one fitted estimator, or use it while other estimators are being built, fitted or used in other threads, every call returns what it returns when run alone and every concurrent fit yields the model it yields alone.',
 ['schedules','histories'],'every interleaving of the calling threads and of their worker threads',
 'All tests are single-threaded.',
 [T+'rdst.py','convst/classifiers/rdst_ensemble.py','convst/classifiers/rdst_ridge.py',T+'_input_transformers.py']+K,
 [dict(name='transform and predict keep no per-call state on the estimator; kernels release the GIL and share only read-only arrays',where=T+'rdst.py transform; rdst_ensemble.py predict')],
 [],['return values of concurrent calls'])
p('C09','Predictions are the weighted vote of all members, in training labels',
 'For any label values (integers, negative or non-consecutive integers, strings) both classifiers predict only labels seen in training, one per input series, in input order. The ridge classifier\'s prediction is its ridge model applied to the standardised non-constant features of its own transformer; the ensemble\'s is the label maximising the sum over its members of softmax confidence times the member\'s leave-one-out training accuracy raised to a_w, each member paired with its own input transformer and weight, whatever order the model workers start and finish in and whatever n_jobs is. The score is the fraction of series predicted correctly.',
 ['schedules','inputs','configurations'],'every completion order and interleaving of the model workers, every label set, every n_jobs and joblib mode',
 'No stable test imports a classifier; upstream tests never run the ensemble, and use labels 0..k-1 only.',
 ['convst/classifiers/rdst_ensemble.py','convst/classifiers/rdst_ridge.py',T+'_input_transformers.py'],
 [dict(name='joblib results in submission order, weights paired by index',where='convst/classifiers/rdst_ensemble.py'),dict(name='class labels',where='convst/classifiers/rdst_ensemble.py predict')],
 [dict(name='models, model_weights',meaning='fitted members and their vote weights',where='convst/classifiers/rdst_ensemble.py')],['predict, score'])
p('C10','Cross-validation folds are honest and repeatable despite faults',
 'Cross-validation and grid search on an archive dataset use fold 0 = the archived split and every later fold a reshuffle determined by the fold number alone: each fold uses every series exactly once with its own label, keeps each split\'s per-class counts, fits on the training part only and scores the matching test labels, for one or several channels and for unequal lengths. One row per fold is reported with every requested score and, as time, exactly the elapsed time of that fold\'s fit and predict, unaffected by wall-clock adjustments; a failed download, fit, predict or scorer surfaces as an error (in grid search, a failed fit or scorer as the usual NaN score for that fold) and no fold is skipped or reported twice.',
 ['fault_sequences','inputs','histories'],'every dataset, fault position (download, fold fit, predict, score), clock behaviour and pipeline that keeps state or modifies its input between folds',
 'Upstream tests only look at a mean accuracy over downloaded datasets; nothing tests fold contents, timing or failures.',
 ['convst/utils/experiments_utils.py'],
 [dict(name='seeded stratified resampling per fold, originals copied for fold 0',where='convst/utils/experiments_utils.py _resample, cross_validate_UCR_UEA.score, _sklearn_cv.split')],
 [],['arguments the pipeline and scorers receive','returned table'])
p('C11','Archive loading is all-or-nothing and label-consistent',
 'Loading a dataset by name returns exactly the archived train and test series (each channel of each series centred and divided by its standard deviation plus 1e-8 iff normalisation is requested), labels encoded as 0..k-1 by one mapping shared by both splits, and the smallest series length over both splits; loading the whole dataset returns the train series followed by the test series with matching labels, for unequal lengths too. If the archive cannot deliver a split the error surfaces, nothing is returned, the archive\'s copy is not damaged, and a later retry returns the same as an undisturbed load.',
 ['fault_sequences','inputs','histories'],'every dataset shape, every download fault position and retry history',
 'Upstream tests check only the shapes of two downloaded datasets; they cannot run offline and never fail a download.',
 ['convst/utils/dataset_utils.py'],
 [dict(name='two downloads, one label encoder, optional in-place z-normalisation of the loaded arrays',where='convst/utils/dataset_utils.py')],[],['return values of the loaders'])
p('C12','An interrupted benchmark campaign resumes without losing results',
 'The published benchmark script records each (dataset, model) result durably as soon as it is computed: after a crash at any instant, a run restarted in resume mode keeps every recorded result unchanged, recomputes none of them, computes all missing ones, and ends with the same results file as an uninterrupted campaign.',
 ['crash_points','histories'],'every crash instant of the campaign, including during the write of the results file',
 'There is no test of the scripts.',
 ['PaperScripts/test_models.py'],[dict(name='results file rewritten after every result; rows already filled are skipped on resume',where='PaperScripts/test_models.py')],
 [dict(name='results csv',meaning='durable campaign state',where='PaperScripts/test_models.py')],['results file','calls of the cross-validation'])
p('C13','n_jobs bounds the number of threads used',
 'While an estimator with a given n_jobs fits, transforms or predicts, the number of threads computing on its behalf - worker threads of the parallel loops, times concurrently running ensemble members - never exceeds n_jobs (all cores for -1, all but one for -2, and so on), regardless of which other estimators were built or used before or of how many cores the machine has.',
 ['schedules','configurations','histories'],'every n_jobs and core count, every history of estimators built and used in the process, every worker schedule',
 'Thread counts are never observed by tests, and the count in force depends on which estimator was constructed last and on which thread asks.',
 ['convst/utils/checks_utils.py',T+'rdst.py','convst/classifiers/rdst_ridge.py','convst/classifiers/rdst_ensemble.py'],
 [dict(name='n_jobs resolved against the core count and set as numba thread count',where='check_n_jobs; R_DST, R_DST_Ridge constructors; R_DST_Ensemble._manage_n_jobs')],
 [dict(name='thread count',meaning='numba thread mask of the calling thread',where='numba runtime')],['simultaneously active threads'])
p('C14','A saved model answers exactly as the original after a restart',
 'A fitted transformer, ridge classifier or ensemble that is serialised, and restored in a new process after a crash, gives bit-identical transform and predict results to the original, whatever was fitted, seeded or used in either process in between; a copy and its original never influence each other. A truncated saved file never loads as a usable model.',
 ['crash_points','histories','schedules'],'every fitted configuration, every crash instant during saving, every worker schedule after restart',
 'No test saves or restores a model.',
 [T+'rdst.py','convst/classifiers/rdst_ridge.py','convst/classifiers/rdst_ensemble.py',T+'_input_transformers.py'],
 [dict(name='all fitted state lives in picklable attributes; kernels are module-level functions',where=T+'rdst.py _set_fit_transform')],[],['transform/predict after restore'])
p('C15','Malformed calls are refused wherever they come and leave no trace',
 'At any point of an estimator\'s life, first fit included, and while other threads use it, a malformed call is refused with an error: arrays of wrong rank, empty or of text that reads as no numbers, any series of fewer than three timestamps, series whose channels differ in number from each other or (when transforming) from training, or in which (without phase invariance) a shapelet does not fit, fewer or more labels than series, use before fit, and parameters of wrong type or out of range (at construction or at the latest by fit) with a ValueError or TypeError, objects that are no arrays with some error. (Behind an input transformer other than Raw any error will do.) The call leaves no trace: model, parameters, later and concurrent answers, later fits and the data passed stay bit for bit what they were (a ridge classifier may instead give up its model when a fit is refused, and then answers nothing until fitted again). The check functions return valid values unchanged, of the same type, and refuse malformed ones. Well-formed calls are answered alike whichever accepted container, memory layout or integer type carries the same series.',
 ['histories','schedules','inputs'],'every kind of malformed call at every point of a history of fits, uses and other refused calls, and every interleaving with concurrent callers','The tests sample a handful of shapes and types of the check functions alone; that a refused call leaves no trace in an estimator, or in calls made meanwhile, needs a history or schedule to show.',
 ['convst/utils/checks_utils.py',T+'rdst.py','convst/classifiers/rdst_ridge.py','convst/classifiers/rdst_ensemble.py'],
 [dict(name='check_* functions',where='convst/utils/checks_utils.py'),dict(name='series, labels and parameters validated before the kernels, which do not check bounds',where=T+'rdst.py fit, transform, _check_params')],
 [dict(name='fitted model and parameters',meaning='what a refused call must not change',where='estimator attributes')],['errors raised','answers'])
p('C16','Interpretation plots show what the model computes, at any moment',
 'For a fitted univariate model (equal or unequal lengths, with or without phase invariance) the interpreters draw: a shapelet with its values, dilation and normalisation; on a series, the series itself with the shapelet on the positions of its best match (the first window of smallest distance, stepping by its dilation, wrapping round only under phase invariance), rescaled to the mean and deviation of the matched excerpt if it is normalised; the whole distance vector of the series with the shapelet\'s threshold as a line. The class view of a ridge model (classes 0..k-1, series of equal length) shows the distinct shapelets with the largest coefficients for that class, best first, box plots of their features as the model computes them with the class against the rest, and match and distances on one example of the class and one of another. This follows the model as it is when drawn, after refits, refused, failed or interrupted calls, copies and restored models, while other threads draw with the same interpreter, predict or fit; drawing changes neither the model nor the series.',
 ['histories','schedules','fault_sequences','inputs'],'every fitted univariate model, shapelet and series, every history of the model and its interpreter, every interleaving of concurrent callers',
 'No test imports the interpreters; an interpreter that keeps anything of an earlier fit, or shares state between callers, needs a history or a schedule to show.',
 ['convst/interpreters/rdst_interpreter.py',T+'_commons.py'],[dict(name='best match, distance vector and class view drawn from the current model',where='convst/interpreters/rdst_interpreter.py'),dict(name='distance vectors',where=T+'_commons.py compute_shapelet_dist_vector')],[],['calls that reach the plotting library'])
p('C17','Comparison diagrams say what the results say, in any order of arrival',
 'The critical-difference diagram of a campaign compares the models with the largest number of results (if on the same datasets): each stands at its average rank over the datasets (highest accuracy rank 1, ties share the average rank; value shown when labels are asked for), only the highlighted model is highlighted, and bars join exactly the extremes of the maximal cliques (two or more) of models whose Wilcoxon signed-rank tests, paired by dataset with Pratt ranking of equal results, are not significant after Holm correction at the given level. A pairwise plot shows, per competitor, each dataset at (competitor, baseline), wins, draws (within the margin) and losses of the baseline adding up to the datasets with both results, and names exactly the datasets whose difference exceeds the given value, for any number of columns. All this holds whatever the order in which results arrived, whatever was drawn before, from several threads and after a failed attempt; a failed attempt or write surfaces, and the table is never changed.',
 ['histories','schedules','fault_sequences','inputs'],'every table of results, arrival order of its rows, history of drawings, interleaving of concurrent callers and failure point',
 'No test imports the plotting utilities; a wrong pairing of results needs an arrival order, and kept state a history or schedule, to show.',
 ['convst/utils/plot_utils.py'],[dict(name='Wilcoxon-Holm tests, cliques, average ranks, counts',where='convst/utils/plot_utils.py')],[],['calls that reach the plotting library','table of results'])
p('C18','Input transformers return the documented transform after any history',
 'The input transformers return, for every series and channel, in input order: Raw the series itself; Derivate its discrete difference of the requested order; Periodigram its one-sided power spectral density (not detrended) with the requested window; Z_normalizer the centred series divided by its standard deviation plus 1e-8; FastHankelTransform the fast Hankel transform with the requested spacing, order, bias and offset (the optimal offset if asked for). The feature scalers return the non-constant training columns, standardised or scaled to [0, 1] by the statistics of the data they were last fitted on. This holds after any history of fits on other data, refused or interrupted calls, changed parameters, clones, copies and restored pickles, and while other threads use the same transformer; each ensemble member is fed exactly this transform of the caller\'s series. A randomly drawn order or window is one of those offered, varies between transformers and stays the same from fit to every later transform; results already returned are never overwritten.',
 ['histories','schedules','fault_sequences','inputs'],'every sequence of operations on one or several transformers, every interleaving of concurrent callers, every interrupted call, array and parameter',
 'No test imports the input transformers; state kept from earlier data, or shared between callers or members, needs a history or a schedule to show.',
 [T+'_input_transformers.py','convst/classifiers/rdst_ensemble.py'],
 [dict(name='transforms keep no per-call state; scalers keep the columns and statistics of their last fit',where=T+'_input_transformers.py'),dict(name='members built from unfitted input transformers',where='convst/classifiers/rdst_ensemble.py fit')],
 [dict(name='usefull_atts and scaling statistics',meaning='fitted state of the feature scalers',where=T+'_input_transformers.py')],['transform return values, input received by each member\'s shapelet transformer'])
p('C19','Every call finishes, failures included',
 'Whatever the data (a search space without an allowed start left, constant or all-zero series, series of three points, a single class), parameters, seed, thread schedule and number of concurrent callers, construct, fit, transform, predict, score, clone, dataset loading, cross-validation and grid search finish with a result or an error within a number of steps bounded by the size of their work; also when a worker stalls or fails, memory runs out, the caller is interrupted, the archive is down for good or the wall clock is adjusted. Once a fault is over nothing stays locked or half-done: the next call, on the same or another estimator and from any thread, finishes too, and a dataset can be loaded once the archive has recovered.',
 ['schedules','fault_sequences','histories','inputs'],'every configuration and dataset, every schedule, every fault and its position',
 'The tests fit ordinary data in one thread; a search that ends only if a free start exists, a lock kept after a failure or an endless retry needs exhausted spaces, faults and a second call.',
 [T+'_commons.py',T+'_univariate_same_length.py',T+'_multivariate_variable_length.py',T+'rdst.py','convst/classifiers/rdst_ensemble.py','convst/utils/dataset_utils.py','convst/utils/experiments_utils.py'],
 [dict(name='candidate starts are enumerated, then drawn (no retry loop)',where=T+'_univariate_same_length.py U_SL_generate_shapelet'),dict(name='errors of model workers reach the caller',where='convst/classifiers/rdst_ensemble.py')],[],['return or error of each public call'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
