# Single source of properties.jsonl (run once; kept for maintenance).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':state,'where':mech[0][1],'meaning':state}]
    if observe: a['observe_at']=[observe]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})
DR='sureal/dataset_reader.py'; SM='sureal/subjective_model.py'; PC='sureal/pc_subjective_model.py'; RT='sureal/routine.py'
p('C01','The score tensor holds exactly the votes of the dataset',
 "For every well-formed raw dataset, opinion_score_3darray has one row per distorted video in dataset order, one column per observer (vote position for list/tuple votes, sorted distinct observer ids for dict votes) and one layer per repetition; every recorded vote sits in its own cell, in vote order, and every other cell is NaN. num_observers, max_repetitions, the observer list, content_id_of_dis_videos, disvideo_is_refvideo and ref_score agree with the same dataset.",
 ['inputs'],"all datasets: list, tuple or dict votes, scalar or repeated (list/tuple) votes, ragged repetitions, missing observers, any order of videos and observers",
 "tests read four fixed datasets; the mapping has to be right for every mix of styles, ragged repetitions, missing votes and orderings",
 [DR,'sureal/tools/misc.py'],[('RawDatasetReader.opinion_score_3darray',DR),('RawDatasetReader._get_list_observers',DR),('RawDatasetReader._get_max_repetitions',DR),('DatasetReader.disvideo_is_refvideo',DR)],observe='reader properties')
p('C02','Malformed datasets are refused and well-formed ones accepted',
 "Constructing a reader raises an error if a reference content_id is not a non-negative integer, a distorted video names an unknown content_id, a distorted video has no 'os' or one that is not a list/tuple/dict, or list-style videos have different numbers of votes; a PairedCompDatasetReader additionally refuses non-dict votes, keys that are not (str, int) pairs and asset_ids outside [0, n), and refuses to read a vote outside {0, 0.5, 1}. A dataset with none of these faults is accepted, and a dict-style dataset that mixes in a list-style video is refused when its observers or votes are read.",
 ['inputs'],'every combination of faults and positions of the faulty video in the dataset','tests try a handful of malformed fixtures; a fault can sit in any video and combine with any other',
 [DR],[('DatasetReader._assert_dataset',DR),('RawDatasetReader._assert_dataset',DR),('PairedCompDatasetReader._assert_dataset',DR)],observe='reader construction')
p('C03','MOS and its statistics are the plain per-video sample statistics',
 "For every dataset, the MOS model reports for each video the mean of its present votes (all observers and repetitions), quality_ambiguity = their sample standard deviation (ddof 1), quality_scores_std = that divided by the square root of the number of present votes, and a 95% CI of 1.95996 times it on each side; raw_scores is the vote tensor and reconstructions repeats each video's MOS. dof is 2*videos per recorded vote, loglikelihood the mean Gaussian log-density of the present votes under each video's mean and ambiguity, aic = 2*dof - 2*loglikelihood and bic = ln(votes)*dof - 2*loglikelihood.",
 ['inputs'],'all datasets with missing and repeated votes','tests pin a few averages on one or two full datasets; the per-video values with missing or repeated votes are not asserted',
 [SM,'sureal/tools/stats.py'],[('MosModel._get_mos_and_stats',SM),('SubjectiveModel._stack_repetitions_along_axis',SM),('vectorized_gaussian','sureal/tools/stats.py')],observe='run_modeling result')
p('C04','Differential scoring references each video to its own content',
 "With differential scoring (DMOS, SR_DMOS, ZS_SR_DMOS, LIVE_DMOS, DMOS_MLE, DMOS_MLE_CO, or dscore_mode=True on any model) every vote becomes vote + ref_score - (mean of all present votes of the reference video of the same content), before any other step. It fails if the dataset has no ref_score or a content does not have exactly one distorted video that is its reference; so the reference videos of a plain DMOS always score exactly ref_score.",
 ['inputs'],'all datasets and all models, with any order of videos, contents and repetitions','tests pin a few averages on one dataset whose references come in a fixed order',
 [SM,DR],[('SubjectiveModel._get_ref_mos',SM),('_get_opinion_score_3darray_with_preprocessing',SM),('DmosModel',SM),('DatasetReader.disvideo_is_refvideo',DR)],observe='run_modeling result')
p('C05','Z-scoring standardises each observer over his own votes',
 "With z-scoring (ZS_MOS, ZS_SR_MOS, ZS_SR_DMOS, LIVE_DMOS, or zscore_mode=True) every observer's present votes, over all videos and repetitions, are shifted and scaled by that observer's own mean and sample standard deviation (ddof 1), after differential scoring and before rejection; missing votes stay missing. LIVE_DMOS reports the per-video mean of (z + 3) * 100 / 6.",
 ['inputs'],'all datasets, all models accepting zscore_mode','tests check averages only, which are 0 for almost any standardisation',
 [SM],[('_get_opinion_score_3darray_with_preprocessing',SM),('LiveDmosModel',SM),('ZscoringMosModel',SM)],observe='raw_scores / quality_scores of run_modeling')
p('C06','Bias removal subtracts each observer mean deviation from the MOS',
 "With bias removal (BR_MOS, BR_SR_MOS and its PCC/SRCC variants, P913, or bias_offset=True) observer_bias is, per observer, the mean over his present votes of vote minus the video's mean vote, that bias is subtracted from all his votes, and quality_scores and statistics are those of the corrected votes, before any observer is rejected. The bias-removal models count 2*videos + observers*repetitions parameters in dof.",
 ['inputs'],'all datasets with missing and repeated votes','tests pin averages on one dataset',
 [SM],[('_get_opinion_score_3darray_with_preprocessing',SM),('BiasremvMosModel',SM)],observe='run_modeling result')
p('C07','BT.500 screening rejects exactly the observers the standard rejects',
 "Kurtosis-based subject rejection (SR_MOS, BT500, BR_SR_MOS, P913, ZS_SR_MOS, SR_DMOS, ZS_SR_DMOS, subject_rejection=True) counts per observer the votes at or beyond mean +/- 2 sigma (population sigma, video kurtosis in [2,4]) or +/- sqrt(20) sigma (otherwise), reports (P+Q)/(videos*repetitions) and |P-Q|/(P+Q) as the two statistics, and rejects exactly the observers with the first > 0.05 and the second < 0.3, or nobody if that would be everybody. observer_rejected has one flag per observer in observer order, and scores, statistics and raw_scores are those of the accepted observers only.",
 ['inputs'],'all datasets with outliers of any kind, ties with the thresholds, missing and repeated votes','tests use two datasets; thresholds, ties, repetition attribution and the reject-all rule need specific vote patterns',
 [SM],[('_get_opinion_score_3darray_with_preprocessing',SM),('SubjrejMosModel',SM)],observe='run_modeling result')
p('C08','Correlation screening rejects exactly the observers below threshold',
 "With subject_rejection_type pearson/spearman (SR_MOS_PCC, SR_MOS_SRCC, BR_SR_MOS_PCC, BR_SR_MOS_SRCC) each observer's statistic is the Pearson/Spearman correlation of his repetition-averaged scores with the per-video mean over observers on the videos he rated; an observer is rejected exactly when it does not exceed min(0.7, mean - population standard deviation of the statistics). Flags follow observer order and scores are those of the accepted observers only.",
 ['inputs'],'all datasets with missing votes, ties and repetitions','tests use one dataset where every observer rated every video once',
 [SM],[('_get_opinion_score_3darray_with_preprocessing',SM),('SubjrejMosModelPearson',SM),('SubjrejMosModelSpearman',SM)],observe='run_modeling result')
p('C09','P.910 alternating projection returns its converged estimate',
 "For every dataset, P910 / Subject_MLE_Projection(2) / MLE_CO_AP(2) report the limit (change < 1e-8, at most 1000 sweeps) of: residual std per observer, quality as the mean of bias-corrected votes weighted by 1/(v^2+1e-8), bias as the mean of vote minus quality, started from MOS; then observer biases are shifted to zero mean (unless force_subjbias_zeromean=False) with the quality shifted by the same amount. The reported standard deviations, 95% CIs (chi-square for inconsistency), observer score mean/std, reconstructions quality+bias, dof, loglikelihood, aic, bic follow from those estimates and the present votes.",
 ['inputs'],'all datasets with missing and repeated votes, all four model names, both settings of force_subjbias_zeromean','tests pin averages on full datasets; weights, missing votes and repetitions interact only in other data',
 [SM,'sureal/tools/misc.py','sureal/__init__.py'],[('SubjectMLEModelProjectionSolver._run_modeling',SM),('SubjectMLEModelProjectionSolverAltSubjStdMixin',SM),('weighed_nanmean_2d','sureal/tools/misc.py')],observe='run_modeling result')
p('C10','The MLE models return a stationary point of their likelihood',
 "On every dataset where they converge, MLE, MLE_CO, MLE_SO (and their DMOS variants) return quality, observer bias, observer inconsistency and content ambiguity that satisfy the likelihood equations of votes ~ N(quality_e + bias_s, inconsistency_s^2 + ambiguity_c(e)^2) over the present votes, with bias/inconsistency absent in MLE_SO and ambiguity absent in MLE_CO, biases of zero mean unless force_subjbias_zeromean=False, for all three gradient methods (analytic, legacy analytic, numerical). Their standard deviations, CIs, dof, loglikelihood, aic, bic and reconstructions follow from the estimates; LS returns a least-squares solution of vote = quality + bias and MLE_legacy the stationary point of the content-free model on full single-vote data, with its default and its use_log sweeps. MaximumLikelihoodEstimationModel.loglikelihood_fcn equals the log-likelihood of the present votes under the named law (gaussian, uniform, logistic) and refuses any other law.",
 ['inputs'],'all datasets with missing/repeated votes, permuted contents and ids, all modes and gradient methods','tests pin averages for a few datasets; per-parameter optimality is not asserted anywhere',
 [SM],[('MaximumLikelihoodEstimationModel._run_modeling',SM),('MaximumLikelihoodEstimationModel.loglikelihood_fcn',SM),('LeastSquaresModel',SM),('LegacyMaximumLikelihoodEstimationModel',SM)],observe='run_modeling result')
p('C11','Results depend on the votes, not on order, names or vote style',
 "For every raw-score subjective model and dataset on which it converges, permuting the distorted videos permutes the per-video results, permuting or renaming the observers permutes the per-observer results, and writing the same votes as list, tuple or dict, or renaming paths, asset_ids and content_ids consistently, changes nothing else. Adding a constant to all votes adds it to the reported quality (not to differential or z-scored quality) and leaves biases, inconsistencies, standard deviations and rejections unchanged.",
 ['inputs','histories'],'all datasets, all models of the registry, all permutations and renamings','the relation quantifies over pairs of datasets; tests compare each dataset only with constants',
 [SM,DR],[('SubjectiveModel.run_modeling',SM),('RawDatasetReader.opinion_score_3darray',DR)],observe='run_modeling results of related datasets')
p('C12','Analyses never change their inputs and repeat identically',
 "In any sequence of public calls (constructing readers and models, reading tensors, running models in any order and repeatedly with any options, on rating and on paired-comparison datasets, exporting, converting, combining), a dataset object passed in is never modified and two equal deterministic calls on it, at any two points of the sequence, give equal results. The video entries of datasets returned by exports and conversions (other than a dict-style dataset that to_dictionary_style_dataset returns as is) can be modified by the caller without changing the original dataset or later results.",
 ['histories'],'all interleavings of public calls on shared datasets, readers and models','tests run each call once on a freshly loaded dataset, so aliasing and stale caches are invisible',
 [DR,SM,PC],[('RawDatasetReader.to_pc_dataset',DR),('to_combined_overlap_dataset',DR),('to_aggregated_dataset',DR),('SubjectiveModel.run_modeling',SM),('PairedCompDatasetReader.opinion_score_3darray',DR)],state='the caller-owned dataset objects and everything reachable from them')
p('C13','Exported and written datasets carry the right score per video',
 "After a model has run, to_aggregated_dataset gives every distorted video, in order, its own quality score as groundtruth (and groundtruth_std when available), without 'os' and with all other fields and dataset attributes kept, restricted to aggregate_content_ids/aggregate_asset_ids when given, with quality_width/height/resampling_type overridden when given; the PERSUBJECT model on single votes gives one entry per observer's vote of each video, in order. Writing a dataset file and importing it back yields the same ref_videos, dis_videos and attributes (NaN votes and a dataset file that imports modules included), from_dataset_file keeps exactly the videos selected by content_ids and asset_ids, and exporting before run_modeling is refused.",
 ['inputs','histories'],'all datasets, models, filters and file round trips','tests check sums over one dataset; an off-by-one pairing of scores and videos or a lost field keeps the sums',
 [DR,SM,'sureal/tools/misc.py'],[('RawDatasetReader.to_aggregated_dataset',DR),('RawDatasetReader.to_persubject_dataset',DR),('DatasetReader.write_out_dataset',DR),('SubjectiveModel.from_dataset_file',SM)],observe='returned dataset objects and files')
p('C14','Paired-comparison conversion keeps each subject preferences',
 "For a dataset of single votes, to_pc_dataset compares, per subject, every pair of videos he rated (same content only under within_subject_within_content) exactly once: the higher vote earns 1 on its video under key (subject, other asset_id), a tie earns 0.5 on both (even_split) or 1 on exactly one (coin_toss), and nothing else is recorded. A sampling_rate below 1 only drops pairs, a cointoss_rate of 1 still gives exactly one winner per pair, per-asset rates apply to the asset they are listed for, per_asset_mean_scores replace the votes, equal sampling_seed gives equal output, and invalid options are refused.",
 ['inputs'],'all datasets, orders of asset ids, missing votes, options and seeds','tests compare total counts on one dataset',
 [DR],[('RawDatasetReader.to_pc_dataset',DR)],observe='returned dataset')
p('C15','The paired-comparison tensor is antisymmetric and complete',
 "For every paired-comparison dataset, entry [i, j, s] of opinion_score_3darray is the recorded preference of observer s (sorted ids) for video i over video j, where both indices refer to positions in dis_videos and keys refer to asset_ids, entry [j, i, s] is one minus it, and every pair nobody compared is NaN. Repeated reads of a reader return the same tensor.",
 ['inputs'],'all paired-comparison datasets incl. permuted asset ids, ties, sparse designs','tests check sums on one dataset whose asset ids are already in order',
 [DR],[('PairedCompDatasetReader.opinion_score_3darray',DR),('PairedCompDatasetReader._get_list_observers',DR)],observe='opinion_score_3darray')
p('C16','Paired-comparison models return the maximum-likelihood scale',
 "For every connected comparison matrix, BT_MLE returns probabilities summing to 1 that satisfy the Bradley-Terry likelihood equations with quality = log(p), BT_NR returns the same scale up to a constant with its last score 0, and THURSTONE_MLE returns a stationary point of the Thurstone likelihood. Uncertainties are the delta-method transform of the covariance of the constrained estimate, CI is 1.95996 times the std, and zscore_output=True of BT_NR and THURSTONE_MLE standardises the scores (population std). [Known: BT_MLE's covariance and THURSTONE_MLE's unsimplified deviation deviate, see known_findings.json.]",
 ['inputs'],'all connected comparison matrices','tests pin a few numbers for two matrices',
 [PC],[('BradleyTerryMlePairedCompSubjectiveModel.resolve_model',PC),('BradleyTerryNewtonRaphsonPairedCompSubjectiveModel._run_modeling',PC),('ThurstoneMlePairedCompSubjectiveModel.resolve_model',PC)],observe='run_modeling result')
p('C17','Combining two datasets keeps exactly the shared videos and all votes',
 "to_combined_overlap_dataset yields one video per pair of same-path videos, carrying the first dataset's fields, renumbered contents in first-appearance order with their own reference video, every observer of either dataset, and for an observer present in both the first dataset's votes followed by the second's. to_dictionary_style_dataset names list votes <dataset_name>_subject<i> with unchanged scores, and returns dict-style data as is.",
 ['inputs'],'all pairs of datasets: list/tuple/dict styles, repetitions, shared observers, partial overlaps','tests combine two fixed datasets',
 [DR],[('RawDatasetReader.to_combined_overlap_dataset',DR),('RawDatasetReader.to_dictionary_style_dataset',DR)],observe='returned dataset')
p('C18','Simulation readers alter exactly what they are told to',
 "SelectSubject returns exactly the selected observers' votes in selection order, SelectDisVideo the selected videos, MissingData only replaces votes by NaN, CorruptSubject changes only the selected observers' votes and only as its behaviour says (shuffle: a permutation per observer; flip: min+max-vote; min/mid/max/constant), CorruptData only replaces votes by values in [1, ref_score]. The same seed gives the same tensor where a seed is supported, to_dataset exports the very tensor of the reader, Synthetic readers give quality + observer bias + content bias plus deviations that scale with observer inconsistency and content ambiguity and are 0 when those are, and invalid selections or parameters are refused.",
 ['inputs'],'all datasets, styles, selections, behaviours, probabilities and seeds','tests check means of random data',
 [DR],[('SelectSubjectRawDatasetReader',DR),('MissingDataRawDatasetReader',DR),('CorruptSubjectRawDatasetReader',DR),('SyntheticRawDatasetReader',DR),('MockedRawDatasetReader.to_dataset',DR)],observe='opinion_score_3darray of the reader')
p('C19','Performance metrics compute the textbook statistics',
 "RMSE, PCC, SRCC and KENDALL evaluate to the root mean square error, Pearson, Spearman (average ranks for ties) and Kendall tau-b of prediction against ground truth, where a list-valued ground truth is first reduced by aggr_method (default mean); unequal lengths are refused. Without enable_mapping the predictions are used as they are; with it they are first passed through the logistic curve between the smallest ground truth - 0.1 and the largest + 0.1 whose logit is the least-squares line of predictions on ground-truth logits.",
 ['inputs'],'all score vectors including ties and list-valued ground truths','tests use one short example each',
 ['sureal/perf_metric.py'],[('AggrScorePerfMetric._preprocess','sureal/perf_metric.py'),('RmsePerfMetric','sureal/perf_metric.py'),('KendallPerfMetric','sureal/perf_metric.py')],observe="evaluate()['score']")
p('C20','Reports attach every figure to the right video, observer and model',
 "run_subjective_models on a .py or .json dataset returns, in the order asked, the results each model gives on that dataset plus dis_video_names and reconstruction_stats; format_output_of_run_subjective_models and the command line (stdout or output.json) list for video/observer/content k and model M exactly entry k of M's quality score, std and CI, observer bias/inconsistency/score figures, content ambiguity figures, and M's aic and bic. The deprecated command line (subjective_model, dataset file, options) prints the model's results for that dataset, or writes them as sureal.json in the output directory. Content figures are listed for datasets whose content ids are 0..n-1. Unknown file types and unknown or mixed kinds of models are refused.",
 ['inputs'],'all datasets and all combinations and orders of models','tests run a few model lists and check single entries',
 [RT,'sureal/__main__.py','sureal/cmd_deprecated.py'],[('run_subjective_models',RT),('format_output_of_run_subjective_models',RT),('main','sureal/__main__.py')],observe='returned dict, printed JSON, output.json')
p('C21','Model names and options mean one thing, conflicts are refused',
 "Every published model name resolves to exactly one class, and the class behaves as the documented combination of preprocessing steps (SR/ZS/BR/DMOS prefixes and suffixes, BT500 = SR_MOS, P913 = BR_SR_MOS, P910 = Subject_MLE_Projection2). Asking a model to repeat a step it already does, combining zscore_mode with bias_offset, giving subject_rejection_type without subject_rejection, an unknown rejection type, or subject_rejection on LS and the belief-propagation models is refused; normalize_final standardises the final quality scores (population std) and transform_final applies p2*q^2 + p1*q + p0 after it, touching nothing else.",
 ['inputs'],'all model names times all option combinations','tests cover a dozen of the several hundred combinations',
 [SM,PC,'sureal/__init__.py','sureal/core/mixin.py'],[('TypeVersionEnabled.find_subclass','sureal/core/mixin.py'),('SubjectiveModel._postprocess_model_result',SM),('run_modeling guards',SM)],observe='run_modeling result or error')
p('C22','parallel_map returns func over the list, in order, within its limit',
 "For every finishing function, argument list and process limit, under every schedule of the worker processes, parallel_map returns the list of func(arg) in argument order, runs each argument exactly once, and never has more than the given number of worker processes active. It terminates for every positive limit, including lists shorter or longer than the limit and the empty list. If a worker process dies without a result, parallel_map raises instead of returning a list.",
 ['schedules','inputs'],'all argument lists, limits, durations and completion orders','one run shows one schedule; completion orders differ between machines',
 ['sureal/tools/misc.py'],[('parallel_map','sureal/tools/misc.py')],state='waiting/active process sets, return_dict',observe='return value, recorded start/finish events')
p('C23','Persistent and memoised caches return what the function would return',
 "A function wrapped by persist_to_dir, persist_to_file or memoized returns on every call, in every process and in any call order, the value the function gives for those arguments (for the two persistent caches: for JSON-representable values), calls the function at most once per distinct arguments while the cache lives, never mixes entries of different functions or arguments, and memoized keeps instances apart. (Wrapped functions have different names, a persist_to_file file serves one function, the caller does not modify returned values, and processes follow one another.) A call that dies or raises before its value is stored never makes a later call return a wrong value or fail.",
 ['histories','crash_points'],'all call sequences over arguments, functions, instances and process restarts, with a failure at any point of a call','tests call once or twice in one process without failures',
 ['sureal/tools/decorator.py'],[('persist_to_dir','sureal/tools/decorator.py'),('persist_to_file','sureal/tools/decorator.py'),('memoized','sureal/tools/decorator.py')],state='cache dictionary / cache files',observe='returned values, evaluation counts')
p('C24','Numeric helpers compute the documented statistics',
 "weighed_nanmean_2d is the weighted mean of the non-NaN entries along the axis; histc counts each non-NaN value; get_cdf and get_pdf are the normalised cumulative and density histograms; convolution_of_two_uniforms is the density of the sum of two independent uniforms centred at loc1, loc2 with widths s1, s2; vectorized_gaussian and vectorized_logistic are the densities of their laws; ConvolveTwoPdf approximates the convolution density. get_cmd_option and cmd_option_exists look only at the given range of arguments. inversefunc of a strictly monotonic function returns, for every value of its image, the argument of its domain the function takes there, and refuses values outside the image, and malformed domain, image or open_domain arguments. The file name helpers give the file name, the name without extension and the extension of a path. run_process runs the command once and raises unless it exits with status 0.",
 ['inputs'],'all arguments','doctests use a handful of centred examples',
 ['sureal/tools/misc.py','sureal/tools/stats.py'],[('weighed_nanmean_2d','sureal/tools/misc.py'),('convolution_of_two_uniforms','sureal/tools/stats.py'),('histc','sureal/tools/stats.py'),('get_cdf','sureal/tools/stats.py')],observe='return values')
p('C25','Bootstrap models give the MLE estimate with resampling intervals',
 "MLE_BSTP and MLE_CO_BSTP report the point estimates of MLE / MLE_CO, zero-mean biases unless force_subjbias_zeromean=False, and 95% intervals equal to the distance of the estimate to the 2.5 and 97.5 percentiles (linear interpolation) over n_bootstrap resamplings with replacement (numpy.random.choice after numpy.random.seed(i), i = 0..n-1) of observers for quality and of videos for bias and inconsistency, aligned to the full estimate. An interval is present exactly when its resampling is enabled, asset_ids may be any distinct numbers, and a non-positive or non-integer n_bootstrap or a non-boolean switch is refused.",
 ['inputs'],'all datasets, n_bootstrap and switches','tests run one dataset and check averages',
 ['sureal/experimental.py',DR],[('MaximumLikelihoodEstimationModelWithBootstrapping._run_modeling','sureal/experimental.py'),('_bootstrap_subjects','sureal/experimental.py'),('SelectDisVideoRawDatasetReader',DR)],observe='run_modeling result')
p('C26','The ITU demo scripts agree with the library model',
 "The stand-alone scripts itut_p910_demo, itut_p913_demo and itur_bt500_demo, run on any CSV of votes (missing votes written nan; for the last, repetitions as tables separated by a row of commas), produce the same quality, CI, bias and inconsistency estimates as the alternating-projection solver specified for P.910 gives on the same votes.",
 ['inputs'],'all CSV vote tables','no test runs the demo scripts at all',
 ['itut_p910_demo/demo_p910.py','itut_p913_demo/demo.py','itur_bt500_demo/demo_bt500.py'],[('run_alternating_projection','itut_p910_demo/demo_p910.py')],observe='returned / printed estimates')
p('C27','Sub-sampling and synthetic validation measure what they claim',
 "get_sample_stats with subj_fraction in (0, 1] (others are refused) runs each model on exactly floor(fraction * observers) distinct observers, all of their votes and nobody else's, the same ones for the same random_seed, and on the full data without a fraction. get_ci_percentage is the percentage of true values inside [estimate - lower, estimate + upper]; validate_with_synthetic_dataset returns each model's result on the synthetic votes, writes a loadable copy of those votes when asked (with a seed), and plots nothing that changes a result.",
 ['inputs'],'all datasets, styles, fractions, seeds, models','tests check averages for one dataset and fraction',
 [RT,DR],[('get_sample_stats',RT),('get_ci_percentage',RT),('validate_with_synthetic_dataset',RT),('SelectSubjectRawDatasetReader',DR)],observe='returned results')
p('C28','Plots draw the figures the models report',
 "Every axes run_subjective_models draws shows, for each model in the order asked, that model's reported figures and no others: the raw scores as the image of the votes (one row per observer), quality scores with their confidence intervals (also when sorted: videos in ascending order of the first model, each with its own interval), observer bias, inconsistency and content ambiguity with their intervals, under the model's name, with the average interval and BIC the label states. visualize_pc_dataset draws the alpha matrix of the votes; validate_with_synthetic_dataset draws estimates against the truth with the RMSE and CI coverage in its labels; plot_scatter_target_vs_compared_models draws one model against another with their correlations and the histogram of their differences. Plotting any number of models works and changes no result, and an unknown plot_type is refused.",
 ['inputs'],'all datasets, kinds of figures, numbers and orders of models','tests look at single axes of a few models, never at what is drawn',
 [RT],[('run_subjective_models do_plot',RT),('visualize_pc_dataset',RT),('validate_with_synthetic_dataset',RT),('plot_scatter_target_vs_compared_models',RT)],observe='lines, bars, images and labels of the matplotlib axes')
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P),[ (q['id'],len(q['title'])) for q in P if len(q['title'])>80])
