"""Writes properties.jsonl and MANIFEST.json."""
import json
import re
D="src/data_generators/"; M="src/models/"; S="src/simulator/"; V="src/driver/"; F="src/filesystem_wrappers/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    n=len(re.findall(r'[.](?: |$)',statement)); assert n<=3,(id,n)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","A publisher log answers every query as a prefix of its spend-ordered events",
"For any impression log, given in any order, the impressions bought by a spend are exactly the events costing at most that spend, the users reached by n impressions are those of the first n events in spend order, and spend, impression and user-count queries agree with each other. Maximum spend, impressions and reach are those of the whole log. Queries neither change the log nor depend on earlier queries, and the caller's data is not modified.",
["inputs","histories"],"every log (unsorted, ties, repeated users), every spend and impression count, every sequence of queries",
"The tests use a handful of short, mostly sorted logs; unsorted logs, ties, boundaries between events and query sequences are not sampled.",
[D+"publisher_data.py"],[("sorted log and bisection over spends",D+"publisher_data.py: PublisherData.__init__, impressions_by_spend, user_counts_by_spend, spend_by_impressions")],
[("_data","events sorted by spend","PublisherData"),("_spends","sorted spends for bisection","PublisherData")],["public query methods of PublisherData"])
p("C02","A data set's reach is the exact de-duplicated count over its publishers",
"For any spend vector or impression vector, a data set reports as k+ reach exactly the number of distinct users that receive at least k impressions over all its publishers together, and the impressions each publisher delivers. Reach never falls when any spend or impression count grows, lies between the largest single-publisher reach and their sum, and equals the maximum reach at full spend; vectors of the wrong length are rejected.",
["inputs","histories"],"every collection of logs, every spend/impression vector, every maximum frequency, every order of queries",
"Tests check a few fixed two- and three-publisher examples; de-duplication has to hold for every overlap pattern and every point of the surface.",
[D+"data_set.py",D+"publisher_data.py"],[("summing user counts over publishers and counting users by frequency",D+"data_set.py: reach_by_spend, reach_by_impressions, impressions_by_spend, spend_by_impressions")],None,["DataSet public queries"])
p("C03","Reach points convert consistently between k+ reach and frequencies",
"For any user counts or k+ reach vector, the k+ reaches, the per-frequency counts, the histogram with a final k+ bucket and the histogram with the unreached users are mutually consistent and equal a direct count; converting back and forth is the identity. Frequencies outside the recorded range, and inconsistent spend and impression vectors, are rejected, and arguments are not modified.",
["inputs"],"every user-count table, k+ vector, maximum frequency and universe size",
"Tests fix a few vectors; off-by-one errors in single buckets or lengths show only on particular lengths and values.",
[M+"reach_point.py"],[("conversions between representations",M+"reach_point.py: ReachPoint and its static conversions")],None,["ReachPoint accessors and static methods"])
p("C04","Impression data read back from storage is the data that was written",
"A publisher log, a data set or a data design that is written to local disk or to a bucket and read back answers every query as the original, under the same data set and publisher names, with the publishers in the order of their names and independent of the order of lines in a file. Adding a data set under an existing name is refused without changing what is stored, and malformed files are rejected instead of read as something else.",
["inputs","histories"],"every data set content and name, every sequence of add, reopen, read and rewrite, both kinds of storage, every corruption of a stored line",
"Tests round-trip a few tiny files on one storage backend; names, value formats, sequences and corruptions are not sampled.",
[D+"publisher_data.py",D+"data_set.py",D+"data_design.py",F+"filesystem_pathlib_wrapper.py",F+"filesystem_cloudpath_wrapper.py"],
[("CSV reader and writer",D+"publisher_data.py: read_publisher_data, write_publisher_data"),("data set directory layout",D+"data_set.py: read_data_set, write_data_set"),("design directory",D+"data_design.py")],None,["files in the scratch directory or bucket and the objects read back"])
p("C05","Local and cloud file access behave as one and the same file store",
"Any sequence of file operations (write, append, read in text or binary mode with encodings, delete, make directory, test for existence, list by pattern, take apart and join paths) has the same observable outcome through the local wrapper as through the cloud wrapper and as on a simple map from paths to contents. Deleting or reading a missing file and, on disk, creating an existing directory fail unless explicitly allowed; a bucket has no empty directories, so making one there has no effect.",
["histories","inputs"],"every sequence of operations over every small set of paths, on both wrappers",
"Tests call each method once in isolation, with mocks; sequences, modes and error cases of the two wrappers are never compared.",
[F+"filesystem_pathlib_wrapper.py",F+"filesystem_cloudpath_wrapper.py",F+"filesystem_wrapper_base.py"],
[("delegation to pathlib / cloudpathlib",F)],None,["the wrapper methods"])
p("C06","Synthetic impressions follow the stated law, in random order, reproducibly",
"Every impression generator emits each of its n users at least once with frequencies drawn from its documented distribution, in random order, as a function of the given random generator only. Pricing keeps every impression in order, and the j-th impression costs j times the price per impression in total.",
["inputs","configurations"],"every number of users, parameter setting, seed and price, and every number of calls",
"Tests check one seed with mocked or seeded output; neither the distribution, the order, nor independence from global randomness is tested.",
[D+"homogeneous_impression_generator.py",D+"heterogeneous_impression_generator.py",D+"heavy_tailed_impression_generator.py",D+"fixed_price_generator.py"],
[("draw, repeat and shuffle","the impression generators' __call__"),("cumulative price",D+"fixed_price_generator.py: __call__")],None,["emitted sequences"])
p("C07","Building publisher overlap keeps every single publisher's reach curve",
"When users of several publishers are relabelled to create overlap, every publisher keeps its number of impressions, spends, reach and frequency histogram at every spend, its users become exactly the identities drawn for it, each user gets one identity and no two users of a publisher share one. The requested set sizes and overlap options are passed on unchanged, the input publishers are not modified, and the result depends only on the inputs and the given random generator.",
["inputs","configurations"],"every set of publisher logs with arbitrary user ids, every overlap method and option, every seed",
"Tests check one or two tiny examples for set sizes; the invariance of every publisher's curve is not examined.",
[D+"overlap_data_set.py",D+"independent_overlap_data_set.py",D+"sequentially_correlated_overlap_data_set.py"],
[("mapping of ids per publisher",D+"overlap_data_set.py")],None,["relabelled publishers and the recording set generator"])
p("C08","Synthetic data designs contain what their configuration says, reproducibly",
"Generating a data design yields exactly one data set per configured parameter set, stored under its name (different parameters get different names), with the configured number of publishers, geometrically decreasing publisher sizes, prices and overlap; the same configuration and seed give identical files and another seed gives other data. The shipped designs list the complete, collision-free set of configurations they describe, and an existing design is not overwritten.",
["configurations","inputs"],"every configuration, every seed, all shipped designs",
"Tests generate one small design and count the files; content, reproducibility and all shipped configurations are not checked.",
[D+"synthetic_data_design_generator.py",D+"data_set_parameters.py",D+"m3_data_design.py",D+"single_publisher_design.py",D+"lhs_data_design_example.py",D+"simple_data_design_example.py",D+"analysis_example_data_design.py"],
[("seeded generation loop",D+"synthetic_data_design_generator.py")],None,["files of the generated design"])
p("C09","Every fitted single-publisher curve has the shape of a reach curve",
"For every fitted single-publisher model, predicted reach is finite, zero without impressions, non-decreasing in impressions, non-increasing in frequency, never above the reachable audience and never more contacts than impressions. The prediction for k+ does not depend on the maximum frequency asked for nor on earlier queries.",
["inputs","histories"],"every training observation of every model family, every impression count from 0 to far beyond the inventory, every order of queries",
"Tests evaluate each model at one or two points; monotonicity and bounds quantify over the whole curve and all parameters.",
[M+"goerg_model.py",M+"gamma_poisson_model.py",M+"kinflated_gamma_poisson_model.py",M+"dirac_mixture_single_publisher_model.py",M+"reach_curve.py"],
[("curve evaluation","by_impressions of each model")],None,["by_impressions answers"])
p("C10","A fitted curve passes through the observation it was trained on",
"A single-publisher model fitted on one campaign observation reproduces the observed reach (and k+ reach, within the accuracy of its fit) at the observed impressions, keeps a given maximum reach, does not modify the observation and gives the same curve when refitted. The one-parameter model equals its closed form at every impression count; observations no audience can produce (as many or more people as impressions, several or no points) are rejected.",
["inputs"],"every campaign observation, both simulated and ideal, and every model option",
"Tests fit two or three hand-picked points with loose tolerances; the fit has to hold for every observation including extrapolated ones.",
[M+"goerg_model.py",M+"gamma_poisson_model.py",M+"kinflated_gamma_poisson_model.py",M+"dirac_mixture_single_publisher_model.py"],
[("numerical fits","_fit of each model")],None,["by_impressions at the training point, max_reach"])
p("C11","Spend queries and quantile inversion agree with the impression curve",
"On every reach curve with prices, the reach of a spend is the reach of the impressions that money buys, and prices scale linearly from the observation. The answer to a reach-quantile question is the largest whole number of impressions (or the corresponding spend) whose reach does not exceed the target share of the maximum reach; quantiles outside (0,1), wrong vector lengths and spend questions without prices are rejected.",
["inputs"],"every curve of every model family and every true curve, every spend, every quantile",
"Tests check single values; the extremal property of the inversion is a statement about the neighbours of every answer.",
[M+"reach_curve.py",M+"goerg_model.py",M+"gamma_poisson_model.py",M+"kinflated_gamma_poisson_model.py",M+"ground_truth_reach_curve_model.py"],
[("bisection over impressions",M+"reach_curve.py: impressions_at_reach_quantile, spend_at_reach_quantile"),("cost per impression","by_spend of each model")],None,["by_spend, impressions_at_reach_quantile, spend_at_reach_quantile"])
p("C12","The true curve of a publisher is exactly what its own log says",
"For every publisher of every data set, the ground-truth curve reports for any spend or number of impressions the exact k+ reach and impressions of that publisher's own log, its maximum reach is the number of its users, and vectors of the wrong length are rejected. Curves of other publishers of the same data set do not influence it.",
["inputs","histories"],"every data set, publisher, spend, impression count and maximum frequency, in every order of queries",
"Tests use one tiny data set; other publishers' users, ties and frequencies above 1 are not sampled.",
[M+"ground_truth_reach_curve_model.py",D+"data_set.py"],[("single-publisher spend and impression vectors",M+"ground_truth_reach_curve_model.py")],None,["by_spend, by_impressions, max_reach"])
p("C13","Model predictions follow the stated probability distributions",
"The probabilities behind the Gamma-Poisson, k-inflated Gamma-Poisson, exponential-Poisson and Dirac-mixture models are non-negative, sum to one and equal the analytic distributions (inventory distribution, binomial thinning by the campaign, Poisson mixtures), and the predicted k+ reach is the audience size times the probability of at least k contacts. Component weights form a probability vector, scaling factors below 1 and invalid histograms are rejected, and inputs are not modified.",
["inputs"],"all distribution parameters, inventories, frequencies and scaling factors",
"Tests compare a few probabilities at single parameter values; numerical and indexing errors elsewhere stay invisible.",
[M+"gamma_poisson_model.py",M+"kinflated_gamma_poisson_model.py",M+"dirac_mixture_single_publisher_model.py"],
[("probability mass functions and joint distributions","the distribution classes in the model files")],None,["distribution methods and predicted curves"])
p("C14","Multi-publisher surfaces combine publisher curves consistently",
"On every fitted reach surface the reach of a single active publisher is that publisher's own reach, the union lies between the largest publisher reach and the sum of reaches, never falls when impressions are added, is zero without impressions, and equals the surface's formula for overlap coefficients (or cluster shares) within their stated bounds; a spend question equals the impressions question for the same money. Exact training data generated by the surface itself are reproduced (or fitted at least as well as by the generating parameters where the fit is only a local search), refitting gives the same surface, and inconsistent training data are rejected.",
["inputs"],"every set of publisher curves, overlap, training points (exact and noisy) and query point, for each surface",
"Tests fit two or three fixed examples; the bounds and the recovery quantify over all curves, overlaps and training sets.",
[M+"pairwise_union_reach_surface.py",M+"restricted_pairwise_union_reach_surface.py",M+"generalized_mixture_reach_surface.py",M+"reach_surface.py"],
[("constrained least squares and union formulas","_fit, by_impressions of each surface")],None,["by_impressions, by_spend, fitted coefficients"])
p("C15","A simulated measurement is the true union reach at campaign spend plus noise",
"True reach queries return the exact union reach; a simulated measurement sketches exactly the users each publisher reaches within its campaign spend, using the configured sketch parameters, adds freshly drawn noise to reach and to frequencies, and reports whole, non-negative, non-increasing k+ reaches below the number of impressions, together with the impressions and spends asked for; without noise it is exact. Randomness comes only from the configured generator, so the same seed gives the same measurements and repeated measurements get different noise.",
["inputs","histories"],"every data set, campaign fraction, spend vector, privacy budget, frequency and sequence of measurements",
"The existing tests of this layer need an external package and use mocked sketches with fixed values.",
[S+"halo_simulator.py",S+"publisher.py",D+"data_set.py"],
[("one sketch per publisher, merged and estimated",S+"halo_simulator.py: simulated_reach_by_spend; "+S+"publisher.py: liquid_legions_sketch")],None,["recorded sketches, merges, noisers and estimates at the external boundary; returned reach points"])
p("C16","The Venn-diagram measurement is one consistent non-negative diagram",
"A Venn measurement returns exactly one reach point for each non-empty set of publishers with non-zero spend, carrying their spends and impressions, and these reaches are the unions of one set of non-negative, disjoint regions whose total is the noised cardinality estimate. The regions are the users sampled from the true regions (those alone in their sketch register), noised once each and scaled up by a common factor, so without noise and with every user sampled all shares are exact; no active publisher gives no points, and frequencies above 1 or more than 20 active publishers are rejected.",
["inputs","histories"],"every overlap pattern, spend vector, sketch size, budget and seed",
"The tests of this layer are example based with fixed seeds; consistency over all subsets needs inclusion-exclusion on every output.",
[S+"halo_simulator.py"],[("regions as bit masks, hypergeometric sampling, noising, scaling, aggregation",S+"halo_simulator.py: simulated_venn_diagram_reach_by_spend and helpers")],None,["returned reach points and recorded noise"])
p("C17","Every differentially private release is charged exactly once and in full",
"After any history of measurements the recorded privacy consumption equals the sum of the budgets granted to the measurements that released something, and the noise actually added to each part (reach or regions, frequencies or cardinality) has the granted epsilon in the requested split. Queries of the truth, refused measurements and measurements of nothing add no noise and are not charged, and simulations with different trackers do not affect each other.",
["histories","inputs"],"every sequence of measurements on one or several simulations with every budget and split",
"Tests check the consumption after single calls; agreement between charged and really added noise over histories is not tested.",
[S+"halo_simulator.py",S+"privacy_tracker.py",S+"publisher.py"],
[("one recorded event per noising",S+"halo_simulator.py: append of noising events")],[("noising events","history of charges",S+"privacy_tracker.py")],["privacy tracker after every step; epsilons at the noise boundary"])
p("C18","Privacy consumption is the worst case over all users of what touched them",
"The consumption for a user position is the sum of the budgets of exactly those events whose sampling interval (closed at the start, open at the end, wrapping around 1) contains it, and the total consumption is the maximum over all positions, separately for epsilon and delta. It does not depend on the order of events or on intermediate queries, and mechanisms are listed in order of use.",
["histories","inputs"],"every sequence of events with arbitrary, nested, touching and wrapping intervals, and every position",
"Tests use two or three intervals; the maximum is over a continuum of positions.",
[S+"privacy_tracker.py"],[("evaluation at interval starting points",S+"privacy_tracker.py: privacy_consumption, SamplingBucketIndices.contains")],[("_noising_events","events so far","PrivacyTracker")],["privacy_consumption, privacy_consumption_for_sampling_bucket"])
p("C19","Modelling strategies train on the right measurements within their budget",
"Fitting a strategy trains each publisher's curve on that publisher's own campaign measurement and the surface on the campaign of all publishers and, with more than two publishers, of all but one each; without noise these training data are the exact reaches. The total privacy consumed never exceeds the budget given and is split equally over the planned requests, and ground-truth curves replace modelled ones only when asked for. The planner answers with the fitted model and with the truth respectively without further consumption, and the single-publisher strategy rejects several publishers.",
["inputs","configurations"],"every data set, campaign, budget, number of publishers and strategy option",
"The tests of this layer mock the measurement system and check one or two publishers.",
[S+"m3_strategy.py",S+"single_publisher_strategy.py",S+"planner_simulator.py",S+"modeling_strategy.py"],
[("sequence of measurement requests",S+"m3_strategy.py: fit; "+S+"single_publisher_strategy.py: fit")],None,["training data received by recording models, privacy tracker"])
p("C20","Test points cover the spend range in the promised number, reproducibly",
"Every test point has one spend per publisher between zero and that publisher's maximum; the grid holds every combination of equally spaced interior spends once, the Latin hypercube has exactly one point in each of the equal spend intervals of every publisher, and random points are independent and uniform. The number of points respects the requested number, the minimum per publisher and the documented minimum and maximum, and the points depend only on the data set, the options and the given random generator.",
["inputs","configurations"],"every data set, generator, option and seed",
"Tests count points for a few options; ranges, stratification, minimum sizes and reproducibility are not checked for all options.",
[V+"test_point_generator.py",V+"grid_test_point_generator.py",V+"uniformly_random_test_point_generator.py",V+"latin_hypercube_random_test_point_generator.py"],
[("scaling unit points by the maximum spends","test_points of each generator")],None,["generated points"])
p("C21","Evaluation metrics are exactly what their names say",
"For every list of true and modelled reach points, each reported metric (bias, absolute, squared and relative errors overall and per frequency, variances, error quantiles, shuffle distances, number of points) equals its definition relative to the true reach, is unaffected by the order of test points and is zero for a perfect prediction where it measures error. A failed evaluation yields one row with the same columns, the failure flag and message, and missing values.",
["inputs"],"every list of pairs of reach points of any frequencies and magnitude",
"Tests compare a few metrics on two-point examples; sign, denominator, frequency index and short vectors are not sampled.",
[V+"test_point_aggregator.py"],[("table of aggregation functions",V+"test_point_aggregator.py: AGGREGATORS, aggregate, aggregate_on_exception")],None,["result row"])
p("C22","A trial yields one correct row and survives crashes at any point",
"Evaluating a trial returns one row describing exactly the trial, its privacy use and the metrics obtained by fitting the strategy and comparing with the truth at the test points of the seed; a modelling error, and only that, gives a failure row with the same columns. A result is stored once and then returned unchanged instead of being recomputed; after a crash or I/O error at any file operation, including a half-written result, evaluating again returns and stores the same complete row and no partial result is ever accepted. Completed trials leave no pending marker, an interrupted trial keeps its own marker while others complete, and evaluating does not change the trial's description or its source of randomness.",
["crash_points","fault_sequences","inputs"],"every trial, every file operation of an evaluation, every prefix of every write, repeated crashes",
"Tests evaluate a trial once on an intact directory (and need external packages); no fault is ever injected.",
[V+"experimental_trial.py",V+"test_point_aggregator.py"],
[("result file and pending marker",V+"experimental_trial.py: evaluate")],[("result file","completed trial","{experiment dir}/{data set}/{trial}.csv"),("pending marker","trial in progress","pending directory")],["returned row, stored file, file operations"])
p("C23","A design yields every trial's row exactly once, however it is run",
"The result of an experimental design has exactly one row for each distinct pair of data set and trial description, equal to the row of that trial evaluated on its own, whether the design is run sequentially, in another order, on several processes, on a distributed runner with any bundling, resumed over partial or damaged earlier results, loaded again, or started through the driver. The driver's output file contains the same rows.",
["schedules","histories","configurations"],"every design (with repeated trials and shared generators), every way and order of running it, every partial earlier state",
"Tests run two trivial trials sequentially; independence from order, parallelism and earlier results is not tested.",
[V+"experimental_design.py",V+"experiment.py",V+"experiment_driver.py",V+"experimental_trial.py"],
[("trial generation, de-duplication and evaluation",V+"experimental_design.py: generate_trials, load; "+V+"experiment_driver.py: execute, main")],None,["result frames, output file, runner schedules"])
p("C24","A trial's name identifies its configuration; adapting it to a data set is pure",
"Two trials have the same name exactly when strategy, models, options, spend fractions, sketch size and decay, budget, replica, frequency and test points agree, and names can be used as file names. Adapting a description to a data set fills in that data set's spend fractions and number of publishers, keeps everything else, and changes neither the original nor other adaptations; a description instantiates exactly the named strategy, models and test points, unknown names are rejected, and the shipped experimental designs enumerate every combination of their levels once, reproducibly.",
["configurations","histories"],"every pair of configurations, every sequence of adaptations to data sets, all shipped designs and seeds",
"Tests compare a few literal strings; injectivity of names and purity over sequences of data sets are not tested.",
[V+"trial_descriptor.py",V+"experiment_parameters.py",V+"modeling_strategy_descriptor.py",S+"system_parameters.py",V+"m3_first_round_experimental_design.py",V+"sample_experimental_design.py",V+"single_publisher_design.py",V+"analysis_example_experimental_design.py"],
[("string conversions and copies","__str__ and update_from_dataset of the descriptors")],None,["names, adapted descriptions, instantiated strategies"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
NOTE={
"C10":"assumes numerical-fit tolerances (3% / 10% of the reach) measured on several hundred fits",
"C14":"mixture surface is only compared with the generating parameters because its fit is a local search",
}
TECH={i["id"]:"runtime monitor: reference-model oracle over recorded executions of the real code" for i in P}
TECH.update({
"C05":"runtime monitor: operation traces replayed against a reference file map",
"C06":"runtime monitor: statistical oracle over emitted impression streams",
"C09":"runtime monitor: trace oracle (bounds, monotonicity) over curve queries",
"C15":"runtime monitor: recorded sketch/noise boundary events checked against the logs",
"C16":"runtime monitor: inclusion-exclusion oracle over outputs and recorded noise events",
"C17":"runtime monitor: online conservation check, charged budget vs noise really added",
"C18":"runtime monitor: exact rational interval oracle over event histories",
"C19":"runtime monitor: recording models and privacy-event conservation",
"C22":"runtime monitor with fault injection: crash at file operations, torn writes, recovery oracle",
"C23":"runtime monitor: exactly-once and equality of rows over schedules and resumed histories",
})
mon={"C15","C16","C17","C19","C22","C23","C07","C08"}
checks=[]
for i in P:
    n="Explores randomly generated executions (bounded input sizes) of the real code and judges each with an independent oracle; a pass means no violation was observed on the executions listed in the evidence."
    if i["id"] in mon: n+=" External packages that are not installable offline are replaced by recording stand-ins under stubs/."
    if i["id"] in NOTE: n+=" It "+NOTE[i["id"]]+"."
    checks.append({"property":i["id"],"quick_cmd":"./run.sh "+i["id"],"thorough_cmd":"./run.sh "+i["id"]+" --tier thorough","technique":TECH[i["id"]],"level":"exploration","level_note":n})
json.dump({"version":1,"setup_cmd":"chmod +x run.sh && test -x /opt/venv39/bin/python","checks":checks,"not_applicable":[],"notes":"No hooks in /repo: monitors instrument from outside (recording stand-ins, wrapped file systems, recording models)."},open('/verif/MANIFEST.json','w'),indent=1)
