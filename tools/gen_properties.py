#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that anchors stay reviewable)."""
import json, os
M = 'include/distributions/models/'
ALLM = [M + x + '.hpp' for x in ('bb', 'bnb', 'dd', 'dpd', 'gp', 'nich', 'niw')]
DBG = ['distributions/dbg/models/%s.py' % x for x in ('bb', 'bnb', 'dd', 'dpd', 'gp', 'nich', 'niw')]
HP = ['distributions/hp/models/%s.pyx' % x for x in ('dd', 'gp', 'nich')]
LP = ['distributions/lp/models/%s.pyx' % x for x in ('_bb', '_bnb', '_dd', '_dpd', '_gp', '_nich', '_niw')]
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))


prop('P01', 'Group statistics depend only on the net multiset of observations',
     'For every component model (beta-Bernoulli, beta negative binomial, Dirichlet-discrete, Dirichlet-process-discrete, gamma-Poisson, normal inverse chi-squared, normal inverse Wishart) in every flavour that ships it (C++/lp, hp, dbg), after any sequence of adding a value, adding a value repeatedly, removing a previously added value and merging another group, the exported group statistics and every score computed from the group equal those of a fresh group that received the remaining observations in any order. '
     'Merging leaves the source group unchanged, and integer statistics are exact while real-valued ones agree to rounding. '
     'Where negative counts ("data debt") are supported (Dirichlet-discrete and Dirichlet-process-discrete groups) removals may precede the matching additions.',
     ['histories', 'inputs'],
     'all operation histories over all values, all hyperparameters, all seven models and three flavours',
     'The tests add one short fixed list of example values, remove it in one order and merge one pair of groups, and compare mostly the printed statistics; errors that need repeats on non-empty groups, merges of groups that are later scored, empty merges or interleavings of the four operations are never sampled.',
     ALLM + DBG + HP + LP + ['include/distributions/sparse.hpp'],
     [('Group', 'sufficient statistics of one component', M + '*.hpp'),
      ('SparseCounter::total_', 'cached sum of the sparse counts', 'include/distributions/sparse.hpp'),
      ('DirichletDiscrete::Group::count_sum', 'cached sum of the dense counts', M + 'dd.hpp')],
     [('add_value / add_repeated_value / remove_value / merge', M + '*.hpp'),
      ('numerically stable mean/variance updates', M + 'nich.hpp')],
     ['group dump / protobuf_dump', 'group score_value', 'group score_data', 'mixture score_value of the group'])

prop('P02', 'Predictive scores equal the normalised conjugate posterior predictive',
     'For every model, flavour, valid hyperparameters and group of observations, the score of a candidate value is the log density of the conjugate posterior predictive distribution, within the documented single-precision approximation error. '
     'For models over discrete values the exponentiated scores of all possible values (including the "other" value of the Dirichlet process model) sum to one. '
     'Scoring through a group, through a freshly initialised scorer, or through a one-group mixture gives the same answer, and leaves the group unchanged.',
     ['inputs'],
     'all hyperparameters (small, typical, large), all observation multisets, all candidate values, all seven models and three flavours',
     'Tests compare a handful of example hyperparameters with each other to loose tolerances and check normalisation by sampling; they never compare against an independent closed form over the parameter space.',
     ALLM + DBG + HP + ['include/distributions/random.hpp', 'include/distributions/special.hpp'],
     [('Shared', 'hyperparameters', M + '*.hpp'), ('Scorer', 'precomputed predictive coefficients', M + '*.hpp')],
     [('plus_group', M + '*.hpp'), ('Scorer::init / Scorer::eval', M + '*.hpp'),
      ('score_student_t / score_mv_student_t', 'include/distributions/random.hpp')],
     ['Group.score_value', 'Scorer.eval', 'Mixture.score_value_group'])

prop('P03', 'Data scores are the joint marginal likelihood (chain rule, order free)',
     'For every model and flavour, the data score of a group equals the sum of the predictive scores of its observations when they are added one at a time, whatever the order, and the empty group scores zero. '
     'It equals the closed-form log marginal likelihood of the observations given the hyperparameters within single-precision error. '
     'Mixing values that cannot have been added (bad category, unknown value) is refused rather than scored.',
     ['inputs', 'histories'],
     'all observation sequences and their permutations, all hyperparameters, all models and flavours',
     'One unit test checks the chain rule on the seven-odd example values in one order; the identity for other hyperparameters, larger data and other orders is an infinite family.',
     ALLM + DBG + HP, [('Group', 'sufficient statistics', M + '*.hpp')],
     [('Group::score_data', M + '*.hpp'), ('Group::score_value', M + '*.hpp')],
     ['Group.score_data', 'Group.score_value'])

prop('P04', 'Cached mixture value scores never go stale',
     'For every model with a mixture, after any history of initialising, adding and removing groups and values, the score that the mixture reports for any value in any group equals what that group alone reports, for the vector form, the single-group form and a mixture rebuilt from scratch from the same groups. '
     'The vector form adds its scores to the accumulator it is given and touches no other element, and removing a group moves the last group into its slot together with its cached scores.',
     ['histories', 'inputs'],
     'all histories of mixture operations (with any number of groups, including vector-width boundaries), all values, all hyperparameters',
     'Tests build one small mixture from examples and compare scores after a few dozen random operations at fixed tiny sizes; stale-cache faults need particular orders of group removal, value removal and re-initialisation.',
     ['include/distributions/mixture.hpp', 'src/models/nich.cc', 'src/models/gp.cc'] + ALLM[:6] + LP[:6],
     [('MixtureValueScorer', 'per-group cached scores', M + '*.hpp'),
      ('MixtureSlave', 'groups with their cached scores', 'include/distributions/mixture.hpp')],
     [('add_group / remove_group / add_value / remove_value / init', 'include/distributions/mixture.hpp'),
      ('score_value / score_value_group', M + '*.hpp')],
     ['Mixture.score_value', 'Mixture.score_value_group', 'Group.score_value of mixture.groups()[i]'])

prop('P05', 'Mixture data scores and hyperparameter grids equal the sum over groups',
     'For every model with a mixture, the mixture data score equals the sum of the data scores of its groups for any set of groups, including empty and merged ones. '
     'Scoring a grid of hyperparameters gives, at every grid point, the score obtained by evaluating that point alone, whatever the order, size or differences of the grid and whatever was scored before.',
     ['inputs', 'histories'],
     'all group collections, all hyperparameter grids (including repeated, single-coordinate and multi-coordinate steps), all histories of earlier scoring calls on the same mixture',
     'The tests score one example grid; the incremental grid evaluation keeps state between points and between calls that only particular step patterns expose.',
     ['include/distributions/mixture.hpp'] + ALLM[:6],
     [('MixtureDataScorer', 'incremental score parts of the Dirichlet-discrete grid', M + 'dd.hpp')],
     [('score_data / score_data_grid', M + '*.hpp')],
     ['Mixture.score_data', 'Mixture.score_data_grid', 'Group.score_data'])

prop('P06', 'Mixture driver bookkeeping conserves counts and empty groups',
     'After any history of adding and removing values (singly or several at once), a mixture driver reports exactly the group sizes, total sample size and set of empty groups implied by that history, keeps the number of empty groups it was initialised with, and reports group creation or deletion exactly when a previously empty group becomes occupied or an occupied group becomes empty. '
     'A deleted group is replaced by the last group so that ids stay contiguous. '
     'The clustering scores it then reports for every group equal the clustering model\'s own score for adding to a group of that size.',
     ['histories'],
     'all histories of add/remove over any number of initial groups and empty groups, for Pitman-Yor (cached and uncached) and low-entropy models',
     'The unit test for the driver performs one random walk with a single empty group and compares scores only; multi-empty-group swaps, bulk counts and removals of the last slot are histories a test list cannot exhaust.',
     ['include/distributions/mixture.hpp', 'include/distributions/clustering.hpp', 'distributions/lp/clustering.pyx'],
     [('MixtureDriver::counts_', 'group sizes', 'include/distributions/mixture.hpp'),
      ('MixtureDriver::empty_groupids_', 'ids of empty groups', 'include/distributions/mixture.hpp'),
      ('PitmanYor::CachedMixture::shifted_scores_', 'cached clustering scores', 'include/distributions/clustering.hpp')],
     [('add_value / remove_value', 'include/distributions/mixture.hpp'),
      ('_update_nonempty_group / _update_empty_groups', 'include/distributions/clustering.hpp')],
     ['Mixture.counts', 'Mixture.empty_groupids', 'Mixture.sample_size', 'Mixture.score_value', 'return values of add_value/remove_value'])

prop('P07', 'Group id tracking is a stable bijection',
     'After any history of group additions and removals, the id tracker maps the contiguous packed ids one-to-one onto the live global ids, and converting in either direction and back is the identity. '
     'The global id of a group never changes while the group lives and is never reused after it dies; packed ids follow the swap-with-last rule. '
     'Ids that are out of range or belong to removed groups are rejected with an error, leaving the mapping intact.',
     ['histories'],
     'all histories of initialisation, group addition and removal, and all queried ids',
     'A single random walk in the unit tests follows the documented use; reuse, re-initialisation, and stale-id queries after particular removal orders form an unbounded set of histories.',
     ['include/distributions/mixture.hpp', 'distributions/lp/mixture.pyx'],
     [('packed_to_global_ / global_to_packed_ / global_size_', 'two-way id map', 'include/distributions/mixture.hpp')],
     [('add_group / remove_group', 'include/distributions/mixture.hpp')],
     ['packed_to_global', 'global_to_packed', 'packed_size', 'global_size'])

prop('P08', 'Driver, slaves and id tracker stay aligned through MCMC inference',
     'When a clustering driver, any number of feature mixtures and an id tracker are driven by the documented add/remove protocol (as in the mixture example), then at every step the statistics of every group are those of exactly the data items assigned to that group\'s global id, and the sum of the data scores equals the score of that partition computed from scratch. '
     'Gibbs sampling with these primitives on a small data set visits partitions with frequencies proportional to the exact posterior.',
     ['histories', 'schedules'],
     'all MCMC histories over all clustering parameters, feature models, data sets and numbers of empty groups',
     'No unit test runs an inference loop end to end; the composition depends on several modules keeping the same packed order and on consistency between add scores, remove scores and marginal likelihoods.',
     ['include/distributions/mixture.hpp', 'include/distributions/clustering.hpp', 'src/clustering.cc', 'distributions/lp/mixture.pyx', 'distributions/lp/clustering.pyx', 'examples/mixture/main.py'],
     [('packed group order', 'shared between driver, slaves and tracker', 'include/distributions/mixture.hpp')],
     [('driver.add_value returning "group added"', 'include/distributions/mixture.hpp'),
      ('slave add_group/remove_group', 'include/distributions/mixture.hpp')],
     ['group statistics per global id', 'Mixture.score_data', 'visited partitions'])

prop('P09', 'Clustering priors are exchangeable, normalised and reversible',
     'The Pitman-Yor score of a set of group sizes equals the sum of the scores of adding the items one at a time in any order, ignores empty groups and group order, and the exponentiated scores over all partitions of n items sum to one; the scores for adding to all groups sum to one, split evenly over several empty groups. '
     'The low-entropy score of a full data set equals the entropy formula minus the exact log partition function for up to 47 items; scores of full and partial data sets are independent of group order and of empty groups, and its add score of an occupied group equals the entropy increment. '
     'The score of removing an item is the negation of the score of adding it back, for both models and both flavours.',
     ['inputs', 'histories'],
     'all partitions and addition orders, all model parameters (alpha, discount, dataset size), both flavours',
     'Tests compare two code paths on a few example parameters and sample sizes; exchangeability, reversal and normalisation quantify over all partitions.',
     ['include/distributions/clustering.hpp', 'src/clustering.cc', 'distributions/dbg/clustering.py', 'distributions/lp/clustering.pyx'],
     [('log_partition_function_table', 'exact log partition function', 'src/clustering.cc')],
     [('score_counts / score_add_value / score_remove_value', 'include/distributions/clustering.hpp')],
     ['score_counts', 'score_add_value', 'score_remove_value', 'log_partition_function'])

prop('P10', 'Sampled clusterings are well formed and follow the clustering prior',
     'A sampled assignment vector has exactly the requested length, labels groups contiguously from zero in order of first appearance, and counting it yields group sizes that sum to the length with no empty group. '
     'Over repeated draws each partition occurs with the probability implied by the model\'s sequential add scores, for Pitman-Yor and low-entropy models, in both flavours; malformed (non-contiguous) assignments are rejected when counted.',
     ['inputs', 'schedules'],
     'all sample sizes, all model parameters, all random streams',
     'The unit test draws at most a few hundred samples of one size and merges rare outcomes; bias in rare transitions or parameter-dependent bookkeeping slips through.',
     ['src/clustering.cc', 'include/distributions/clustering.hpp', 'distributions/dbg/clustering.py', 'distributions/lp/clustering.pyx'],
     [('likelihoods', 'running table weights during sampling', 'src/clustering.cc')],
     [('sample_assignments', 'src/clustering.cc'), ('count_assignments', 'src/clustering.cc')],
     ['sample_assignments', 'count_assignments'])

prop('P11', 'Discrete sampling and score normalisation are faithful',
     'Drawing an index from probabilities, likelihoods or log scores returns a valid index whose likelihood is positive, for every state of the random stream, and over many draws index frequencies match the normalised weights, independent of vector length and of any constant added to all scores. '
     'The reported probability of a sample, the normalised probabilities and the log-sum-exp all agree with the exact values and never overflow, even for widely spread or very large scores. '
     'Urn sampling returns elements of the urn uniformly, and pairs at distinct positions uniformly.',
     ['inputs', 'schedules'],
     'all weight vectors (lengths across vector widths, zero weights, extreme spreads), all random-stream states including the extreme uniform draws',
     'Tests draw a thousand samples for sizes below ten; the extremes of the uniform draw (zero and just below one) and rounding leftovers for long vectors are practically never sampled.',
     ['include/distributions/random.hpp', 'src/random.cc', 'distributions/lp/random.pyx', 'distributions/dbg/random.py', 'distributions/util.py', 'distributions/rng_cc.hpp'],
     [('rng_t', 'random stream', 'include/distributions/random_fwd.hpp')],
     [('sample_from_likelihoods / sample_discrete', 'include/distributions/random.hpp'),
      ('scores_to_likelihoods / log_sum_exp', 'src/random.cc')],
     ['sample_discrete', 'sample_from_likelihoods', 'sample_from_scores', 'sample_prob_from_scores_overwrite', 'score_from_scores_overwrite', 'log_sum_exp', 'sample_from_urn', 'sample_pair_from_urn'])

prop('P12', 'Continuous and count samplers follow their stated distributions',
     'Normal, chi-squared, gamma, beta, Poisson, negative binomial, Bernoulli, Dirichlet, multivariate normal, Wishart, inverse Wishart and normal-inverse-Wishart samplers draw from exactly the distribution their parameters name, in the C++/lp, hp and dbg flavours. '
     'Dirichlet and stick-breaking draws are non-negative and sum to one, zero concentrations give zero probability, and the "safe" Dirichlet and beta variants stay at or above the positive floor set by their minimum value (min/(1+min), min/(1+min*dim)) and never exceed one.',
     ['inputs', 'schedules'],
     'all valid parameters, all random streams',
     'Tests check one mean or variance for a few parameters to four standard deviations, and not at all for most samplers.',
     ['include/distributions/random.hpp', 'src/random.cc', 'distributions/rng_cc.hpp', 'distributions/hp/random.pyx', 'distributions/dbg/random.py', 'distributions/vendor/stats.py'],
     [('rng_t', 'random stream', 'include/distributions/random_fwd.hpp')],
     [('sample_*', 'include/distributions/random.hpp'), ('sample_*', 'distributions/dbg/random.py')],
     ['sampler outputs'])

prop('P13', 'Posterior sampling agrees with predictive scoring',
     'For every model and flavour, values drawn from a group (a fresh sampler per value) are distributed as the exponentiated predictive scores of that group, for any hyperparameters and any data already in the group. '
     'Values drawn repeatedly from one initialised sampler, and whole sampled groups, are exchangeable draws whose joint distribution is the marginal likelihood of an empty group, and sampled values always lie in the model\'s support.',
     ['inputs', 'schedules'],
     'all hyperparameters, all group contents, all random streams, seven models, three flavours',
     'The unit tests sample at most a thousand values from empty example groups for some models and skip others entirely.',
     ALLM + DBG + HP + LP + ['include/distributions/random.hpp'],
     [('Sampler', 'latent parameters drawn from the posterior', M + '*.hpp')],
     [('Sampler::init / eval', M + '*.hpp'), ('sample_value / sample_group', 'distributions/lp/models/_*.pyx')],
     ['Group.sample_value', 'Sampler.eval', 'sample_group'])

prop('P14', 'Special functions stay within their stated accuracy everywhere',
     'Fast log, exp, log-sum-exp, log-gamma, the Student-t gamma-ratio, log-beta, log-binomial, log-factorial, multivariate log-gamma and Student-t log densities agree with exact values within their approximation accuracy over the whole stated domain (fast exp: the representable range [-87, 88], saturating beyond it), with no jumps at internal table or range boundaries. '
     'Rows of log Stirling numbers of the first kind are exact to single precision below row 32 and have the exact endpoints and correct length for every row, with bounded error beyond, however the rows are requested.',
     ['inputs', 'histories'],
     'all float arguments in the domain (including every binade and table boundary), all row orders for the cached Stirling numbers',
     'Tests probe a few hundred arguments and several of those tests cannot run here; a corrupted coefficient affects a single binade that nothing samples.',
     ['include/distributions/special.hpp', 'src/special.cc', 'include/distributions/vendor/fmath.hpp', 'distributions/lp/special.pyx', 'distributions/hp/special.pyx', 'include/distributions/random.hpp', 'distributions/dbg/random.py'],
     [('lgamma_approx_coeff5 / lgamma_nu_func_approx_coeff3 / log_factorial_table', 'approximation tables', 'src/special.cc'),
      ('log_stirling1_cache', 'memoised rows', 'src/special.cc')],
     [('fast_log / fast_exp / fast_lgamma / fast_lgamma_nu', 'include/distributions/special.hpp'),
      ('get_log_stirling1_row', 'src/special.cc')],
     ['function results'])

prop('P15', 'Vector kernels equal their scalar definitions for every length',
     'Every vectorised kernel (fill, shift, scale, add, add-subtract, min, max, sum, dot, elementwise log, exp and log-gamma) gives, for every length (from zero, or from one for minimum and maximum), every supported alignment and every data pattern, the element-by-element result of the scalar definition. '
     'It reads and writes exactly the elements it is given and nothing before or after them.',
     ['inputs'],
     'all lengths around the SIMD widths, all alignments used by the library, all finite data',
     'Only one or two kernels are touched by tests, at sizes that are fixed by the examples; tail handling is length dependent.',
     ['include/distributions/vector_math.hpp', 'src/vector_math.cc', 'include/distributions/aligned_allocator.hpp', 'include/distributions/vector.hpp'],
     [('io buffers', 'float arrays', 'src/vector_math.cc')],
     [('vector_*', 'src/vector_math.cc')],
     ['output arrays', 'guard zones around the arrays'])

prop('P16', 'Serialisation round-trips and interchanges between flavours',
     'For every model and clustering, dumping hyperparameters or group statistics to a dictionary or to a protobuf message and loading them back (in the same flavour, in another flavour, or in the C++ library) reproduces an object with the same dump and the same scores, and loading replaces any previous contents completely; a dictionary dump shares nothing with the object it came from or is loaded into. '
     'Malformed messages (mismatched lengths, too many dimensions, non-positive weights, wrong matrix sizes) are rejected with an error.',
     ['inputs', 'histories'],
     'all valid hyperparameters and group statistics, all flavour pairs, all prior states of the loading object, all malformed field combinations',
     'Tests round-trip the example objects into fresh objects; loading over existing state, large and sparse states and cross-flavour exchange are not sampled.',
     ALLM + DBG + HP + ['distributions/lp/models/%s.pyx' % x for x in ('bb', 'bnb', 'dd', 'dpd', 'gp', 'nich', 'niw')] + ['distributions/lp/clustering.pyx', 'distributions/dbg/clustering.py', 'distributions/mixins.py', 'distributions/io/schema.proto', 'include/distributions/clustering.hpp'],
     [('protobuf messages', 'external representation', 'distributions/io/schema.proto')],
     [('load / dump / protobuf_load / protobuf_dump', 'all models'), ('to_protobuf / from_protobuf / from_dict / from_values', 'distributions/mixins.py')],
     ['dump', 'protobuf message bytes', 'scores after loading'])

prop('P17', 'Stream files return exactly the items written',
     'A sequence of items written to a JSON file, a JSON stream, a JSON co-stream or a record stream, plain or gzip- or bzip2-compressed, is read back as the same items in the same order, however many there are (including none), whatever strings, numbers and nesting they contain, and whichever of the compatible readers is used. '
     'Files with a foreign header are refused by the stream reader, and missing parent directories are created on write. A file that was cut short, as by a crash of its writer, gives its stream reader the first of the items written and then ends or is refused; it never gives an item that was not written.',
     ['inputs', 'histories', 'crash_points'],
     'all sequences of JSON-representable items, all record byte strings, all compressions, reader/writer pairs, all lengths at which a file may have been cut',
     'Tests write three small examples and (on this interpreter) most of those tests cannot run; embedded newlines, commas, brackets, unicode and empty or large records are not covered.',
     ['distributions/io/stream.py', 'distributions/fileutil.py'],
     [('file contents', 'newline-delimited JSON or length-prefixed records', 'distributions/io/stream.py')],
     [('json_stream_dump / json_stream_load / json_costream_dump', 'distributions/io/stream.py'),
      ('protobuf_stream_write / protobuf_stream_read', 'distributions/io/stream.py')],
     ['items read back'])

prop('P18', 'Dirichlet-process shared weights conserve unit mass',
     'Through any history of adding, removing and realising values in the shared Dirichlet-process state, every known value keeps a positive weight, the weights and the unallocated remainder are non-negative and sum to one (to rounding and the documented minimum-weight clamp), and reference counts equal the net additions. '
     'A value is known exactly while its count is positive; the weight of a known value never changes, a removed value returns its weight to the remainder, realising leaves no remainder, and each new value takes a Beta(1, gamma) share of the remainder.',
     ['histories', 'schedules'],
     'all histories of add/remove/realise, all concentration parameters, all random streams, C++/lp and dbg flavours',
     'Tests add each example value once; accumulation of clamping errors, re-adding removed values and repeated removal are long histories.',
     [M + 'dpd.hpp', 'distributions/dbg/models/dpd.py', 'distributions/lp/models/dpd.pyx', 'distributions/lp/models/_dpd.pyx'],
     [('betas / beta0 / counts', 'stick-breaking weights, remainder and reference counts', M + 'dpd.hpp')],
     [('Shared::add_value / remove_value / realize', M + 'dpd.hpp')],
     ['Shared dump', 'Shared.beta0', 'score of the OTHER value'])

prop('P19', 'Results are a function of inputs and seed only',
     'Repeating any sequence of operations with the same seed gives identical results, whatever else was computed before or in between with other objects or other random streams, and copies of a random stream or of a group evolve independently of the original. '
     'Scoring, dumping and bookkeeping operations do not advance the random stream or change later results, and seeding the Python flavours reproduces their draws.',
     ['histories', 'schedules'],
     'all operation sequences, all interleavings with unrelated work, all seeds',
     'Tests seed once per test and never compare two interleaved runs; hidden global or cached state only shows when unrelated work is interleaved.',
     ['include/distributions/random_fwd.hpp', 'include/distributions/random.hpp', 'src/random.cc', 'distributions/rng.py', 'distributions/rng_cc.pyx', 'distributions/global_rng.pyx', 'src/models/nich.cc', 'src/models/gp.cc', 'src/special.cc', M + 'dd.hpp'],
     [('global_rng', 'process-wide random stream', 'src/random.cc'), ('thread-local temporaries', 'reused scratch', 'src/models/nich.cc'), ('log_stirling1_cache', 'memo', 'src/special.cc')],
     [('rng_t passed by reference', 'include/distributions/random.hpp')],
     ['bitwise results', 'random stream state'])

prop('P20', 'Concurrent use is free of data races',
     'Threads that work on distinct groups, mixtures, samplers and random streams, and threads that concurrently read one shared mixture through its (documented thread-safe) scoring operations, never race and obtain exactly the results of a sequential run. '
     'Concurrent first-time requests for log Stirling rows are safe and return correct rows.',
     ['schedules'],
     'all interleavings of scoring, sampling and Stirling-row requests by several threads',
     'There is not a single multi-threaded unit test; a race needs a particular interleaving.',
     ['src/special.cc', 'src/models/nich.cc', 'src/models/gp.cc', 'include/distributions/mixture.hpp', 'include/distributions/special.hpp', 'src/random.cc'],
     [('log_stirling1_cache', 'shared memo under a mutex', 'src/special.cc'), ('temp_', 'thread-local scratch vector', 'src/models/nich.cc')],
     [('log_stirling1_mutex', 'src/special.cc'), ('static thread_local', 'src/models/gp.cc')],
     ['race reports', 'results per thread'])

prop('P21', 'No memory error, undefined behaviour or silent acceptance of bad arguments',
     'No valid use of any model, mixture, clustering, sampler, special function or container reads or writes outside its objects, reads uninitialised memory, leaks, or executes undefined behaviour. '
     'Arguments outside the documented range (categories outside the dimension, unknown or reserved values, bad group ids, removing from an empty group of a mixture driver, empty weight vectors, oversized dimensions) are rejected with an error in checked builds, leaving the object usable and, for refused values and group ids, unchanged.',
     ['inputs', 'histories'],
     'all operation histories, all argument values including invalid ones, checked builds of the C++ library and its Python wrappers',
     'The tests run without sanitizers and never pass invalid arguments.',
     ['include/distributions/common.hpp', 'include/distributions/sparse.hpp', 'include/distributions/vector.hpp', 'include/distributions/mixture.hpp', 'src/vector_math.cc', 'src/special.cc', 'src/random.cc', 'src/clustering.cc'] + ALLM + LP + HP,
     [('fixed-size arrays', 'dense category statistics', M + 'dd.hpp')],
     [('DIST_ASSERT*', 'include/distributions/common.hpp')],
     ['sanitizer reports', 'exceptions', 'object state after a rejected call'])

prop('P22', 'All flavours of a model give the same answers',
     'Given the same hyperparameters and the same history of additions, removals and merges, the pure-Python, high-precision and low-precision flavours of each model report the same statistics, predictive scores and data scores (within single-precision error), accept and reject the same values, and export the same interface; the same holds for the low-entropy clustering and the Student-t scores.',
     ['inputs', 'histories', 'configurations'],
     'all hyperparameters, all histories, all flavour pairs',
     'The flavour test compares only the values of the fixed examples.',
     DBG + HP + LP + ['distributions/dbg/clustering.py', 'distributions/lp/clustering.pyx', 'distributions/dbg/random.py', 'distributions/lp/random.pyx'],
     [('Group / Shared', 'state of each flavour', 'distributions/*/models')],
     [('per-flavour implementations', 'distributions/dbg, distributions/hp, distributions/lp')],
     ['dump', 'score_value', 'score_data', 'score_counts'])

prop('P23', 'Sparse maps, sparse counters, packed and aligned vectors keep their contracts',
     'A sparse counter behaves as a map from keys to non-zero signed counts whose total always equals the sum of the counts, through any history of adding, removing, initialising, merging, renaming and clearing, and a sparse map behaves as a map that refuses duplicate insertion and missing lookup. '
     'A packed vector removes an element by moving the last one into its place and changes nothing else, and aligned vectors keep their data aligned and equal through growth, copy and assignment.',
     ['histories'],
     'all operation histories over all keys and values',
     'The containers have no direct unit tests at all.',
     ['include/distributions/sparse.hpp', 'include/distributions/vector.hpp', 'include/distributions/aligned_allocator.hpp', 'include/distributions/trivial_hash.hpp'],
     [('map_ / total_', 'contents and cached total', 'include/distributions/sparse.hpp')],
     [('add / remove / merge / rename / init_count', 'include/distributions/sparse.hpp'),
      ('packed_add / packed_remove', 'include/distributions/vector.hpp')],
     ['get_count', 'get_total', 'iteration', 'size', 'data() address'])

prop('P24', 'Statistical test utilities are calibrated and conserve samples',
     'The goodness-of-fit utilities return p-values that are (approximately) uniform when the samples follow the stated probabilities or densities and near zero when they clearly do not, for multinomial, discrete (truncated or not), uniform and density forms. '
     'Binning and histograms conserve the number of samples, bins are ordered and cover the samples, and converting scores to probabilities yields the softmax.',
     ['inputs', 'schedules'],
     'all probability vectors, densities, sample sizes within the stated accuracy limits, all sample streams',
     'The unit tests check a single call each; calibration is a property of the distribution over all streams.',
     ['distributions/util.py'],
     [('counts / bins', 'aggregated samples', 'distributions/util.py')],
     [('multinomial_goodness_of_fit / discrete_goodness_of_fit / density_goodness_of_fit / unif01_goodness_of_fit / bin_samples / histogram', 'distributions/util.py')],
     ['p-values', 'counts', 'bin ranges', 'probabilities'])

prop('P25', 'Closeness and equality of messages tolerate rounding and see differences',
     'Comparing floats, doubles, vectors, pairs or the protobuf messages of any model for closeness is symmetric, accepts every value that differs from itself only within the stated tolerance (0.1 times one plus the magnitudes) and, for Dirichlet-process messages, only in the order of their entries, and rejects every value that differs by more, in size, or in any count or key. '
     'Exact equality of messages and repeated fields holds exactly when all their contents are equal.',
     ['inputs'],
     'all numbers, vectors and messages; all fields and permutations',
     'The comparison helpers are only used with equal arguments, so nothing tests what they accept or reject.',
     ['include/distributions/assert_close.hpp', 'include/distributions/io/protobuf.hpp'],
     [('message fields', 'what a comparison must cover', 'distributions/io/schema.proto')],
     [('are_close', 'include/distributions/assert_close.hpp'), ('are_close / operator==', 'include/distributions/io/protobuf.hpp')],
     ['are_close(x, y)', 'x == y'])

prop('P26', 'Directory helpers restore the working directory and clean up',
     'Entering chdir or tempdir makes the given or a fresh empty directory current, and leaving it, normally or by any exception, at any nesting and wherever the body has moved, restores the directory that was current before and lets the exception through unchanged. '
     'A temporary directory is removed with all its contents, except that it is kept when the body raised and cleanup on error was declined; nothing else is ever removed.',
     ['histories', 'fault_sequences'],
     'all nestings of chdir and tempdir, all bodies and exceptions',
     'The helpers have no tests.',
     ['distributions/fileutil.py'],
     [('oldwd', 'directory to return to', 'distributions/fileutil.py')],
     [('chdir / tempdir', 'distributions/fileutil.py')],
     ['os.getcwd()', 'directory tree', 'exception that comes out'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
