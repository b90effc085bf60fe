"""Writes properties.jsonl (the source text of every property)."""
import json, os
R = 'python/dp_accounting/dp_accounting/'
L = 'learning/clustering/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
  a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
  if observe:
    a['observe_at'] = observe
  if state:
    a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
  a['hook_needed'] = None
  P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
            'quantifier': {'over': over, 'text': ' '.join(text.split())},
            'why_tests_cant': ' '.join(why.split()), 'anchors': a})


# ---------------------------------------------------------------- events
p('E01', 'Event descriptions survive conversion to plain tuples and back',
  '''Converting any description of a private mechanism, of whatever nesting, to its dependency-free
  tuple form and back yields an equal description of the same type, with all its parameters (including the
  concrete types of lists, tuples and mappings inside it) unchanged and the original, which is immutable, untouched; the tuple form
  itself names every nested description and holds no live description objects.''',
  ['inputs'], 'all event types, all trees of bounded depth and width over them, all small parameter values',
  'The unit test converts a dozen hand-written events; nesting shapes and field types form an unbounded tree language.',
  [R + 'dp_event.py'],
  [('recursive conversion of nested events, sequences, mappings', R + 'dp_event.py: DpEvent.to_named_tuple, from_named_tuple')])

p('E02', 'A recorded history of mechanisms is never lost, reordered, or changed',
  '''Whatever sequence of record and read operations is performed on a recorder of private mechanisms, each read
  returns a description whose full expansion is exactly the sequence of mechanisms recorded so far with their
  multiplicities (no-ops dropped), a description returned earlier never changes afterwards, and a rejected
  operation (wrong type, non-integer or non-positive count) leaves the record as it was.''',
  ['histories'], 'all interleavings of compose and build calls over an event alphabet, up to a depth',
  'Tests run six short scripts; caching between build and compose matters only for particular interleavings.',
  [R + 'dp_event_builder.py'],
  [('run-length list of (event, count)', R + 'dp_event_builder.py: DpEventBuilder.compose'),
   ('cached built event and its invalidation', R + 'dp_event_builder.py: DpEventBuilder.build')],
  state=[('_event_counts', 'recorded (event, count) pairs', R + 'dp_event_builder.py'),
         ('_composed_event', 'cache of the last build', R + 'dp_event_builder.py')])

# ---------------------------------------------------------------- accountants
p('A01', 'The accounted loss depends only on which mechanisms were run',
  '''For each privacy accountant, two histories that run the same mechanisms the same number of times give the
  same epsilon and delta, however the runs are ordered, nested in compositions or repetitions, given as a count
  or as repeated calls, or interleaved with queries and no-ops (up to rounding for the numeric
  representations used).''',
  ['histories', 'configurations'],
  'all histories up to a depth over every supported event, every grouping of them, all neighbouring relations, both accountants',
  'Tests compare a few hand-picked pairs of histories; grouping, counts and order multiply.',
  [R + 'pld/pld_privacy_accountant.py', R + 'rdp/rdp_privacy_accountant.py', R + 'privacy_accountant.py'],
  [('count threaded through nested composition', R + 'pld/pld_privacy_accountant.py: PLDAccountant._maybe_compose'),
   ('additive accumulation per order', R + 'rdp/rdp_privacy_accountant.py: RdpAccountant._maybe_compose')])

p('A02', 'An accountant refuses what it cannot account for, whole and in advance',
  '''Asking an accountant whether it supports an event never raises and never changes anything; if it answers
  no, composing the event raises the unsupported-event error and changes neither the accounted loss nor the
  ledger, even when the unsupported part is deep inside an event whose other parts are supported; if it answers
  yes, composing the event with valid parameters succeeds.''',
  ['inputs', 'histories', 'configurations'],
  'all event trees of bounded depth over supported and unsupported leaves, all neighbouring relations, after every short prefix of composed events',
  'Tests put one unsupported event at one position; position in a tree times relation times prior state is combinatorial.',
  [R + 'privacy_accountant.py', R + 'pld/pld_privacy_accountant.py', R + 'rdp/rdp_privacy_accountant.py'],
  [('dry run before composing', R + 'privacy_accountant.py: PrivacyAccountant.compose, supports'),
   ('same traversal in dry and real mode', R + 'rdp/rdp_privacy_accountant.py: RdpAccountant._maybe_compose')])

p('A03', 'A failed composition never erases loss that was already accounted',
  '''When composing an event raises any error part way (bad parameter values, an arithmetic failure, an
  interruption), every loss accounted before the call is still fully counted afterwards: the reported
  epsilon and delta are never below what they were before the call, and the accountant stays usable.''',
  ['fault_sequences', 'histories'],
  'every event with every nested call failing at each point at which it can fail, after every short prefix of events',
  'Tests never query an accountant after a failed composition and never inject failures.',
  [R + 'rdp/rdp_privacy_accountant.py', R + 'pld/pld_privacy_accountant.py', R + 'privacy_accountant.py'],
  [('save and restore around nested accounting', R + 'rdp/rdp_privacy_accountant.py: RdpAccountant._maybe_compose, RepeatAndSelectDpEvent branch')],
  state=[('_rdp', 'accumulated Renyi losses', R + 'rdp/rdp_privacy_accountant.py')])

p('A04', 'Accounted loss only grows, and non-private steps are absorbing',
  '''For every history, adding any mechanism never lowers the accountant's epsilon at any delta or its delta at
  any epsilon, running nothing costs zero, and once a non-private step (or one with zero noise) has been composed epsilon is infinite and delta is one
  forever after. Epsilon is non-increasing in delta and delta non-increasing in epsilon, the two queries
  are consistent with each other, and more noise, a smaller sampling rate or fewer repetitions never increase the loss.''',
  ['histories', 'inputs'],
  'all histories up to a depth over the event alphabet with every query between steps; parameter ladders per mechanism',
  'Monotonicity is a statement about pairs of runs; tests check single values.',
  [R + 'pld/pld_privacy_accountant.py', R + 'rdp/rdp_privacy_accountant.py'],
  [('sticky non-private flag', R + 'pld/pld_privacy_accountant.py: _contains_non_dp_event'),
   ('infinite Renyi loss', R + 'rdp/rdp_privacy_accountant.py'),
   ('conversion to epsilon and delta', R + 'rdp/rdp_privacy_accountant.py: compute_epsilon, compute_delta')])

p('A05', 'Renyi accounting never under-reports the true privacy loss',
  '''For every supported composition of mechanisms and every neighbouring relation, the epsilon (delta) that the
  Renyi accountant reports at a given delta (epsilon) is at least the true one, i.e. the exact hockey-stick
  divergence between the joint outputs on worst-case neighbouring datasets; this holds for whatever set of
  orders the accountant was created with, and for the standalone Renyi-to-epsilon and Renyi-to-delta conversions.''',
  ['inputs', 'histories', 'configurations'],
  'all multisets of mechanisms up to a size over parameter grids, all relations, all subsets of an order menu, grids of epsilon and delta',
  'Tests pin a few dozen numbers that the same formulas produced; none compares with the true divergence.',
  [R + 'rdp/rdp_privacy_accountant.py'],
  [('Renyi to (epsilon, delta) conversion', R + 'rdp/rdp_privacy_accountant.py: compute_epsilon, compute_delta'),
   ('per-mechanism Renyi curves', R + 'rdp/rdp_privacy_accountant.py')])

p('A06', 'PLD accounting never under-reports the true privacy loss and is tight',
  '''For every supported composition of mechanisms and every neighbouring relation, the epsilon (delta) that the
  privacy-loss-distribution accountant reports is at least the true one and exceeds it by no more than the
  error its discretization interval allows per composed mechanism.''',
  ['inputs', 'histories', 'configurations'],
  'all multisets of mechanisms up to a size over parameter grids, all relations, several discretization intervals, grids of epsilon and delta',
  'Tests pin values for a few compositions; compositions of asymmetric, sampled and discrete mechanisms are not compared with truth.',
  [R + 'pld/pld_privacy_accountant.py', R + 'pld/privacy_loss_distribution.py'],
  [('event to PLD translation', R + 'pld/pld_privacy_accountant.py: PLDAccountant._maybe_compose')])

p('A07', 'Renyi losses per order are valid upper bounds, exact where a formula exists',
  '''At every order, the Renyi loss accounted for a mechanism is at least the exact Renyi divergence between its
  output distributions on worst-case neighbouring inputs, and equals it (to rounding) for Gaussian, Laplace,
  randomized response and tree aggregation and, at integer orders, for Poisson-sampled Gaussian mechanisms; for
  sampling without replacement, fractional orders of Poisson sampling
  and repeat-and-select it is an upper bound for every shape of batch, tree and repetition
  distribution.''',
  ['inputs', 'configurations'],
  'parameter grids times order grids per mechanism; all step counts of small trees; all small (dataset, batch) sizes; all repetition shapes',
  'Tests sample isolated parameter points, several of them self-generated constants.',
  [R + 'rdp/rdp_privacy_accountant.py'],
  [('closed forms and series', R + 'rdp/rdp_privacy_accountant.py: _compute_rdp_*, _laplace_rdp, _randomized_response_rdp_*')])

p('A08', "An accountant's ledger lists exactly what it has accounted",
  '''After any history of successful and refused compositions, the ledger expands to exactly the composed
  mechanisms with their multiplicities in order, and replaying the ledger on a fresh accountant of the same
  kind reproduces the same epsilon and delta; reading it changes nothing, and ledgers returned earlier do not change.''',
  ['histories'], 'all histories up to a depth over events, counts, refused events and ledger reads, both accountants, all relations',
  'Tests look at the ledger after one or two calls.',
  [R + 'privacy_accountant.py', R + 'dp_event_builder.py'],
  [('ledger recording in compose', R + 'privacy_accountant.py: PrivacyAccountant.compose, ledger')])

# ---------------------------------------------------------------- PLD library
p('L01', 'Composed loss distributions bracket the exact loss of finite mechanisms',
  '''For any pair of finite output distributions, and any composition of such pairs built by pairwise or repeated
  composition with any allowed tail truncation, the pessimistic privacy loss distribution gives a delta at least
  the exact hockey-stick divergence at every epsilon (negative ones too), the optimistic one at most that (up to
  the truncated mass), and both within the discretization error.''',
  ['inputs', 'histories', 'configurations'],
  'all pairs of distributions with probabilities on a coarse grid over 2 to 3 outcomes (zeros included), all composition trees up to a size, truncation bounds from 0 to large',
  'Tests compare a few pairs at a few epsilons with constants.',
  [R + 'pld/privacy_loss_distribution.py', R + 'pld/pld_pmf.py', R + 'pld/common.py'],
  [('rounding to the grid', R + 'pld/privacy_loss_distribution.py: from_two_probability_mass_functions'),
   ('convolution and tail truncation', R + 'pld/pld_pmf.py: compose, self_compose, _truncate_tails')])

p('L02', 'Loss distributions obey the algebra of composition',
  '''Composition of privacy loss distributions is commutative and associative with the lossless distribution as
  identity, repeating n times equals composing n copies, the sparse and dense representations give the same
  answers, composing never modifies its operands, and operands with different discretization intervals or
  estimate kinds are rejected.''',
  ['histories', 'inputs'],
  'all expression trees up to a size over a menu of loss distributions (symmetric, asymmetric, with infinite loss, sparse, dense)',
  'Tests check single compositions; algebraic laws quantify over expressions.',
  [R + 'pld/pld_pmf.py', R + 'pld/privacy_loss_distribution.py'],
  [('sparse and dense PMFs', R + 'pld/pld_pmf.py: SparsePLDPmf, DensePLDPmf, compose_pmfs')])

p('L03', 'Queries on a loss distribution agree with each other',
  '''For every privacy loss distribution, the epsilon returned for a delta is the smallest non-negative epsilon
  whose delta does not exceed it (infinite exactly when none exists), delta is non-increasing and convex-consistent
  in epsilon with values in [0, 1], a query for many epsilons returns what single queries return, and querying the
  composition of two distributions without building it returns what the built composition returns.''',
  ['inputs'], 'a menu of loss distributions (including infinite mass, very large, very small and negative losses, empty tails) times dense grids of epsilon and delta including extremes',
  'Tests check isolated (epsilon, delta) points with moderate losses.',
  [R + 'pld/pld_pmf.py', R + 'pld/privacy_loss_distribution.py'],
  [('scalar, vector and composed queries', R + 'pld/pld_pmf.py: _get_delta_for_epsilon*, _get_epsilon_for_delta, get_delta_for_epsilon_for_composed_pld')])

p('L04', 'Loss distributions of noise mechanisms bracket the exact loss',
  '''For Laplace, Gaussian, discrete Laplace, discrete Gaussian, mixture-of-Gaussians and randomized response
  mechanisms, with and without subsampling, with either discretization method, any sensitivity and any interval,
  the pessimistic distribution gives delta at least the exact hockey-stick divergence in both directions
  (adding and removing a record), the optimistic one at most that, and both are within the discretization error;
  an (epsilon, delta) guarantee turned into a distribution gives back at least that guarantee and no more than rounding.''',
  ['inputs', 'configurations'],
  'full product of mechanism, parameter grid, sensitivity, sampling probability, method, estimate kind, interval; epsilon grid including negatives',
  'Tests check a handful of points per mechanism; the product of options is what goes wrong.',
  [R + 'pld/privacy_loss_distribution.py', R + 'pld/privacy_loss_mechanism.py', R + 'pld/pld_pmf.py'],
  [('privacy buckets and connect-the-dots', R + 'pld/privacy_loss_distribution.py: _create_pld_pmf_from_monotone_privacy_loss'),
   ('tails and truncation', R + 'pld/privacy_loss_mechanism.py: privacy_loss_tail, connect_dots_bounds')])

p('L05', 'Mechanism loss functions match the definition of privacy loss',
  '''For every additive-noise mechanism, adjacency direction, sensitivity and sampling rate, the loss reported at an
  outcome is the log ratio of the two output densities, the inverse returns the largest outcome with at least the
  given loss (within rounding), the distribution function is that of the actual output, the hockey-stick divergence
  equals the exact one, and reported truncation tails carry no more mass than the stated bound.''',
  ['inputs', 'configurations'],
  'full product of mechanism, parameters, adjacency, sampling, over dense outcome and loss grids including boundaries',
  'Tests give a few table rows per mechanism.',
  [R + 'pld/privacy_loss_mechanism.py'],
  [('privacy_loss, inverse_privacy_loss, mu_upper_cdf, get_delta_for_epsilon', R + 'pld/privacy_loss_mechanism.py')])

p('L06', 'Numeric building blocks of loss composition are exact within their bounds',
  '''Converting between sparse and dense forms loses nothing but truncated mass, convolution and repeated
  convolution equal the direct sum over all index combinations, the truncation bounds for repeated convolution leave
  outside them at most the stated mass, and pessimistic connect-the-dots distributions reproduce or exceed the given
  deltas at every given epsilon and never go below the convex interpolation between them.''',
  ['inputs'], 'all small mass lists over a probability grid, all repetition counts up to a bound, all truncation bounds of a menu, all non-increasing delta ladders on a grid',
  'Tests convolve a few short lists.',
  [R + 'pld/common.py', R + 'pld/pld_pmf.py'],
  [('FFT convolution with Chernoff truncation', R + 'pld/common.py: self_convolve, compute_self_convolve_bounds'),
   ('connect the dots', R + 'pld/pld_pmf.py: create_pmf_pessimistic_connect_dots*')])

p('L07', 'Options left out mean the safe documented value, in every spelling of a call',
  '''Every way of writing the same request to a loss-distribution constructor, noise helper, accountant or calibration gives
  the same loss: an option left out means its documented conservative default (unit sensitivity, one query, no
  amplification by subsampling, pessimistic rounding, negligible truncation, add-or-remove-one neighbours), options
  given by position or by name mean the same, and the class-level constructors kept for old callers agree with the
  module-level ones.''',
  ['inputs', 'configurations'],
  'every assignment of the options of every public constructor to the default or another value, every subset of the defaulted ones left out, every number given by position, both spellings',
  'Tests name the options they set; the value taken by the others and the forwarding of each through the old spellings multiply.',
  [R + 'pld/privacy_loss_distribution.py', R + 'pld/accountant.py', R + 'pld/pld_privacy_accountant.py', R + 'rdp/rdp_privacy_accountant.py', R + 'mechanism_calibration.py'],
  [('deprecated class-level constructors forwarding by position', R + 'pld/privacy_loss_distribution.py: PrivacyLossDistribution.from_* and identity'),
   ('default arguments', R + 'pld/privacy_loss_distribution.py, pld/accountant.py, mechanism_calibration.py')])

# ---------------------------------------------------------------- calibration
p('K01', 'A calibrated parameter meets the budget and is optimal within tolerance',
  '''When calibration of a mechanism parameter returns, the mechanism built from the returned value spends at most
  the target epsilon at the target delta and the value lies within the tolerance of the boundary between values
  that do and do not meet the target, for increasing and decreasing, continuous and discrete (integer result) and stepwise
  losses and for either way of giving the bracket; when no such value exists in reach it raises the
  documented error instead.''',
  ['inputs', 'histories'],
  'all monotone step losses over small grids, jump positions, brackets, tolerances, directions, discrete or not, infinite and zero-touching losses',
  'Tests calibrate a few smooth functions; the fallback paths depend on how the root finder lands around jumps.',
  [R + 'mechanism_calibration.py'],
  [('root search and correction by tolerance', R + 'mechanism_calibration.py: calibrate_dp_mechanism'),
   ('fallback bisection', R + 'mechanism_calibration.py: _bisect'),
   ('bracket expansion', R + 'mechanism_calibration.py: _search_for_explicit_bracket_interval')])

p('K02', 'Numeric inversion of a monotone function returns a valid, tight answer',
  '''Inverting a monotone function returns a point whose value does not exceed the target and which is within the
  tolerance of the extreme such point of the range (for integer searches exactly that integer, or one beside it when it is
  the far end of the range), for increasing and decreasing
  functions with or without an initial guess, and returns nothing exactly when no such point exists in the range.''',
  ['inputs'], 'all monotone step functions on small integer grids, all targets, all bounds, all initial guesses, both directions, discrete and continuous',
  'Tests invert a few smooth functions.',
  [R + 'pld/common.py'], [('doubling and bisection', R + 'pld/common.py: inverse_monotone_function')])

p('K03', 'Noise and budget helpers return safe and near-minimal values',
  '''The smallest-noise helpers for Laplace, Gaussian, discrete Laplace and discrete Gaussian noise return a noise level for which the
  exact loss of the requested number of releases stays within the requested guarantee and noticeably smaller noise
  does not, and the budget given by advanced composition is never below the exact loss of the composed
  (epsilon, delta) mechanisms, equal to the best possible, and its inverse respects the total budget.''',
  ['inputs', 'configurations'],
  'parameter grids over epsilon, delta, number of queries, sensitivity for each helper',
  'Tests compare a few points with constants.',
  [R + 'pld/accountant.py'],
  [('inversion of the loss in the noise parameter', R + 'pld/accountant.py: get_smallest_*'),
   ('advanced composition', R + 'pld/accountant.py: advanced_composition*')])

# ---------------------------------------------------------------- clustering
p('C01', 'The clustering tree is a faithful partition shaped only by noisy counts',
  '''For every dataset and every outcome of the noise, the points of a node are split among its children without
  loss or duplication, exactly according to the sign of the projection for that level; a node is expanded only if its noisy
  count reaches the branching threshold and the depth limit allows, a child is kept only if its noisy count reaches
  the node threshold, and the leaves reported are exactly the kept nodes without kept children.''',
  ['inputs', 'fault_sequences'],
  'all assignments of noisy counts from a small menu to every count query, times small datasets, thresholds and depths',
  'Tests build a few trees with fixed counts.',
  [L + 'lsh_tree.py', L + 'lsh.py'],
  [('tree growth and filtering', L + 'lsh_tree.py: LshTree, LshTreeNode'), ('hashing', L + 'lsh.py: SimHash.group_by_next_hash')])

p('C02', 'Private clustering draws no more noise-protected releases than it pays for',
  '''During one clustering run on any data and any noise outcome, each data point takes part in at most (maximum tree depth + 1) count
  releases and one sum release, every released count and sum carries a fresh draw of the calibrated noise, and the centers depend on the
  data only through those releases.''',
  ['inputs', 'fault_sequences'],
  'all noise outcomes from a small menu at every draw, times small datasets and parameter settings, with and without a given tree parameter',
  'Tests use the real generator or no noise at all; they cannot see how many releases a point enters.',
  [L + 'clustering_algorithm.py', L + 'lsh_tree.py', L + 'central_privacy_utils.py', L + 'default_clustering_params.py'],
  [('cached private count and average', L + 'lsh_tree.py: get_private_count, get_private_average'),
   ('reuse of the root count', L + 'clustering_algorithm.py: private_lsh_clustering')])

p('C03', 'Clustering noise meets the requested budget; over-spending is refused',
  '''For every requested epsilon, delta, radius, depth and noise multipliers, the chosen noise levels make the
  accounted loss of (one sum and depth + 1 counts) at most the request, spend nearly all of it, scale with the radius, and keep
  the requested ratio between the two kinds of noise; the accounting validation accepts exactly the noise levels whose accounted loss is within
  the request, and only an unlimited request switches noise off.''',
  ['inputs', 'configurations'],
  'grid of epsilon, delta, radius, depth, multipliers; for validation a ladder of noise levels on both sides of the boundary',
  'Tests calibrate two settings.',
  [L + 'privacy_calculator.py', L + 'clustering_params.py'],
  [('calibration', L + 'privacy_calculator.py: PrivacyCalculator'), ('validation', L + 'privacy_calculator.py: validate_accounting')])

p('C04', 'Points outside the radius cannot influence clustering beyond the radius',
  '''Clipping returns, for any set of points including the empty one, points of norm at most the radius, leaves points already within
  it unchanged, keeps the direction of the others and puts them on the sphere, and does not modify its input; private clustering
  sums only clipped points, and the released coreset lies within the radius.''',
  ['inputs'], 'all small point sets over a coordinate grid (zero, boundary, huge, tiny), radii, dimensions, empty input',
  'Tests clip two small arrays.',
  [L + 'clustering_params.py', L + 'clustering_algorithm.py'],
  [('clipping', L + 'clustering_params.py: Data.clip_by_radius')])

p('C05', 'Cluster labels, loss and quality metrics equal their definitions',
  '''For any data, centers and true labels, each point is labelled with a nearest center, the loss is the sum of squared
  distances to nearest centers, inconsistent inputs are rejected, and accuracy, true non-match and false match counts and fractions
  equal direct enumeration over points and pairs.''',
  ['inputs'], 'all small label assignments and point/center placements on a grid',
  'Tests use three examples.',
  [L + 'clustering_algorithm.py'],
  [('labelling', L + 'clustering_algorithm.py: ClusteringResult'), ('metrics', L + 'clustering_algorithm.py: ClusteringMetrics')])

p('C06', 'Default tree parameters are valid for every noisy count',
  '''For every noisy count the mechanism can produce (negative and zero included), every number of clusters, dimension
  and noise level, the default tree parameters satisfy their documented constraints (node threshold at least one, never more than what the noisy count per cluster or the noise level suggests,
  branching threshold three times it), and the noisy count returned is the one they were derived from, drawn once.''',
  ['inputs', 'fault_sequences'],
  'all counts from a range around zero and large, times k, dimension, noise levels',
  'Tests use positive counts.',
  [L + 'default_clustering_params.py', L + 'clustering_params.py'],
  [('thresholds', L + 'default_clustering_params.py: default_tree_param')])

p('C07', 'The loss accounted for noisy counts covers the noise that is really drawn',
  '''For every noise level, the privacy loss that clustering accounts for its noisy counts is at least the exact loss of releasing
  those counts with the noise distribution actually used, at every epsilon and for every number of releases.''',
  ['inputs', 'configurations'],
  'grid of noise levels, depths, epsilons',
  'Tests check the event built and the sampler called separately; none compares the two distributions.',
  [L + 'privacy_calculator.py', L + 'central_privacy_utils.py'],
  [('accounting event for counts', L + 'privacy_calculator.py: make_clustering_event'),
   ('count noise', L + 'central_privacy_utils.py: get_private_count')])

# ---------------------------------------------------------------- Go
G = 'go/'
p('G01', 'Go aggregations count each contribution once, release once, refuse misuse',
  """Whatever sequence of adding, merging, serializing, deserializing and asking for results is performed on the Go aggregation objects (count,
  sums, mean, variance, standard deviation, quantiles, partition selection), a result reflects exactly the clamped contributions added to or merged into that object (not-a-number
  skipped), as if they had been added to one object in any order; an object that has been released, merged into another or serialized refuses further additions, merges
  and results; objects with different parameters refuse to merge; and a deserialized object behaves as the original.""",
  ['histories'], 'all operation sequences up to a depth over two objects, an incompatible one and a deserialized one',
  'Tests follow a few fixed scripts per aggregation; states multiply with the order of operations.',
  [G + 'dpagg/count.go', G + 'dpagg/sum.go', G + 'dpagg/mean.go', G + 'dpagg/variance.go', G + 'dpagg/quantiles.go', G + 'dpagg/select_partition.go'],
  [('aggregation state machine', G + 'dpagg/aggregation_state.go'), ('merging and coding', G + 'dpagg/*.go: Merge, GobEncode, GobDecode')])

p('G02', 'Go aggregations: one user never moves a noised value beyond its sensitivity',
  """For any dataset and any contributions of one more user within the declared bounds (values outside the bounds, infinite or not-a-number
  included), every value the Go aggregations hand to the noise changes by at most the sensitivity the noise is asked to hide, the privacy budgets of all
  parts of an aggregation add up to at most the one requested, noise parameters never depend on data, and parameters for which no guarantee can hold are refused.""",
  ['inputs', 'configurations'], 'all small datasets and user contributions over a menu of values, bounds, partitions and contributions per user; all single bad parameters',
  'Tests compare a handful of noiseless results; sensitivity is a statement about every pair of neighbouring datasets.',
  [G + 'dpagg/count.go', G + 'dpagg/sum.go', G + 'dpagg/mean.go', G + 'dpagg/variance.go', G + 'dpagg/standard_deviation.go', G + 'dpagg/quantiles.go', G + 'checks/checks.go'],
  [('clamping and sensitivity', G + 'dpagg/sum.go, mean.go, variance.go'), ('budget split', G + 'dpagg/mean.go, variance.go'), ('validation', G + 'checks/checks.go')])

p('G03', 'Go partition selection keeps rare partitions within epsilon and delta',
  """For every epsilon, delta, number of partitions per user and pre-threshold, the probability that the Go partition selection keeps a partition of n users
  satisfies the differential privacy inequalities against n - 1 users in both directions, is zero for partitions below the pre-threshold, never decreases with n,
  is (nearly) the largest possible, and the announced number of users from which partitions are always kept is right.""",
  ['inputs', 'configurations'], 'grid of parameters, every number of users until partitions are always kept',
  'Tests check a few probabilities with a statistical tolerance.',
  [G + 'dpagg/select_partition.go'],
  [('keep probability', G + 'dpagg/select_partition.go: keepPartitionProbability, sumExpPowers'), ('decision', G + 'dpagg/select_partition.go: ShouldKeepPartition')])

p('G04', 'Go noise calibration, thresholds and confidence intervals keep their promise',
  """For all parameters, the Gaussian deviation chosen by the Go library achieves the requested epsilon and delta (and is not larger than needed); a partition holding one
  user passes a threshold in any of its partitions with at most the threshold delta, for counts, sums and pre-thresholded counts, at every noisy value; and
  confidence intervals of noises, counts, sums and means cover the true value with at least the stated probability, within the range of the aggregate, without being wider than needed.""",
  ['inputs', 'configurations'], 'grids reaching the ends of the number formats; every noisy outcome around thresholds',
  'Tests compare some tabulated values.',
  [G + 'noise/gaussian_noise.go', G + 'noise/laplace_noise.go', G + 'noise/noise.go', G + 'dpagg/count.go', G + 'dpagg/sum.go', G + 'dpagg/mean.go'],
  [('calibration', G + 'noise/gaussian_noise.go: SigmaForGaussian'), ('thresholds', G + 'noise/*.go: Threshold; dpagg/count.go: ThresholdedResult'),
   ('intervals', G + 'noise/*.go: ComputeConfidenceInterval*')])

p('G05', 'Go noise follows exactly the distribution its privacy guarantee needs',
  """For all parameters, the Laplace sampler of the Go library draws from the two-sided geometric law whose decay per unit of granularity hides the sensitivity for epsilon (granularity included),
  zero is not favoured, both signs are equally likely; the Gaussian sampler draws integers with probabilities proportional to the Gaussian density of the calibrated
  deviation; the value itself is rounded to the granularity independently of the noise; integer noise is the same noise rounded; sensitivities that overflow are refused.""",
  ['inputs', 'fault_sequences'], 'all decisions of the samplers to a depth, per parameter of a grid',
  'Tests are statistical: they cannot see a change of a branch probability in the tail or by a few percent.',
  [G + 'noise/laplace_noise.go', G + 'noise/gaussian_noise.go', G + 'noise/secure_noise_math.go'],
  [('Laplace', G + 'noise/laplace_noise.go: geometric, twoSidedGeometric'), ('Gaussian', G + 'noise/gaussian_noise.go: symmetricBinomial'), ('rounding', G + 'noise/secure_noise_math.go')])

p('G06', 'Go random primitives are exactly uniform and geometric in the source bytes',
  """Given uniform independent bytes, words and bytes are uniform, booleans and signs are fair and use every bit once, geometric draws have
  probability 2^-k of k, bounded integers are uniform on their range for every bound, and uniform floats lie in (0, 1] with a uniform law down to the smallest exponents.""",
  ['inputs'], 'all byte strings per primitive up to the bounds named',
  'No test looks at the bytes; bias of bounded integers or lost bits are far below what sampling can show.',
  [G + 'rand/rand.go'],
  [('primitives', G + 'rand/rand.go')])

p('G07', 'Go quantiles stay in range, are monotone, repeatable, and near the true rank',
  """For any data, tree shape, bounds and noise outcomes, the quantiles returned by the Go library lie within the bounds, do not decrease with the rank, are the same
  when asked again (without new noise being drawn), and without noise lie in the tree leaf of the value at that rank.""",
  ['inputs', 'fault_sequences'], 'all small datasets; all noise outcomes of a menu on all nodes',
  'Tests use two datasets; clamping of negative noisy counts matters only for particular outcomes.',
  [G + 'dpagg/quantiles.go'],
  [('tree search', G + 'dpagg/quantiles.go: Result, findRankedLeaf'), ('leaf of a value', G + 'dpagg/quantiles.go: getIndex')])

p('G08', 'Go random source: concurrent draws behave as if made one after another',
  """When several goroutines draw words, bytes, signs, booleans and bounded integers from the random source of the Go library at once, whatever the interleaving, what they get is
  what some sequential order of the same draws would have given: no byte or bit of the source is used twice, torn or shared between draws, and nobody waits for ever.""",
  ['schedules'], 'all interleavings of statements up to a preemption bound, at every position of the buffers',
  'Tests never draw from two goroutines; a race shows in a few of thousands of schedules.',
  [G + 'rand/rand.go'],
  [('shared buffers and their locks', G + 'rand/rand.go: readRandBuf, Boolean')])

# ---------------------------------------------------------------- Java
J = 'java/main/com/google/privacy/differentialprivacy/'
p('J01', 'Java aggregations count each contribution once, release once, refuse misuse',
  """Whatever sequence of adding, merging, serializing and asking for results or confidence intervals is performed on the Java aggregation objects (count, bounded sums of
  integers and reals, mean, variance, quantiles, partition selection, approximate bounds), a result reflects exactly the clamped contributions added to or merged into that object
  (not-a-number skipped), as if they had been added to one object in any order; an object whose result was returned or that was serialized refuses further additions, merges and
  results; summaries of objects with different parameters, and garbage, are refused and leave the object as it was.""",
  ['histories'], 'all operation sequences up to a depth over two objects and an incompatible one; all single differences of parameters',
  'Tests follow a few fixed scripts per aggregation; states multiply with the order of operations.',
  [J + f for f in ('Count.java', 'BoundedSum.java', 'LongBoundedSum.java', 'BoundedMean.java', 'BoundedVariance.java', 'BoundedQuantiles.java', 'PreAggSelectPartition.java', 'ApproximateBounds.java')],
  [('aggregation states', J + 'AggregationState.java'), ('summaries', J + '*.java: getSerializableSummary, mergeWith')])

p('J02', 'Java aggregations: one user never moves a noised value beyond its sensitivity',
  """For any dataset and any contributions of one more user within the declared bounds (values outside the bounds, infinite or not-a-number included), every value the Java
  aggregations hand to the noise changes by at most the sensitivity the noise is asked to hide, the privacy budgets of all parts of an aggregation add up to at most the one
  requested, noise parameters never depend on data, and parameters for which no guarantee can hold are refused.""",
  ['inputs', 'configurations'], 'all small datasets and user contributions over a menu of values, bounds, partitions and contributions per user; parameters at the ends of the number formats',
  'Tests compare a handful of results with mocked noise; sensitivity is a statement about every pair of neighbouring datasets.',
  [J + f for f in ('BoundedSum.java', 'LongBoundedSum.java', 'BoundedMean.java', 'BoundedVariance.java', 'BoundedQuantiles.java', 'ApproximateBounds.java', 'DpPreconditions.java', 'Noise.java')],
  [('clamping and sensitivity', J + 'Bounded*.java: addEntry, computeResult'), ('validation', J + 'DpPreconditions.java')])

p('J03', 'Java partition selection keeps rare partitions within epsilon and delta',
  """For every epsilon, delta, number of partitions per user and pre-threshold, the probability that the Java partition selection keeps a partition of n users satisfies the
  differential privacy inequalities against n - 1 users in both directions, is zero for partitions below the pre-threshold, never decreases with n, is (nearly) the largest
  possible, and the announced number of users from which partitions are always kept is right.""",
  ['inputs', 'configurations'], 'grid of parameters, every number of users until partitions are always kept, every uniform draw by bisection',
  'Tests check a few probabilities with a statistical tolerance.',
  [J + 'PreAggSelectPartition.java'],
  [('keep probability and decision', J + 'PreAggSelectPartition.java')])

p('J04', 'Java noise calibration, thresholds and confidence intervals keep their promise',
  """For all parameters, the Gaussian deviation chosen by the Java library achieves the requested epsilon and delta (and is not larger than needed); quantiles of the noises are
  exact; counts of one user pass the threshold in any of its partitions with at most the threshold delta, at every noisy value; and confidence intervals of noises, counts, sums and
  means cover the true value with at least the stated probability, within the range of the aggregate, without being wider than needed.""",
  ['inputs', 'configurations'], 'grids reaching the ends of the number formats; every noisy outcome around thresholds',
  'Tests compare some tabulated values.',
  [J + 'GaussianNoise.java', J + 'LaplaceNoise.java', J + 'DiscreteLaplaceNoise.java', J + 'Count.java', J + 'BoundedMean.java', J + 'BoundedSum.java', J + 'LongBoundedSum.java'],
  [('calibration', J + 'GaussianNoise.java: getSigma'), ('thresholds', J + 'Count.java: computeThresholdedResult'), ('intervals', J + '*Noise.java: computeConfidenceInterval')])

p('J05', 'Java noise follows exactly the distribution its privacy guarantee needs',
  """For all parameters, the Laplace samplers of the Java library (continuous and discrete) draw from the two-sided geometric law whose decay per unit of granularity hides the
  sensitivity for epsilon (granularity included), zero is not favoured, both signs are equally likely; the Gaussian sampler draws integers with probabilities proportional to the
  Gaussian density of the deviation calibrated for (epsilon, delta) or for rho; the value itself is rounded to the granularity independently of the noise; integer noise is the
  same noise rounded; sensitivities that overflow are refused.""",
  ['inputs', 'fault_sequences'], 'all decisions of the samplers to a depth, per parameter of a grid',
  'Tests are statistical: they cannot see a change of a branch probability in the tail or by a few percent.',
  [J + 'LaplaceNoise.java', J + 'DiscreteLaplaceNoise.java', J + 'GaussianNoise.java', J + 'SamplingUtil.java', J + 'SecureNoiseMath.java'],
  [('Laplace', J + 'LaplaceNoise.java, SamplingUtil.java'), ('Gaussian', J + 'GaussianNoise.java: sampleSymmetricBinomial'), ('rounding', J + 'SecureNoiseMath.java')])

p('J06', 'Java quantiles stay in range, are monotone, repeatable, and near the true rank',
  """For any data, tree shape, bounds and noise outcomes, the quantiles returned by the Java library lie within the bounds, do not decrease with the rank, are the same when asked
  again (without new noise being drawn), lie in their confidence intervals, and without noise lie in the tree leaf of the value at that rank.""",
  ['inputs', 'fault_sequences'], 'all small datasets; all noise outcomes of a menu on all nodes',
  'Tests use two datasets; clamping of negative noisy counts matters only for particular outcomes.',
  [J + 'BoundedQuantiles.java'],
  [('tree search', J + 'BoundedQuantiles.java: computeResult'), ('leaf of a value', J + 'BoundedQuantiles.java: getIndex')])


# ---------------------------------------------------------------- C++
H = 'cc/algorithms/'
p('P01', 'C++ algorithms count each contribution once and release once',
  """Whatever sequence of adding values, merging serialized summaries, resetting, asking for intervals and asking for results is performed on the C++ algorithms
  (count, bounded sum, mean, variance, standard deviation, quantiles, order statistics, approximate bounds), a result reflects exactly the contributions added to or merged
  into that object since it was built or reset (not-a-number skipped), in any order, as a fresh object given them would answer with the same noise; a second result is
  refused without drawing noise until a reset; summaries of another algorithm or configuration, empty or corrupt ones, are refused and leave the object as it was; and asking for an interval draws no noise.""",
  ['histories'], 'all operation sequences up to a depth over two objects of each algorithm',
  'Tests follow a few fixed scripts per algorithm; states multiply with the order of operations.',
  [H + 'algorithm.h', H + 'count.h', H + 'bounded-sum.h', H + 'bounded-mean.h', H + 'bounded-variance.h', H + 'bounded-standard-deviation.h', H + 'quantiles.h', H + 'order-statistics.h', H + 'approx-bounds.h'],
  [('life cycle', H + 'algorithm.h: PartialResult, Reset'), ('merging and coding', H + '*.h: Serialize, Merge')])

p('P02', 'C++ algorithms: one user never moves a noised value beyond its sensitivity',
  """For any dataset and any contributions of one more user within the declared limits (values outside the bounds, infinite or not-a-number included), every value the C++
  algorithms hand to a mechanism changes by at most the sensitivity that mechanism was built to hide (up to rounding of real arithmetic), also when the bounds are approximated from the data, whatever bounds are
  found; the budgets of all mechanisms of an algorithm add up to at most the one requested; and neither the number of mechanisms and calls nor their calibration depends on data.""",
  ['inputs', 'configurations'], 'all small datasets and contributions over a menu of values, bounds, partitions and contributions per user; all pairs of bins found',
  'Tests compare a handful of noiseless results; sensitivity is a statement about every pair of neighbouring datasets.',
  [H + 'count.h', H + 'bounded-sum.h', H + 'bounded-mean.h', H + 'bounded-variance.h', H + 'approx-bounds.h', H + 'approx-bounds-provider.h', H + 'quantile-tree.h', H + 'order-statistics.h', H + 'binary-search.h'],
  [('clamping and sensitivity', H + 'bounded-sum.h, bounded-mean.h, bounded-variance.h'), ('partial sums of approximated bounds', H + 'approx-bounds.h: AddToPartials, ComputeFromPartials'),
   ('budget split', H + 'bounded-mean.h, bounded-variance.h, quantile-tree.h')])

p('P03', 'C++ partition selection keeps rare partitions within epsilon and delta',
  """For every epsilon, delta, number of partitions per user and pre-threshold, the probability that a C++ partition selection strategy keeps a partition of n users is the one of its noise
  (or of the optimal rule), satisfies the privacy inequalities against n - 1 users in both directions, bounds by delta the probability that any partition holding one user only is kept, is zero below the
  pre-threshold, never decreases with n and equals the announced one; a noised value is released exactly when its partition is kept; thresholds and deltas are inverse to each other; bad parameters are refused.""",
  ['inputs', 'configurations'], 'grid of parameters to the ends of the number format, every number of users until partitions are always kept',
  'Tests check a few probabilities with a statistical tolerance.',
  [H + 'partition-selection.h'],
  [('keep probability', H + 'partition-selection.h: NearTruncatedGeometricPartitionSelection'), ('thresholds', H + 'partition-selection.h: LaplacePartitionSelection, GaussianPartitionSelection')])

p('P04', 'C++ mechanisms: calibration and intervals keep their promise',
  """For all parameters, the Gaussian deviation chosen by the C++ library achieves the requested epsilon and delta without being larger than needed; the Laplace scale is sensitivity over epsilon; variances, distribution functions,
  quantiles, confidence intervals and threshold probabilities are those of the noise really added, however the mechanism was specified; the minimum-variance builder picks the smaller variance;
  copying, serializing and restoring a mechanism changes nothing; and parameters for which no guarantee holds are refused.""",
  ['inputs', 'configurations'], 'grids reaching the ends of the number formats; all subsets of parameters with all bad values',
  'Tests compare some tabulated values.',
  [H + 'numerical-mechanisms.h', H + 'numerical-mechanisms.cc', H + 'internal/gaussian-stddev-calculator.cc', H + 'distributions.cc'],
  [('calibration', H + 'internal/gaussian-stddev-calculator.cc'), ('intervals and quantiles', H + 'numerical-mechanisms.cc: NoiseConfidenceInterval, Quantile, Cdf'),
   ('parameters', H + 'numerical-mechanisms.h: Builder')])

p('P05', 'C++ noise follows exactly the distribution its privacy guarantee needs',
  """For all parameters, the C++ samplers draw from the laws the guarantees need: uniform doubles lie in (0, 1) with the exact law of the random words down to the smallest exponents, geometric draws have the
  exact decay, the Laplace sampler draws a two-sided geometric multiple of its granularity where zero is not favoured and both signs are equally likely, the Gaussian sampler accepts integers with probabilities
  proportional to the Gaussian density; the value itself is rounded to the granularity independently of the noise, integers stay integers and extreme values saturate instead of wrapping.""",
  ['inputs', 'fault_sequences'], 'all decisions of the samplers to a depth, per parameter of a grid; all patterns of the random words to a bound',
  'Tests are statistical: they cannot see a branch probability changed in the tail or by a few percent.',
  [H + 'rand.cc', H + 'distributions.cc', H + 'distributions.h', H + 'numerical-mechanisms.cc'],
  [('uniform and geometric source', H + 'rand.cc'), ('samplers', H + 'distributions.cc'), ('rounding', H + 'numerical-mechanisms.cc: AddDoubleNoise, AddInt64Noise')])

p('P06', 'C++ quantile trees stay in range, are monotone, repeatable and near the rank',
  """For any data, tree shape, bounds and noise outcomes, the quantiles of the C++ quantile tree lie within the bounds, do not decrease with the rank, are the same when asked again
  (without new noise being drawn, and whether or not confidence intervals were asked for in between), and without noise lie within a tree leaf of the value at that rank; the noise is built for the sensitivity of the tree's height and the user's contributions.""",
  ['inputs', 'fault_sequences'], 'all small datasets; all noise outcomes of a menu on all nodes',
  'Tests use a few datasets; clamping of negative noisy counts matters only for particular outcomes.',
  [H + 'quantile-tree.h', H + 'internal/count-tree.cc', H + 'quantiles.h'],
  [('tree search', H + 'quantile-tree.h: Privatized::GetQuantile'), ('cached noised counts', H + 'quantile-tree.h: GetNoisedCount'), ('nodes', H + 'internal/count-tree.cc')])

p('P07', 'C++ accounting never promises less loss than composition exactly has',
  """For all mechanisms, parameters, discretization intervals, distributions and histories of composition, the delta that the C++ privacy loss distributions report for an epsilon is at least the exact one in
  a pessimistic estimate (at most it in an optimistic one) and within one interval and the discarded tail of it; epsilon and delta queries are inverse and monotone; composing with others, with itself or
  through serialization agrees with exact convolution, and never crashes or reads outside its buffers; mismatched distributions are refused without change; mechanisms created for an epsilon and delta satisfy
  it and are the smallest that do.""",
  ['inputs', 'histories'], 'grids of parameters; all distributions over few outcomes; all histories of composition to a depth',
  'Tests compare a few tabulated curves; losses beyond the range of exponentials, truncation to few masses and zero-fold composition never occur in them.',
  ['cc/accounting/privacy_loss_distribution.cc', 'cc/accounting/privacy_loss_mechanism.cc', 'cc/accounting/convolution.cc', 'cc/accounting/common/common.cc', 'cc/accounting/accountant.cc'],
  [('distributions and composition', 'cc/accounting/privacy_loss_distribution.cc'), ('mechanisms', 'cc/accounting/privacy_loss_mechanism.cc'), ('convolution', 'cc/accounting/convolution.cc'), ('searches', 'cc/accounting/common/common.h'),
   ('accountant', 'cc/accounting/accountant.cc')])

p('P08', 'C++ random source: concurrent draws never share a word of the source',
  """When several threads draw words and uniform numbers from the random source of the C++ library at once (from its very first use on, and across the refilling of its buffer), whatever the
  interleaving of their memory accesses, every word handed out is a word of the source, none is handed out twice, torn or read before it was written, and nobody waits for ever.""",
  ['schedules'], 'all interleavings of memory accesses up to a preemption bound, at every distance from the refill',
  'Tests draw from one thread; a race shows in a few of thousands of schedules.',
  ['cc/algorithms/rand.cc', 'cc/algorithms/rand.h'],
  [('buffer and its lock', 'cc/algorithms/rand.cc: SecureURBG::operator(), RefreshBuffer')])

D = 'python/dp_auditorium/dp_auditorium/'
p('D01', 'Auditor: a tester only reports a bound its samples support',
  """On every pair of sample sets the testers of the auditing library (histogram, MMD, hockey-stick, Renyi) report exactly the high-probability lower bound they document for these samples, so that for every pair of
  output laws that satisfies the guarantee a violation is reported with at most the failure probability asked for, and one that violates it by more than the tolerance is found; empty, too small and
  mismatched samples, and parameters outside their ranges, are refused; the verdict depends on the bound and the guarantee alone.""",
  ['inputs'], 'all samples over few outputs up to a length; exact probabilities of every count of outcomes for pairs of laws',
  'Tests draw a few samples of a few mechanisms and look at the sign of the verdict; a wrong constant in a bound does not show.',
  [D + 'testers/property_tester_utils.py', D + 'testers/histogram_tester.py', D + 'testers/mmd_tester.py', D + 'testers/hockey_stick_tester.py', D + 'testers/renyi_tester.py', D + 'configs/privacy_property.py'],
  [('histogram bound', D + 'testers/histogram_tester.py'), ('MMD bound', D + 'testers/mmd_tester.py'), ('hockey-stick bound', D + 'testers/hockey_stick_tester.py'), ('Renyi bound', D + 'testers/renyi_tester.py'),
   ('sample handling', D + 'testers/property_tester_utils.py')])

p('D02', 'Auditor: mechanisms, datasets and test loop are what they are said to be',
  """For every dataset and every outcome of the noise the mechanisms the auditor ships (sparse vector variants, noisy max, means) compute the algorithm they document, and those documented as private are private
  at the parameters given; the dataset generators propose pairs of neighbouring datasets inside their ranges and report every result, including zero, to the trial it belongs to; the test loop runs the number of
  tests configured, stops at the first violation and returns the result that its tests support, for every history of estimates.""",
  ['inputs', 'histories'], 'grids of noise on all small datasets; all trial histories and sequences of estimates to a depth',
  'Tests look at shapes and at one run; a negative noisy count or a result of exactly zero does not occur in them.',
  [D + 'mechanisms/sparse_vector_technique.py', D + 'mechanisms/mean.py', D + 'mechanisms/noisy_max.py', D + 'generators/vizier_dataset_generator.py', D + 'generators/classification_dataset_generator.py',
   D + 'generators/pipeline_dp_vizier_dataset_generator.py', D + 'privacy_test_runner.py', D + 'mechanisms/pipeline_dp/aggregation.py'],
  [('mechanisms', D + 'mechanisms'), ('generators', D + 'generators/vizier_dataset_generator.py'), ('test loop', D + 'privacy_test_runner.py'), ('aggregation wrapper', D + 'mechanisms/pipeline_dp/aggregation.py')])

# ---------------------------------------------------------------- Privacy on Beam
PB = 'privacy-on-beam/pbeam/'
p('B01', 'Privacy on Beam aggregates exactly what contribution bounding may keep',
  """Whatever the runner decides (order, spreading over workers, merging, serialization, which contributions are sampled), every aggregation of Privacy on Beam gives exactly the aggregation of the Go library, with the
  declared budget, noise, sensitivities and bounds, of contributions bounded as declared: per identifier at most the maximal number of partitions and of values per partition, partitions selected by the number of
  identifiers or exactly the public ones, clamped to the bounds; every admissible choice of contributions is possible; key and value types do not matter; test modes drop the noise (and the bounding) and nothing else.""",
  ['inputs', 'schedules'], 'all small datasets; all plans of the runner in bounds; all sampling decisions',
  'Tests run one schedule of the direct runner, mostly without noise; wrong sensitivities, merges or types for unequal keys and values do not show.',
  [PB + 'aggregations.go', PB + 'count.go', PB + 'sum.go', PB + 'mean.go', PB + 'quantiles.go', PB + 'variance.go', PB + 'distinct_id.go', PB + 'distinct_per_key.go', PB + 'select_partitions.go', PB + 'public_partitions.go', PB + 'coders.go'],
  [('contribution bounding', PB + 'aggregations.go: boundContributions'), ('combine functions', PB + 'aggregations.go'), ('public partitions', PB + 'public_partitions.go'), ('accumulator coders', PB + 'coders.go'),
   ('distinct values', PB + 'distinct_per_key.go')])

p('B02', 'Privacy on Beam never spends more than the budget of its PrivacySpec',
  """Over every history of aggregations on collections that share a PrivacySpec, each aggregation runs with exactly the budget it takes from the spec, for the aggregation and, with private partitions, for their selection; a
  request for more than is left, for the whole budget after some is spent, or with parameters that do not fit the noise or public partitions, is refused; parts that add up to the budget are all granted; specs do not affect each other.""",
  ['histories'], 'all histories of two and three aggregations over an alphabet of requests',
  'Tests ask the budget object directly or build one aggregation per spec; an aggregation that does not consume what it uses shows only in a history.',
  [PB + 'pbeam.go', PB + 'sum.go', PB + 'mean.go', PB + 'quantiles.go', PB + 'variance.go', PB + 'count.go', PB + 'distinct_id.go', PB + 'distinct_per_key.go', PB + 'select_partitions.go'],
  [('budget', PB + 'pbeam.go: privacyBudget'), ('consumption', PB + 'sum.go, mean.go, quantiles.go, variance.go, count.go: consume'), ('parameter checks', PB + 'aggregations.go: checkAggregationEpsilon')])

p('B03', 'Privacy on Beam keeps every record with its privacy identifier',
  """Through every chain of ParDo (with functions of all documented shapes), DropKey and DropValue each output record stays attached to the privacy identifier of the record it was made of, none is lost, duplicated or altered,
  and errors of the function stop the pipeline; functions of other signatures are refused; identifiers taken from structs are equal exactly when the fields named by the path are, and paths that name no simple field are refused.""",
  ['inputs', 'histories'], 'all chains to depth three; all signatures up to five types; all subsets of records',
  'Tests use each shape once on its own; code for 32 shapes is generated, and mistakes show only in combinations (two emitted records, two codecs in a row).',
  [PB + 'pardo.go', PB + 'pbeam.go', 'privacy-on-beam/internal/generated/generated_functions.go', 'privacy-on-beam/internal/kv/kv.go'],
  [('shapes', PB + 'pardo.go: buildDoFn'), ('generated functions', 'privacy-on-beam/internal/generated'), ('pair codec', 'privacy-on-beam/internal/kv/kv.go'), ('identifiers of structs', PB + 'pbeam.go: extractStructFieldFn')])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gen_props2.py')).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gen_props2.py')) else None

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, x['title']
    f.write(json.dumps(x) + '\n')
print(len(P))
