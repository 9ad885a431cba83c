"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list, so that they stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = 'runtime monitoring: the real code is run under generated and hostile workloads'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe,
                               hook_needed=None), technique=technique, note=note))


S, M = 'ctbayes/sdelib/', 'ctbayes/mjplib/'

prop('C01', 'Brownian bridge minimum: distribution, quantile and joint (time, value) draws',
     'For every horizon and pair of endpoints, and for every optional range the minimum is restricted to, the distribution function and the quantile function of the minimum of a Brownian bridge are the closed-form law, non-decreasing and inverse to each other. Drawn minima have that law jointly with the time at which the minimum is attained, lie inside the requested range and inside the horizon. Drawn minima of a bridge conditioned to stay below an upper barrier have the law of the bridge conditioned to stay below that barrier.',
     ['inputs', 'configurations'], 'all horizons > 0, endpoints, restriction ranges and barriers, all random streams',
     'Doctests check the edge values of the two functions and one marginal per run at one random input, and compare the wrong coordinate for the sampler; no joint law, no restricted range, no barrier grid.',
     [S + 'hitting.py'], [('cdf/ppf of the bridge minimum', S + 'hitting.py:cdf_brownbr_min, ppf_brownbr_min'), ('minimum samplers', S + 'hitting.py:sample_brownbr_min, sample_layerbr_min')],
     ['return values of the four functions'], 'runtime monitoring with closed-form oracles and two-stage goodness-of-fit on recorded draws',
     'Deterministic oracle for the two functions on generated grids; statistical oracle (probability integral transforms) for the draws.')

prop('C02', 'Barrier escape decisions are exact, terminating and seed-monotone',
     'For every horizon, endpoints and barrier, and for every outer barrier the path is known to respect, the decision whether a Brownian bridge leaves a symmetric interval, and whether a three dimensional Bessel bridge exceeds a level, is true with exactly the probability given by the theta-function series: decided from a uniform seed, it is true if and only if the seed is below that probability. The decision is always reached in finitely many steps, is true whenever an endpoint is at or beyond the barrier, and is false whenever the outer barrier is below the barrier. The alternating partial sums exposed for these probabilities converge to them.',
     ['inputs'], 'all horizons, endpoints on either side and on the barrier, barriers, outer barriers and seeds (conditioning events of probability at least 1e-9, seeds at least 1e-6 away from the probability)',
     'Doctests compare decisions with the same series they are computed from, at one random easy input; nothing independent, no long horizons, no tight outer barrier.',
     [S + 'hitting.py'], [('alternating series and retrospective decision', S + 'hitting.py:sample_brownbr_esc, sample_bessel3br_esc, series_*')],
     ['decisions for given seeds', 'loop steps per decision'], 'runtime monitoring: decisions at chosen seeds against an independent theta-function oracle, with a logical step budget as termination monitor',
     'Decisions are probed just below and above the exact probability for thousands of inputs, including long horizons, near-touching endpoints and nearly equal barriers.')

prop('C03', 'Layers partition path space with the exact layer law',
     'For every horizon, endpoints and lower/upper bounds (finite or infinite), the layer edges of successive layers are strictly nested around the endpoints, stay strictly inside the bounds and converge to them, starting from the endpoints themselves. A drawn layer index has exactly the probability that the bridge, conditioned on the bounds, stays inside that layer but not inside the previous one. The probability that a bridge stays between two edges, as reported by the library, is exact, including one-sided and unbounded edges.',
     ['inputs', 'configurations'], 'all horizons, endpoints, bound configurations (none, lower, upper, both, symmetric or not)',
     'The doctest discretises one random bridge per run and a chi-square at alpha=0.01 on coarse paths; asymmetric and one-sided bounds are barely exercised.',
     [S + 'layers.py'], [('edges and layer draw', S + 'layers.py:compute_edges, sample_layer, eval_stay_prob')],
     ['edges', 'layer indices'], 'runtime monitoring: recorded layer draws against theta-function probabilities; edge sequences checked online',
     'Chi-square on recorded layer counts against exact probabilities; every edge sequence is checked deterministically.')

prop('C04', 'Revealing a path at new times never changes or contradicts what is known',
     'When a lazily represented bridge (in original or in standardised coordinates, with or without bounds) is evaluated at any sequence of query times, every previously revealed point keeps its time and value (up to floating-point rounding), times stay strictly increasing, and asking again for a known time returns the same value. All points lie between the recorded attained extreme and the recorded outer edge, the attained extreme itself is one of the points, and the per-sector record of which sectors reach the inner edge keeps one entry per sector and never contradicts the points. The caller gets exactly one value per query time in query order, and the object that was queried is not modified.',
     ['histories', 'inputs'], 'all query histories: any number of batches of increasing times, of any size, orders relative to known points, repeated and boundary times, empty batches',
     'Two tests interpolate once at fixed times and compare a distribution; no history of queries, no structural check.',
     ['ctbayes/ea3lib/skeleton.py', 'ctbayes/ea3lib/seed.py', S + 'interpolators.py', S + 'paths.py'],
     [('interpolation and flipping', 'ctbayes/ea3lib/skeleton.py:interpolate_skeleton, flip_skeleton'), ('sector bookkeeping', S + 'interpolators.py:fill_wiener_outer, fill_wiener_inner')],
     ['every representation returned by an interpolation, in a history of queries'], 'runtime monitoring: an online invariant checker over recorded query histories',
     'Every step of every generated history is checked; values are compared exactly for upward paths and to rounding for reflected ones.')

prop('C05', 'Lazily revealed bridges have exactly the bridge law whatever is asked',
     'For every horizon, endpoints and bounds, the values obtained from a freshly drawn path representation, at any times and through any history of queries, have jointly the law of a Brownian bridge between the endpoints, conditioned to stay inside the bounds when these are finite. In standardised coordinates the same holds for the standard bridge, for any pair of bounds expressed in the original coordinates when the endpoints agree. Paths are always inside the bounds.',
     ['histories', 'inputs', 'configurations'], 'all horizons, endpoints, bounds (none, one-sided, asymmetric two-sided), query histories',
     'The interpolation tests use one endpoint pair, no bounds and one query; representations that left one-sided bounds passed them.',
     ['ctbayes/ea3lib/skeleton.py', 'ctbayes/ea3lib/seed.py', S + 'layers.py', S + 'paths.py', S + 'interpolators.py'],
     [('layer/anchor/edge construction', 'ctbayes/ea3lib/skeleton.py:sample_raw_skeleton; ctbayes/sdelib/layers.py:sample_anchor, sample_edges'), ('refinement', S + 'paths.py:sample_layerbr')],
     ['values returned for query histories', 'minimum/maximum and layers of the drawn representation'], 'runtime monitoring: recorded values whitened to independent scores under the exact (conditioned) bridge law, and tested sequentially',
     'Joint whitening for unbounded bridges; exact conditioned marginals, sequential conditionals and extreme laws for bounded ones.')

prop('C06', 'Exact simulation of diffusions reproduces their transition and bridge laws',
     'For every admissible parameter, horizon, starting value and set of times, paths drawn from the Ornstein-Uhlenbeck model are distributed exactly like that process, unconditionally and conditionally on a final value; endpoints and paths drawn from the square-root (CIR) model are distributed exactly like that process and stay positive. Accepted standardised bridges, mapped back, have the law of the diffusion bridge. Values are returned one per requested time, and successive draws of one stream are independent.',
     ['inputs', 'configurations'], 'all parameters, horizons, endpoints, times; CIR with 4ab >= 3s^2',
     'Three tests at a single random parameter compare against Euler discretisation at alpha=0.01 for OU; CIR is only checked to run.',
     ['ctbayes/ito/static.py', 'ctbayes/ito/models/ou.py', 'ctbayes/ito/models/cir.py', 'ctbayes/ea3lib/skeleton.py', 'ctbayes/ea3lib/seed.py'],
     [('exact rejection sampling', 'ctbayes/ea3lib/skeleton.py:sample_skeleton; ctbayes/ea3lib/seed.py:sample_bridge'), ('biased endpoint', 'ctbayes/ito/static.py:sample_conv_endpt')],
     ['paths drawn'], 'runtime monitoring: recorded paths whitened under the known transition densities (Gaussian, noncentral chi-square)',
     'Closed-form transition laws are the oracle; parameters are drawn per run.')

prop('C07', 'Poisson coins and estimators are exact and unbiased for the path integral',
     'For every path representation and parameter, the Poisson coin succeeds with probability exp(-integral of the potential above its reported lower bound) given the path, its reported offset is minus the integral of that lower bound, and the product estimator, on the log scale together with its reported offset, is unbiased for exp(-integral of the potential). The two-parameter coin succeeds with probability exp(-integral of the positive part of the difference of the potentials) in the chosen direction. The refined path they return agrees with the one they were given. (The coin in original coordinates is relative to the global minimum of the potential that the bounds report, the coins in standardised coordinates to the minimum over the range of the path they report.)',
     ['inputs', 'histories', 'configurations'], 'all path representations (any refinement history), parameters, batch sizes, both directions',
     'Tests only check that mean estimates are within a wide tolerance of a discretisation at one parameter; batch sizes, offsets, direction and the direct-coordinate coin are unchecked.',
     ['ctbayes/ea3lib/seed.py', 'ctbayes/ea3lib/skeleton.py'], [('thinning of a Poisson process', 'ctbayes/ea3lib/seed.py:flip_poisson_coin, flip_dual_coin, est_poisson_coin; ctbayes/ea3lib/skeleton.py:flip_poisson_coin, est_poisson_coin'), ('path bounds', 'ctbayes/ea3lib/seed.py:bound_disc_path, integrate_disc_bound')],
     ['coin outcomes', 'log estimates', 'offsets'], 'runtime monitoring: coin outcomes and estimates on recorded paths against closed-form Gaussian path integrals and densely revealed paths',
     'Closed-form expectations of quadratic path functionals, deterministic offset oracle, and per-path Bernoulli tests.')

prop('C08', 'Adaptive rejection sampling draws from any log-concave density',
     'For every log-concave target, support (finite, half-infinite or infinite), start that brackets the mode (given, or the library\'s own for targets of moderate scale) and limit on the number of hull points, the generated values lie in the support and are independent draws from the target, also after the hull stops growing. The upper hull is above and the lower hull below the log-density everywhere, the breakpoints are increasing, and values drawn from the hull follow the exponentiated hull. The requested number of draws is produced.',
     ['inputs', 'configurations'], 'all log-concave targets given with derivatives, supports, starting points, hull limits',
     'The doctest draws from one chi-square family with default settings at alpha=0.01.',
     ['ctbayes/misc/ars.py'], [('hulls', 'ctbayes/misc/ars.py:gen_upper, eval_upper, eval_lower'), ('sampler', 'ctbayes/misc/ars.py:sample, sample_envelope, brace')],
     ['generated values', 'hull values'], 'runtime monitoring: recorded draws against known distributions and hull envelope assertions at generated points',
     'Families: normal, gamma, beta, logistic, Gumbel, truncated versions, Laplace-like mixtures; hull limits 2..100.')

prop('C09', 'Two-coin Bernoulli factories have exactly the advertised odds',
     'For every pair of log weights and success probabilities, the two-coin procedure answers heads with probability w1 p1 / (w1 p1 + w2 p2), whatever the scale of the weights; with a portkey probability it additionally stops with the exact escape probability and then reports tails and the escape. The auxiliary value handed back with an answer is the one of the coin flip that decided it, the value handed back with an escape is that of the latest flip of the second coin (the given one if it was not flipped; the joint variant: of its latest flip), and coins are flipped one at a time and never after the decision. The joint variant asks its single coin for the side it needs and obeys the same law.',
     ['inputs', 'histories', 'configurations'], 'all weights (including extreme), success probabilities, portkey probabilities and coin histories',
     'One doctest tests one frequency without portkey; the joint variant is never tested.',
     ['ctbayes/misc/bfactories.py'], [('two-coin loop', 'ctbayes/misc/bfactories.py:sample_twocoin, sample_twocoin_joint')],
     ['answers', 'the sequence of coin flips consumed'], 'runtime monitoring: instrumented coins log every flip; answers tested against exact multinomial law and a trace automaton',
     'The trace automaton is exact; the frequencies are tested in two stages.')

prop('C10', 'Poisson point processes have the right counts and uniform locations',
     'For every intensity and box of any dimension, the points drawn at once are a Poisson process: a Poisson number of points, independently uniform over the box, sorted by the first coordinate. Drawn in batches of any size, the union has that same law, each batch has the requested size except the last, and first coordinates increase within and across batches. All points are inside the box.',
     ['inputs', 'configurations'], 'all intensities, boxes (1 to 3 dimensions), batch sizes',
     'Doctests test the pooled uniformity at intensity 1e4 with batch size 2 only; counts, ordering and other batch sizes are not tested.',
     [M + 'skeleton.py'], [('point process draws', M + 'skeleton.py:sample_ppp, sample_batch_ppp')], ['points and batches'],
     'runtime monitoring: recorded points tested for count law, uniformity, independence, order and containment',
     'Order, size and containment are exact checks; laws are tested in two stages.')

prop('C11', 'Jump processes are simulated exactly, forwards, backwards and as bridges',
     'For every valid generator, horizon and initial state (given or drawn from the stationary law), simulated jump paths have the Markov jump law: exponential holding times, jump probabilities proportional to rates, and end states distributed by the matrix exponential. Paths conditioned on both end states, or on the final state with a stationary start, have exactly the conditional law, jointly in the number, times and states of jumps. Every path starts at time 0, has strictly increasing jump times inside the horizon, never jumps to its own state or along a zero rate, and meets the states it was conditioned on.',
     ['inputs', 'configurations'], 'all generators (dimension 2 to 5, with zero rates and widely different rates), horizons and end states',
     'Doctests check the long-run occupancy at one random 3-state generator with tolerance 1e-2, which is blind to end conditions and to jump-time laws.',
     [M + 'skeleton.py'], [('simulation', M + 'skeleton.py:sample_forwards, sample_backwards, sample_bridge, get_trans, get_stat')], ['jump paths'],
     'runtime monitoring: recorded jump paths against matrix-exponential laws, plus an online well-formedness checker',
     'Structural checks are exact; laws are tested in two stages against expm of independent block constructions.')

prop('C12', 'Cutting, pasting and evaluating jump paths loses nothing',
     'For every jump path and every set of cut times, the pieces obtained by cutting start at time 0, have the lengths between cuts, agree with the original path at every time inside, and pasted together give back the original path without virtual jumps; cutting again at other times gives what cutting the original would give. Randomly cut paths paste back to the original. Evaluating a path at any times inside the horizon returns the state after the last jump at or before each time, and times beyond the horizon are rejected.',
     ['inputs', 'histories'], 'all jump paths and cut-time sets (empty, many, equal to jump times), and evaluation times',
     'Doctests cut one random path at random times and never at jump times, and compare piece-wise only after pasting.',
     [M + 'skeleton.py', 'ctbayes/switching/types.py'], [('partition algebra', M + 'skeleton.py:partition_skeleton, paste_partition, repartition_skeleton, sample_partition, Skeleton.__call__')],
     ['pieces, pasted paths and evaluations'], 'runtime monitoring: every cut/paste/evaluate operation in generated histories compared with a reference step function',
     'Deterministic comparison to rounding of the times.')

prop('C13', 'Generator posteriors, likelihoods and priors are the conjugate ones',
     'For every observed jump path, including its final uncompleted holding time, and every gamma prior, the updated hyperparameters are the prior shape plus transition counts and the prior rate plus occupation times, and the reported log-likelihood is the log density of the path. The reported log-prior, posterior mean and mode are those of independent gamma rates, sampled generators have those gamma rates, and every generator produced has rows summing to zero. Occupation fractions of a path are its time averages.',
     ['inputs'], 'all jump paths (including without jumps and with unvisited states) and hyperparameters',
     'One doctest checks consistency of the posterior mean on one long path with 10 percent tolerance.',
     [M + 'inference.py', M + 'skeleton.py'], [('conjugate inference', M + 'inference.py:update, eval_loglik, eval_logprior, sample_param, get_ev, get_mode'), ('occupation', M + 'skeleton.py:est_stat')],
     ['return values'], 'runtime monitoring: return values on generated paths against a reference implementation; sampled rates against gamma laws',
     'Deterministic reference; sampled generators in two stages.')

prop('C14', 'Model coefficients are mutually consistent',
     'For every model shipped and every admissible parameter, state and regime, the drift integral and drift derivative agree with the drift, the reduction and its inverse and derivative agree with each other and give unit volatility (or the stated volatility), and the potential is half the squared standardised drift plus the drift divergence. The reported bounds of the potential over an interval contain the potential everywhere on it, and the reported global minimum is not above any of its values. The reported bounds on the parameter sensitivity of the potential dominate the difference of potentials between any two parameters along any path inside the given bounds, and the reported sensitivity is the derivative of the potential along a path. The maps between paths and standardised paths are the affine maps that take the end points to zero and the volatility to one, and are inverse to each other. The likelihood without the path integral is the Brownian density times the boundary terms of the change of measure, adding up over regimes. Log priors are minus infinity outside the parameter space, and otherwise the densities of independent log-normal parameters, for each regime (CIR: exponential mean reversion and level, inverse gamma squared volatility), up to a constant.',
     ['inputs', 'configurations'], 'all shipped models (OU, CIR, three switching OU parametrisations), parameters, states, intervals; CIR bounds for 4ab >= 3s^2',
     'Pivot tests compare one derivative for two of the models; three-regime arrays, intervals and sensitivity bounds are never checked.',
     ['ctbayes/ito/models/ou.py', 'ctbayes/ito/models/cir.py', 'ctbayes/switching/models/ou.py', 'ctbayes/switching/models/ou2.py', 'ctbayes/switching/models/ou3.py', 'ctbayes/ito/static.py', 'ctbayes/switching/static.py'],
     [('model coefficients', 'ctbayes/*/models/*.py'), ('assembled potentials and normalising maps', 'ctbayes/ito/static.py, ctbayes/switching/static.py')],
     ['coefficient values'], 'runtime monitoring: assertion oracles (numerical derivatives, dense interval scans) over generated parameters, states and intervals',
     'Deterministic; parameters sampled on log scales.')

prop('C15', 'Augmented likelihood estimators are unbiased for the observed-data likelihood',
     'For every observation record, parameter and (for switching models) regime path, the average over augmentations drawn by the library of the estimated augmented likelihood equals the exact transition density of the observations. The likelihood of a switching record restricted to each regime adds up to the unrestricted one. Estimates computed on already refined augmentations stay unbiased.',
     ['inputs', 'configurations', 'histories'], 'all observation records (irregular times, several points), parameters, regime paths, OU and switching OU models; CIR away from its boundary',
     'Tests compare one estimate average to the transition density at one parameter with few draws; the switching test compares an empty model, and restricted likelihoods are never checked.',
     ['ctbayes/ito/mcem.py', 'ctbayes/ito/static.py', 'ctbayes/switching/mcem.py', 'ctbayes/switching/static.py', 'ctbayes/ea3lib/seed.py'],
     [('estimators', 'ctbayes/ito/mcem.py:est_aug_lik; ctbayes/switching/mcem.py:est_aug_lik'), ('biased likelihood', 'eval_biased_log_lik in ctbayes/ito/static.py, ctbayes/switching/static.py'), ('augmentation', 'sample_aug in both')],
     ['estimates on drawn augmentations'], 'runtime monitoring: recorded estimates averaged against exact Gaussian (Kalman-type) and noncentral chi-square transition densities',
     'Exact oracles; two-stage tests on normalised estimates.')

prop('C16', 'Posterior sampling of single-regime diffusions leaves the posterior invariant',
     'For every data set and parameter, each kind of update of the sampler for single-regime (Ornstein-Uhlenbeck) diffusions - of the parameters and of the latent paths, with or without the early-rejection step, any portkey probability, proposal scale and batch size - leaves the joint posterior of parameters and latent paths given the observations invariant. Proposals outside the parameter space are never accepted. Accepted parameter values are handed to the proposal adaptation.',
     ['histories', 'configurations', 'inputs'], 'all data sets, configurations (early rejection on/off, portkey probability, batch size), proposal scales, and starting points',
     'Tests compare two stages of one chain visually or with a test at alpha=0.01 that runs for one configuration; the parameter update was never exercised (it raised an error).',
     ['ctbayes/ito/mcmc.py', 'ctbayes/misc/bfactories.py', 'ctbayes/misc/adapt.py', 'ctbayes/ea3lib/seed.py'],
     [('parameter and path updates', 'ctbayes/ito/mcmc.py:update_params, update_sde, flip_param_precoin'), ('proposals', 'ctbayes/misc/adapt.py:MyopicRwSampler')],
     ['parameters and paths before and after an update'], 'runtime monitoring: updates applied to exact joint draws (prior, data, latent path); pre/post distributions compared (Geweke-type joint distribution test)',
     'Exact starting draws make invariance directly testable; detects errors that move the posterior noticeably within a few updates.')

prop('C17', 'Posterior sampling of regime-switching diffusions leaves the posterior invariant',
     'For every data set, the updates of the switching sampler - of the generator, of the diffusion parameters, and of the regime path with its latent diffusion - each leave the joint posterior given the observations invariant, with or without the early-rejection step, and for any portkey probability. The generator update is the conjugate one given the current regime path. Proposals outside the parameter space are never accepted, and resuming from a saved state continues the same chain.',
     ['histories', 'configurations', 'inputs'], 'all data sets, numbers of regimes, configurations and starting points',
     'No existing test reaches the switching posterior sampler beyond one smoke run that fails; invariance is never checked.',
     ['ctbayes/switching/mcmc.py', 'ctbayes/switching/static.py', 'ctbayes/misc/adapt.py', M + 'skeleton.py', M + 'inference.py'],
     [('updates', 'ctbayes/switching/mcmc.py:update_generator, update_params, update_hidden'), ('regime proposals', 'ctbayes/misc/adapt.py:MyopicMjpSampler')],
     ['full states before and after an update'], 'runtime monitoring: updates applied to exact joint draws of (generator, parameters, regimes, latent paths, data); pre/post comparison',
     'As C16. Kernels are tested one at a time, with the regime path started from its stationary law.')

prop('C18', 'Results are a function of the inputs and the random generator passed in',
     'Every sampler that accepts a random generator gives identical results when called again with an equally seeded generator, whatever the state of any other random source and whatever the number of worker processes. Inputs, and states that were handed out earlier, are never modified by later work. Two differently seeded generators give different draws.',
     ['configurations', 'histories', 'schedules'], 'all public samplers, seeds, numbers of worker processes and interleavings of several chains',
     'No test seeds a generator; reproducibility, hidden global state and aliasing are never checked.',
     ['ctbayes/misc/adapt.py', 'ctbayes/ito/mcmc.py', 'ctbayes/ito/mcem.py', 'ctbayes/switching/mcmc.py', 'ctbayes/switching/mcem.py', 'ctbayes/sdelib/', 'ctbayes/mjplib/', 'ctbayes/ea3lib/', 'ctbayes/misc/'],
     [('explicit generator passing', 'every function with an ome argument'), ('spawned per-sector generators', 'ctbayes/ito/mcmc.py:update_sde; ctbayes/switching/mcmc.py:update_params, update_hidden')],
     ['outputs of equal runs', 'global random state before and after', 'deep copies of inputs'], 'runtime monitoring: differential runs under perturbed global random state, worker counts and interleavings, with a global-RNG tripwire and input fingerprints',
     'Exact comparison of outputs; the tripwire counts uses of the process-global generator.')

prop('C19', 'Monte Carlo EM iterates correctly and converges to the posterior mode',
     'Starting from any admissible parameter, the expectation-maximisation iteration for single-regime and switching diffusions continues from its latest parameter, stays inside the buffered parameter bounds, uses the scheduled, growing number of simulated augmentations, reports the objective it maximised on them, and its parameters approach the posterior mode as iterations proceed. It stops when the objective changes by less than the tolerance, and only then. The generator maximiser is the closed-form mode of the averaged conjugate posterior. The covariance reported for an estimate is the inverse of the observed information.',
     ['inputs', 'histories', 'configurations'], 'all data sets, starting values, tolerances and numbers of particles (prior shapes of at least 2 for switching generators)',
     'The maximiser tests only evaluate the likelihood estimators; the iteration itself, its stopping rule and its bounds are never checked.',
     ['ctbayes/ito/mcem.py', 'ctbayes/switching/mcem.py'], [('EM iteration', 'ctbayes/ito/mcem.py:maximize_posterior, iterate_em, update_param; ctbayes/switching/mcem.py: same'), ('generator mode', 'ctbayes/switching/mcem.py:update_generator'), ('bounds', 'buffer_bounds in both'), ('covariance', 'est_se')],
     ['yielded iterates'], 'runtime monitoring: an online checker over the iterates (continuation, bounds, schedule, stopping rule; objective and its maximum re-evaluated on the particles handed out) and comparison with exact posterior modes',
     'The oracle mode is computed from exact transition densities.')

prop('C20', 'Adaptive random walk proposals are well formed and adapt as specified',
     'For every state, bounds and history of accept/reject outcomes, proposals are Gaussian random walk steps on the unconstrained scale around the current state (one-sided bounds are respected), and the reported log densities make the forward and backward weights those of a symmetric walk on that scale. Adaptation keeps the latest state, tracks running mean and covariance of the visited states on the unconstrained scale, moves the proposal scale up when more proposals were accepted than desired and down otherwise, and does so with diminishing steps at the scheduled times only. Regime-path proposals keep a random subset of the interior observation times as cut points and resample the jump path between them given the states there.',
     ['histories', 'inputs', 'configurations'], 'all states, bounds (none, lower, upper, both), outcome histories, adaptation schedules',
     'Only the normal moment update has a doctest (which failed); proposals and adaptation are untested.',
     ['ctbayes/misc/adapt.py'], [('random walk samplers', 'ctbayes/misc/adapt.py:MyopicRwSampler, MyopicMvRwSampler'), ('regime path proposals', 'ctbayes/misc/adapt.py:MyopicMjpSampler'), ('transforms', 'ctbayes/misc/adapt.py:transform_to_reals, transform_to_const')],
     ['proposals and sampler attributes over histories'], 'runtime monitoring: a reference model runs alongside every history; proposal draws tested for law',
     'Deterministic reference for transforms and adaptation; two-stage tests for proposal laws.')

prop('C21', 'Impossible work is refused, never answered',
     'Whenever a rejection or coin loop has used up the number of proposals the caller allowed, the library reports a budget error rather than returning a value; a loop that finds an acceptable proposal within the budget returns it. Evaluating a path representation beyond its horizon is refused. Inputs that contradict a documented precondition (non-positive horizon, times outside the horizon, extremes on the wrong side of the endpoints) are refused rather than answered.',
     ['fault_sequences', 'inputs'], 'all loops with a proposal budget, all budgets (0, 1, few), coins that never succeed, and invalid inputs of every documented kind',
     'No test exhausts a budget or passes an invalid input.',
     ['ctbayes/misc/bfactories.py', 'ctbayes/misc/exceptions.py', S + 'hitting.py', S + 'layers.py', S + 'paths.py', 'ctbayes/ea3lib/skeleton.py', 'ctbayes/ea3lib/seed.py', M + 'skeleton.py'],
     [('for/else budget guards', 'every loop over max_props'), ('assertions and ValueErrors', 'function heads')],
     ['raised errors'], 'runtime monitoring with fault injection: coins and potentials that never accept, exhausted budgets and invalid inputs, watched for the error and the number of proposals consumed',
     'Deterministic.')

prop('C22', 'Reference Gaussian and Bessel path samplers and transforms are exact',
     'For every set of times, endpoints and drift, the Wiener, Brownian bridge, Bessel and Bessel bridge samplers draw from their exact joint laws, and the reported means and covariances (also of Gaussian bridges) are the exact ones. Reversing, reflecting and pivoting paths are the stated affine maps and involutions, with times kept consistent. Seeded couplings of the bridge minimum and the Bessel bridge are deterministic in their seeds and have the exact law under random seeds.',
     ['inputs'], 'all time grids, endpoints, drifts, dimensions and reflection levels',
     'Doctests check one random input with a test at alpha=0.01, some of which compare a sample with itself.',
     [S + 'paths.py', S + 'moments.py', S + 'transforms.py'], [('samplers', S + 'paths.py:sample_wiener, sample_brownbr, sample_bessel, sample_besselbr'), ('moments', S + 'moments.py'), ('transforms', S + 'transforms.py')],
     ['values and draws'], 'runtime monitoring: recorded draws whitened under independent formulas; algebraic identities asserted on generated inputs',
     'Deterministic for moments and transforms; two-stage tests for draws.')

prop('C23', 'The switching sampler keeps observations, anchors and regimes consistent',
     'In every state the switching sampler hands out, for every data set and history, anchor times increase and start and end with the record, every observation is present at its exact time with its exact value, there is one latent path per interval between anchors, and the regime record changes exactly at the non-observation anchors. Augmenting data with a regime path keeps that path, interpolates the anchors with the exact law of the driving Brownian motion given the observations and regime volatilities, and dropping the observations recovers the path. Splitting a hidden state at observation times and pasting it gives back the same hidden state.',
     ['histories', 'inputs', 'configurations'], 'all data sets (2 or more observations, irregular times), regime paths, histories of updates and split points',
     'One smoke test; structure is never checked (observations could be lost after many updates).',
     ['ctbayes/switching/mcmc.py', 'ctbayes/switching/static.py', 'ctbayes/switching/types.py'], [('augmentation', 'sample_aug in ctbayes/switching/static.py'), ('split and paste', 'ctbayes/switching/mcmc.py:split_hidden, paste_hidden'), ('pruning', 'ctbayes/switching/types.py:prune_anchorage')],
     ['every state yielded', 'augmentations'], 'runtime monitoring: an online invariant checker on every yielded state of long chains and on generated split/paste histories',
     'Exact comparison of times and values; anchor law in two stages.')

prop('C24', 'Regime path proposals preserve the jump process law between cut points',
     'For every generator, horizon and set of cut times, replacing the pieces of a stationary jump path between cut points by the library\'s mutation leaves the law of the whole path invariant, keeps the states at the cut points, and gives pieces of unchanged lengths that connect. Pieces are redrawn independently of the old ones given the states at the cut points. Without cut points a fresh stationary path is drawn.',
     ['inputs', 'histories', 'configurations'], 'all generators, horizons, cut-time sets (0, 1, many) and repeated mutation',
     'The doctest checks the long-run occupancy of one mutated path with tolerance 1e-2.',
     [M + 'skeleton.py', 'ctbayes/misc/adapt.py'], [('mutation', M + 'skeleton.py:mutate_partition'), ('proposal', 'ctbayes/misc/adapt.py:MyopicMjpSampler.propose')],
     ['pieces and paths before and after mutation'], 'runtime monitoring: mutated paths tested against exact marginal and joint state laws; conditioning states checked exactly',
     'Exact checks for structure, two-stage tests for laws.')

prop('C25', 'Bridges between an attained minimum and edges have the exact conditional law',
     'Given the value the path may not go below (attained at an endpoint, or a strict lower barrier), an upper edge and, optionally, an inner edge that has to be exceeded, bridge values drawn at any times have exactly the law of the Brownian bridge conditioned on these facts, and lie strictly between the two edges. The record of which sectors between the drawn times exceed the inner edge has the exact conditional law given the drawn values. The drawn minimum and layer record of a fresh representation, for minimum and maximum ranges, have the exact conditional law.',
     ['inputs', 'configurations'], 'all horizons, endpoints, edges, inner edges and time sets (including an endpoint at the minimum, either side)',
     'Doctests compare with coarse discretised paths at one random input at alpha=0.01 and never look at the sector record.',
     [S + 'paths.py', S + 'layers.py', S + 'interpolators.py'], [('layered bridges', S + 'paths.py:sample_layerbr, propose_layerbr, propose_layerbr_edge'), ('edges', S + 'layers.py:sample_edges')],
     ['drawn values and sector records'], 'runtime monitoring: recorded values and records against densities built from theta-function strip kernels',
     'Numerical integration of exact kernels is the oracle; two-stage tests.')

NOT_BUILT = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick ./run {i}', thorough_cmd=f'VERIF_TIER=thorough ./run {i}',
                               evidence_file=f'evidence/{i}.json', technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=i, reason=NOT_BUILT.get(i, 'Its check is not built yet.')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./run --selftest', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
