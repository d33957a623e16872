"""Single source of truth: writes properties.jsonl and MANIFEST.json.

usage: python3 tools/spec.py      (run in /verif)
A property is claimed when symx/props/<ID>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files,
                    'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                    'observe_at': observe, 'hook_needed': False}})


B, O, K, M, L = ('radvel/basis.py', 'radvel/orbit.py', 'radvel/kepler.py',
                 'radvel/model.py', 'radvel/likelihood.py')

P('C01', 'Orbital parameterisations are exact, invertible re-descriptions',
  '''Converting planet parameters from any supported parameterisation to any other gives the values its
  names define (ln P, ln K, sqrt(e)cos w, e sin w, sqrt(e), time of conjunction or periastron of the same
  orbit), and converting back returns the original period, reference time, eccentricity and amplitude and the
  same argument of periastron modulo 2 pi. This holds for every planet of a multi-planet set, for parameter
  sets and for tables of posterior samples, whenever P > 0, K > 0 and 0 < e < 1.''',
  ['inputs', 'configurations'],
  'all real P, t0, e, w, K in the stated domain; all ordered pairs of the 10 parameterisations; parameter sets and sample tables',
  'tests convert a few fixed orbits; an error in one formula of one parameterisation, or only for another planet or quadrant of w, is invisible to them',
  [B, O], [('conversion to and from the synthesis parameterisation', 'radvel/basis.py:Basis.to_synth, Basis.from_synth, Basis.to_any_basis')],
  ['values of the converted parameter set or table'])

P('C02', 'Changing parameterisation leaves everything else alone',
  '''Converting a parameter set to another parameterisation never modifies the set or table it was given,
  keeps every parameter that is not an orbital element (offsets, jitters, trends, extra ones) with its value,
  vary flag, step size and linear flag, and yields exactly the orbital elements of the target parameterisation when the old ones are not
  kept. An orbital element present under the same name in both parameterisations keeps its vary flag and step size.''',
  ['inputs', 'configurations', 'histories'],
  'all parameter values, all ordered pairs of parameterisations, chains of conversions, 1-2 planets, parameter sets and tables',
  'tests look at the returned values only; aliasing of the source and lost or leftover entries show up later, in another computation',
  [B, M], [('copying of parameter sets', 'radvel/basis.py:_copy_params'), ('conversion', 'radvel/basis.py:Basis.to_synth/from_synth/to_any_basis')],
  ['source set before and after', 'keys and flags of the result'])

P('C03', 'The fast vector conversion agrees with the reference conversion',
  '''Converting the flat parameter vector between parameterisations gives, slot by slot, the same orbital
  values as converting the parameter set itself, leaves the input vector and all trend and instrument slots
  unchanged, and clears (on the way to the synthesis form) or sets (on the way out) the vary flag of exactly the slots it recomputed. Consequently the predicted velocities at any time do not
  depend on which parameterisation (other than the print-only one) describes an orbit.''',
  ['inputs', 'configurations'],
  'all real orbital values with P > 0, K > 0, 0 < e < 1, all parameterisations except the print-only one, 1-3 planets, any extra parameters',
  'the two hand-written code paths (dictionary and vector) are compared by tests at single points of a few parameterisations',
  [B, M], [('vector conversion', 'radvel/basis.py:Basis.v_to_synth, v_from_synth, v_to_any_basis')],
  ['returned vectors', 'model velocities'])

P('C04', 'Transit, periastron, eclipse times and true anomaly are the same orbit',
  '''At the time of conjunction computed from a periastron time the true anomaly plus w is pi/2, at the secondary-eclipse time it is 3 pi/2 and
  that eclipse lies within one period after periastron, and the true anomaly returned for any time solves Kepler's
  equation for that time. Transit-to-periastron inverts periastron-to-transit, and for e >= 1 the given time is
  returned unchanged; arrays behave as their elements do.''',
  ['inputs'], 'all P > 0, 0 <= e < 1 (and e >= 1 for the fallback), all w in [-2 pi, 2 pi], all reference times, scalars and arrays',
  'tests check a few orbits; branch errors in the half-angle formula appear only for some quadrants of w and some e',
  [O], [('time conversions', 'radvel/orbit.py:timetrans_to_timeperi, timeperi_to_timetrans, true_anomaly')],
  ['returned times and anomalies'])

P('C05', 'The velocity curve of one planet is the Keplerian curve',
  '''For any observation times and orbital elements the computed velocity of one planet is
  K (cos(nu + w) + e cos w) with nu the true anomaly obtained from Kepler's equation, for the compiled and the pure Python solver
  alike and for circular orbits. It is periodic in P and in w, linear in K, and out-of-range elements are treated as the nearest legal ones
  (e < 0 as 0, e > 0.99 as 0.99, P < 0 as 1e-4).''',
  ['inputs', 'configurations'], 'all times, P != 0, tp, e, w, K; both solvers',
  'tests compare the two solvers at sampled points with a tolerance; agreement with the defining formula for every input is not established',
  [K, O, 'src/kepler.c', 'src/_kepler.pyx'],
  [('velocity curve', 'radvel/kepler.py:rv_drive, src/kepler.c:rv_drive, src/_kepler.pyx:rv_drive_array'), ('true anomaly', 'radvel/orbit.py:true_anomaly')],
  ['velocities returned'])

P('C06', "Kepler's equation is solved to the stated tolerance",
  '''Whenever the Kepler solver (compiled or pure Python) returns, the eccentric anomaly E it returns satisfies |E - e sin E - M| <= 1e-12 for
  every element of the input, whatever the other elements are, and an element that is already converged is returned without further change. The inputs are not modified.''',
  ['inputs'], 'all mean anomalies M and eccentricities 0 <= e < 1, arrays of several elements with different convergence histories',
  'tests solve a grid of values; the per-element convergence bookkeeping (which elements are iterated, with whose M and e) is only right if it holds for all mixtures',
  [K, 'src/kepler.c'], [('iterative solver', 'radvel/kepler.py:kepler, src/kepler.c:kepler')], ['returned eccentric anomalies'])

P('C07', 'The model is the sum of its planets plus the trend',
  '''The model velocity at time t is the sum over planets of the single-planet curves computed from each
  planet's own elements, plus dvdt (t - t0) + curv (t - t0)^2 with t0 the model's time base; selecting one planet
  gives that planet's curve (plus trend) only. Evaluating the model never changes the parameters, the vector or the times it was given.''',
  ['inputs', 'configurations'], 'all parameter values, times and time bases, 1-3 planets, all parameterisations except the print-only one, any planet selected',
  'tests evaluate fixed systems; swapped indices between planets or a trend taken about the wrong epoch pass them',
  [M], [('model evaluation', 'radvel/model.py:GeneralRVModel.__call__, _standard_rv_calc')], ['model velocities', 'vector and parameter values afterwards'])

P('C08', 'Every parameter has its own slot and a correct name',
  '''In the flat parameter vector every fitted parameter (elements of each planet, trends, offsets, jitters, GP and decorrelation
  coefficients, user-defined ones) occupies its own slot, the list of slot names names each slot correctly, and
  values, vary flags, step sizes and linear flags copied into the vector and values copied back are the parameter's own. This holds for any
  number of planets and instruments and any order in which parameters were declared.''',
  ['configurations', 'inputs', 'histories'], 'all values and flags; 1-3 planets, several instruments, GP and decorrelation parameters, user-defined parameters, trends declared or not, in every declaration order tried',
  'layout arithmetic is exercised by tests for the bundled configurations only; a collision silently fits the wrong parameter',
  [M, L], [('vector layout', 'radvel/model.py:Vector'), ('slots of likelihood parameters', 'radvel/likelihood.py:Likelihood.__init__')],
  ['vector, index table and names', 'parameters after syncing back'])

P('C09', 'Only free parameters move, and each gets its own number',
  '''Setting the free parameters from an array assigns the i-th number to the i-th free parameter in the
  published order, leaves every fixed parameter exactly as it was, and reading them back returns the same numbers under the same names.
  An array whose length differs from the number of free parameters is rejected; changing which parameters are free
  takes effect when the free-parameter list is rebuilt or when the array length shows it.''',
  ['inputs', 'configurations', 'histories'], 'all values, every subset of free parameters of the configurations, one- and two-planet models, sequences of set / flag change / set',
  'tests use one fixed pattern of free parameters',
  [L, M], [('free-parameter access', 'radvel/likelihood.py:set_vary_params, get_vary_params, list_vary_params, name_vary_params')],
  ['vector and parameters after setting', 'values and names read back'])

P('C10', 'The log-likelihood of a data set is the documented Gaussian one',
  '''For every data set and parameter values the log-likelihood is
  -sum[ r_i^2 / (2 s_i^2) + ln sqrt(2 pi s_i^2) ] with s_i^2 = sigma_i^2 + jitter^2 and r_i the datum minus offset, model and, for each decorrelation
  variable, its coefficient times the mean-subtracted variable. Residuals and error bars are these r_i and s_i, and evaluating it is repeatable.''',
  ['inputs', 'configurations'], 'all data, errors > 0, jitters, offsets, coefficients; 1-3 points; 0-2 decorrelation variables with any names; 1-2 instruments sharing a model',
  'tests evaluate fixed data sets and mostly check that fits converge',
  [L], [('likelihood', 'radvel/likelihood.py:RVLikelihood.residuals/errorbars/logprob, loglike_jitter')], ['log-likelihood, residuals, error bars'])

P('C11', 'Analytic offset marginalisation is exact',
  '''When an instrument offset is declared linear and not free, the reported log-likelihood equals the logarithm of the
  integral over that offset (flat prior) of the ordinary likelihood, and the offset used for residuals is the weighted-mean optimum. When the offset is free or not
  declared linear, neither the offset nor the likelihood is altered.''',
  ['inputs', 'configurations'], 'all data, errors, jitters, models, 1-4 points, with and without decorrelation, all four flag combinations',
  'a test compares two fits numerically on one data set',
  [L], [('marginalisation', 'radvel/likelihood.py:RVLikelihood.residuals, logprob')], ['log-likelihood, residuals, offset value'])

P('C12', 'Combined data sets and information criteria',
  '''The log-likelihood of several instruments combined is the sum of theirs, and data, residuals, error bars and
  instrument labels are those of the instruments one after another in order. BIC is k ln n - 2 lnL and AICc is 2k - 2 lnL + 2k(k+1)/(n-k-1)
  (infinite when n <= k+1), with n the total number of data and k the number of free parameters; the criteria reported for a posterior are those of its likelihood.''',
  ['inputs', 'configurations'], 'all data and parameter values, 2-3 instruments with different numbers of points, all counts n, k in the bounds, with and without offsets marginalised',
  'tests look at a single combination',
  [L, 'radvel/posterior.py'], [('composite', 'radvel/likelihood.py:CompositeLikelihood, Likelihood.bic, Likelihood.aic')], ['log-likelihood, residuals, criteria'])

P('C13', 'The posterior is likelihood plus priors',
  '''The log-posterior is the sum of the log-priors evaluated at the current parameters plus the
  log-likelihood; if the priors sum to minus infinity the result is minus infinity whatever the likelihood, and every prior and the likelihood see the same, newly set parameter values when an array is given.
  The negative log-posterior handed to optimisers is its exact negation.''',
  ['inputs', 'configurations'], 'all parameter arrays, 0-3 priors of any kind, finite and infinite prior values, arbitrary likelihoods',
  'tests evaluate a handful of points',
  ['radvel/posterior.py', L], [('posterior', 'radvel/posterior.py:Posterior.logprob, logprob_array')], ['log-posterior values'])

P('C14', 'Priors have the documented densities and supports',
  '''Each one-parameter prior returns its documented log-density (normal, uniform, 1/x, 1/(x - knee), informative-baseline) of its own parameter and minus infinity exactly outside its
  documented support, for every parameter value and every legal setting. Priors of several parameters see the values of theirs in the listed order.''',
  ['inputs', 'configurations'], 'all parameter values, bounds, means, widths, knees, baselines; any parameter of the model',
  'tests compare a few values',
  ['radvel/prior.py'], [('priors', 'radvel/prior.py:Gaussian, HardBounds, Jeffreys, ModifiedJeffreys, InformativeBaselinePrior, UserDefinedPrior')], ['prior values'])

P('C15', 'Prior transforms are the inverse cumulative distributions',
  '''The transform of every analytic prior maps the unit interval monotonically onto the prior's support, with the ends mapping to the
  bounds, and the prior probability below the returned value equals the unit coordinate; that of a sampled one-parameter prior is monotone within the samples. Priors without
  a proper transform refuse instead of returning a number.''',
  ['inputs', 'configurations'], 'all u in (0,1), all bounds, means, widths, knees',
  'tests compare a few quantiles',
  ['radvel/prior.py'], [('transforms', 'radvel/prior.py:*.transform')], ['transformed values'])

P('C16', 'Physical priors mean the same in every parameterisation',
  '''The eccentricity prior rejects exactly the orbits whose eccentricity is negative or above that planet's limit, the positive-amplitude
  prior exactly those with K < 0, whichever parameterisation is fitted and whichever planets are listed. The secondary-eclipse prior is the normal density of the phase difference (taken to the nearest cycle)
  between predicted and measured eclipse, with the timing error in units of the period as its width, and none of them modifies the parameters.''',
  ['inputs', 'configurations'], 'all orbital values, all fitting parameterisations, 1-3 planets, all limits, lists of planets',
  'tests use one parameterisation and one planet',
  ['radvel/prior.py', O, 'radvel/utils.py'], [('physical priors', 'radvel/prior.py:EccentricityPrior, PositiveKPrior, SecondaryEclipsePrior')], ['prior values'])

P('C17', 'Nested sampling sees the same posterior',
  '''The unit-cube transform gives each free parameter the transform of its own prior, in the published order, and the nested-sampling likelihood is the log-likelihood plus
  the constraint priors, always a finite floor instead of minus infinity when a constraint is violated. Transform density plus nested-sampling likelihood therefore equals the
  log-posterior wherever it is finite, and configurations without exactly one proper prior per free parameter are refused.''',
  ['inputs', 'configurations'], 'all unit-cube points and parameter values; every order of priors and free parameters in the bounds; missing, duplicate and constraint-only priors',
  'tests run a sampler on one problem',
  ['radvel/posterior.py'], [('nested-sampling interface', 'radvel/posterior.py:prior_transform, likelihood_ns_array, extra_likelihood, check_proper_priors')], ['transformed cubes, likelihood values, refusals'])

P('C18', 'GP kernels compute their documented covariance',
  '''For all time pairs and hyperparameters each kernel's covariance entry is its documented formula of the two times (squared-exponential, periodic,
  quasi-periodic), the covariance of a time series with itself is symmetric, and measurement errors are added in quadrature on the diagonal only when the covariance is square.
  The periodic terms are
  exp(-sin^2(pi |dt| / P) / (2 w^2)) with P the period hyperparameter. The quasi-periodic kernel refuses hyperparameters that are negative or not finite with a ValueError, and a
  hyperparameter of zero switches it off, leaving the measurement errors only.''',
  ['inputs', 'configurations'], 'all times, hyperparameters, errors; 1-3 points against 1-3 points',
  'tests build the bundled examples only',
  ['radvel/gp.py'], [('kernels', 'radvel/gp.py:SqExpKernel, PerKernel, QuasiPerKernel')], ['covariance matrices'])

P('C19', 'GP likelihood and prediction are the exact Gaussian conditionals',
  '''The GP log-likelihood is -1/2 r^T C^-1 r - 1/2 ln det C - (n/2) ln 2 pi with C the kernel covariance plus jittered errors at the current
  hyperparameters and r data minus offset and model; predictions are the Gaussian conditional mean and standard deviation, and predicting does not
  change the likelihood. Each instrument uses its own hyperparameters.''',
  ['inputs', 'configurations', 'histories'], 'all data and hyperparameters, 1-3 points, 1-2 prediction times, sequences of likelihood and prediction calls',
  'tests check that fits run',
  ['radvel/gp.py', L], [('GP likelihood', 'radvel/likelihood.py:GPLikelihood')], ['log-likelihood, predictions'])

P('C20', 'The fast GP solver is given the documented kernel and ordered data',
  '''The fast quasi-periodic likelihood hands its solver the documented kernel terms at the current hyperparameters, the data in time order with their own
  errors and jitter, and combines the solver's results into the same Gaussian log-likelihood and its predictive mean and deviation. Data and prediction times given in any order
  yield the same values; a covariance that cannot be factorised yields minus infinity.''',
  ['inputs', 'configurations'], 'all data and hyperparameters, 2-3 points in every order',
  'tests use time-ordered data',
  ['radvel/gp.py', L], [('celerite likelihood', 'radvel/gp.py:CeleriteKernel, radvel/likelihood.py:CeleriteLikelihood')], ['log-likelihood, prediction'])

P('C21', 'Samples are never mixed up between steps, walkers and parameters',
  '''The table of MCMC samples returned has one row per kept step and walker and one column per free parameter, each number being that walker's value of that parameter
  at that step with its own log-probability on the same row, and it contains every step after the last discarded one and no other. Saving and resuming a run keeps
  earlier steps in front of later ones.''',
  ['inputs', 'configurations', 'histories'], 'arbitrary sampler histories (numbers of ensembles, walkers, steps, free parameters in the bounds), saved or not, resumed or not',
  'tests run real samplers, whose output cannot be predicted and is only checked for shape',
  ['radvel/mcmc.py'], [('chain assembly', 'radvel/mcmc.py:mcmc, convergence_check')], ['returned table, saved file'])

P('C22', 'Convergence is declared exactly when the published criteria are met',
  '''Chains are reported converged only if every parameter's Gelman-Rubin statistic, number of independent draws and autocorrelation criteria meet the
  configured thresholds for the required number of consecutive checks, and the statistics are the documented functions of the
  chains. A single parameter that fails, in any position, prevents convergence.''',
  ['inputs', 'configurations', 'histories'], 'all chains within the bounds (2-3 ensembles, 2-4 steps, 1-2 parameters), all thresholds, all histories of checks',
  'tests run samplers until they stop',
  ['radvel/mcmc.py'], [('convergence', 'radvel/mcmc.py:convergence_check, convergence_calculate')], ['statistics and the converged flag'])

P('C23', 'A maximum-likelihood fit leaves the model at the reported optimum',
  '''After fitting, the posterior's free parameters are those the optimiser reported as best, fixed parameters are untouched, parameter set and vector agree, and the
  log-probability of the returned posterior is the optimum the optimiser found, whatever points it evaluated on the way. The objective is the
  negative log-posterior of the array it is given.''',
  ['inputs', 'histories', 'configurations'], 'all optimiser histories (sequences of evaluated points and the point reported best) within the bounds',
  'tests fit real data with one optimiser and compare loosely',
  ['radvel/fitting.py', L], [('fit', 'radvel/fitting.py:maxlike_fitting')], ['posterior after the fit'])

P('C24', 'Model comparison enumerates and labels every requested variant',
  '''Comparing models over a set of components yields exactly one entry per combination of including or excluding each, every entry fits a model whose
  free parameters are exactly those of that combination and reports that fit's own statistics, and the posterior given is left as it was. Separate comparisons do not
  leak entries into each other.''',
  ['configurations', 'histories'], 'all sub-lists of components, 1-2 planets, all outcomes of the fits, repeated calls',
  'tests run one comparison',
  ['radvel/fitting.py', 'radvel/driver.py'], [('comparison', 'radvel/fitting.py:model_comp')], ['returned list, posterior afterwards'])

P('C25', 'Binning conserves the weighted data',
  '''Time binning puts every measurement into exactly one bin of at most the given width, in time order, and each bin's time, value and error are the
  inverse-variance weighted mean and the standard error of its members. Binning by instrument never combines different instruments and labels every bin with its own instrument. The quick binning of
  folded plots gives, for every bin of three points or more, its middle, mean and the standard error of the mean.''',
  ['inputs', 'configurations'], 'all times, values, errors > 0, bin sizes > 0 of up to 3-4 points in any order, 1-2 instruments in any interleaving',
  'tests bin one data set',
  ['radvel/utils.py'], [('binning', 'radvel/utils.py:timebin, bintels, fastbin')], ['binned arrays'])

P('C26', 'Phase folding is consistent',
  '''The orbital phase of a time lies in [0, 1), is zero at the reference time, does not change when whole periods are added and grows by dt/P
  within a cycle; the doubled form appends the same phases plus one. A parameter set is folded on its time of conjunction if it has one and
  otherwise on periastron, a parameter vector on periastron; for the same reference time both give the same phases, in any parameterisation.''',
  ['inputs', 'configurations'], 'all times, periods > 0, reference times, planets; all parameterisations',
  'tests do not check the values',
  ['radvel/utils.py'], [('phase', 'radvel/utils.py:t_to_phase, t_to_phase_vector')], ['phases'])

P('C27', 'Physical conversions obey Kepler and Newton',
  '''Minimum mass and semi-amplitude are inverse functions of each other in either mass unit, semi-major axis obeys Kepler's third law, and density is mass over volume, for
  all positive inputs and for arrays element by element. A planet above a tenth of its star's mass is not treated as negligible: the minimum mass (of all members, when one of
  an array is) then solves the full mass-function equation.''',
  ['inputs', 'configurations'], 'all positive masses, periods, amplitudes, radii and 0 <= e < 1; both units; scalars and arrays',
  'tests check a handful of known planets to a few digits',
  ['radvel/utils.py'], [('physics', 'radvel/utils.py:Msini, semi_amplitude, semi_major_axis, density')], ['returned quantities'])

P('C28', 'Summaries report the right quantiles, rounding and dates',
  '''The reported median and error bars of a sample are its median and its distances to the 15.9 and 84.1 percent order statistics (for angles, given in radians, after moving values by whole turns: when the most populated fiftieth of the range
  lies beyond +90 degrees the negative values go up a turn, when it lies at or below -90 degrees the positive ones go down a turn),
  without modifying the sample. Rounding to significant figures changes a number by less than one unit of its last kept digit, a value is rounded to the
  last kept digit of its errors, and calendar and Julian dates convert back and forth to the same instant.''',
  ['inputs'], 'all samples of up to 4-5 values, all angles, all numbers and digit counts in the bounds, all dates',
  'tests check one sample',
  ['radvel/utils.py'], [('summaries', 'radvel/utils.py:geterr, round_sig, sigfig, date2jd, jd2date')], ['returned summaries', 'input sample afterwards'])

P('C29', 'A setup file is turned into the posterior it describes',
  '''Building a posterior from a setup uses every measurement of every listed instrument exactly once, with its own errors and decorrelation columns, in the likelihood of its
  own instrument with that instrument's offset and jitter, whatever the row order or row labels of the data table. Parameter values, vary flags, priors, time base, and
  log-jitter conversion are those of the setup.''',
  ['inputs', 'configurations'], 'all measurement values, all assignments of up to 4 rows to 1-3 instruments, arbitrary row labels, with and without decorrelation',
  'tests load the bundled examples',
  ['radvel/utils.py', L], [('setup', 'radvel/utils.py:initialize_posterior')], ['posterior contents'])

P('C30', 'Saved posteriors and run state come back the same',
  '''Saving and loading a posterior, or copying it, returns one with the same parameters, flags, data, priors and log-probability, with parameters shared between its parts exactly
  as before so that later changes take effect everywhere. Run-status entries written by one step are read back by later steps unchanged, and other entries survive.''',
  ['inputs', 'histories', 'configurations'], 'all parameter values and flags, 1-2 planets, 1-2 instruments; sequences of saves and status updates',
  'tests save and load without comparing',
  ['radvel/posterior.py', M, 'radvel/driver.py'], [('persistence', 'radvel/posterior.py:writeto, load; radvel/model.py:Parameters.__reduce__'), ('run status', 'radvel/driver.py:save_status, load_status')], ['loaded objects'])

P('C31', 'Every nested sampler is run on the same problem and read back alike',
  '''Whichever nested sampler is chosen it receives the posterior's transform, likelihood, dimension and the user's own options, and its result is returned as samples with one named column
  per free parameter, with the log-posterior of each sample, and the evidence and its error as the sampler reports them. The option dictionaries the user passed are not modified.''',
  ['configurations', 'inputs'], 'all supported samplers available offline with stand-in engines returning arbitrary samples, weights and evidences',
  'tests run the real samplers on tiny problems',
  ['radvel/nested_sampling.py'], [('runners', 'radvel/nested_sampling.py')], ['arguments given to the sampler, returned dictionary'])

P('C32', 'Model curves drawn from a chain are those of the drawn samples',
  '''Each model curve drawn from a posterior chain is the model evaluated at one row of that chain, all free parameters taken from that same row and fixed parameters
  unchanged.''',
  ['inputs', 'configurations'], 'all chains of up to 3 rows, any subset of free parameters, any draws',
  'tests do not check the curves',
  ['radvel/utils.py', M], [('draws', 'radvel/utils.py:draw_models_from_chain, radvel/model.py:array_to_params')], ['returned curves'])

P('C33', 'Derived physical quantities belong to their own planet and sample',
  '''Deriving physical parameters gives, for every row of the chain and every planet, minimum mass, mass ratio, semi-major axis and (with a planet radius) density computed from that
  row's own period, amplitude and eccentricity (fixed elements at the posterior's values, in whatever parameterisation the fit used) and that row's drawn stellar mass in absolute value.
  The stored table, its quantiles and the saved posterior hold those columns; the posterior's own values, flags and summaries and the records of other steps are unchanged. Without a
  stellar mass nothing is derived.''',
  ['inputs', 'configurations'], 'all chains of up to 2 rows, 1-2 planets, several bases, free or fixed elements, any positive stellar mass draw',
  'tests run the driver and only check that it finishes',
  ['radvel/driver.py', 'radvel/utils.py', 'radvel/orbit.py'], [('derive', 'radvel/driver.py:derive'), ('mass, axis and density', 'radvel/utils.py:Msini, semi_major_axis, density')], ['the derived-parameter table, its quantiles and the saved posterior'])

P('C34', 'Summaries and report tables state each parameter\'s own results',
  '''After sampling, the final fit starts from the medians of the chain, and each parameter's reported median, errors and best value are those of its own chain column and of that fit. Every
  row of the report's parameter tables carries the label, unit, median, errors and best value of its own parameter, with one row each for the fitting, orbital and other parameters. The
  velocity table lists each measurement with its own time, value, error and instrument; the comparison table is in AICc order with each model's own numbers, differences to the best and
  category; the derived table shows the derived columns (Jupiter masses above 100 Earth masses); priors and fit criteria appear with their own numbers.''',
  ['inputs', 'configurations'], 'all values of chains, fits, data and comparison results; 1-2 planets, several bases, instrument names that are prefixes of one another',
  'tests compile a report from one example without reading its numbers',
  ['radvel/driver.py', 'radvel/report.py', 'radvel/utils.py'], [('post-processing', 'radvel/driver.py:sampling_postprocessing'), ('tables', 'radvel/report.py:TexTable')], ['posterior summaries and the text of the tables'])

P('C35', 'Each step of the pipeline uses the stored results of its own setup',
  '''Every step of the pipeline uses the results its own setup stored before: plots and comparisons need a finished fit and use its posterior; derived quantities, tables, reports and
  sample plots use the chain and posterior of the chosen sampler (automatically: MCMC first) and refuse when it has not finished. The user's options reach the fit, the samplers and the
  comparison unchanged. Each step records where it stored its results in the output directory and leaves the records of other steps and the results of other setups alone. Comparisons fix
  the jitters only on demand and list each set of free parameters once when models are not mixed.''',
  ['histories', 'configurations', 'inputs'], 'all option values; every step after each admissible or missing prior step, MCMC and nested samplers, two setups in one directory',
  'tests run the steps in one order on the examples',
  ['radvel/driver.py', 'radvel/cli.py'], [('steps', 'radvel/driver.py:fit, mcmc, ns, ic_compare, tables, report, derive, plots'), ('status', 'radvel/driver.py:load_status, save_status')], ['calls of the underlying steps with their arguments, the status file, stored files'])

P('C36', 'Figures show the data and the model they claim to show',
  '''Every panel shows each instrument's measurements once, labelled, with its jitter in the error bars: velocities less the instrument's offset, residuals less the whole model and
  noise process, folded panels at the phase of the measurement with only that planet's signal left. Model curves are the fitted model at the plotted times and cover the measurements;
  process bands are mean plus and minus one deviation of that instrument's process. Annotations, legends and labels state the planet's own values, uncertainties and units. Drawing again gives
  the same figure, and drawing leaves the posterior alone. Corner and trend plots show exactly the chain's free parameters (or its derived quantities, in the units stated), trends one line per walker.''',
  ['inputs', 'configurations', 'histories'], 'all data, parameters and summaries; 0-2 planets, 1-2 instruments with and without a noise process; all panel options; two drawings',
  'tests only draw figures and never look at them',
  ['radvel/plot/orbit_plots.py', 'radvel/plot/mcmc_plots.py', 'radvel/plot/__init__.py'],
  [('panels', 'radvel/plot/orbit_plots.py:MultipanelPlot, GPMultipanelPlot'), ('samples', 'radvel/plot/mcmc_plots.py:CornerPlot, DerivedPlot, TrendPlot, AutoPlot'), ('points', 'radvel/plot/__init__.py:mtelplot, telplot')],
  ['points, curves, bands and text handed to Matplotlib'])

P('C37', 'The command line runs the step asked for with the options typed',
  '''Each subcommand runs its own step once, with every option as typed (in any order) and every other option at its documented default, on the setup file named; nothing typed for one command affects
  the next. Sampler, comparison, plot, table and report options select what they say; contradictory flags follow the last one. True/False options mean what they say. The output directory is the one
  named, otherwise ./<setup name>; it is created when missing and what is in it is kept. Malformed lines (unknown command, option or choice, unreadable or missing number) are refused with an error status
  before anything runs or is written; help and version are answered without running anything, and defaults stated in the help are the real ones.''',
  ['inputs', 'configurations', 'histories'], 'all option values; every pair of MCMC options and all at once; all combinations of flags and choices of each subcommand; two commands in a row',
  'tests call the driver functions with hand-made argument objects and never parse a command line',
  ['radvel/cli.py', 'radvel/driver.py'], [('parser', 'radvel/cli.py:main'), ('steps', 'radvel/driver.py')], ['calls of the samplers, comparison, plots, tables and report with their arguments; files in the working directory; exit status'])

P('C38', 'Printed summaries state the fit as it is',
  '''Printing a likelihood or posterior lists every parameter once with its current value, its own uncertainty when uncertainties are stored (0 for those without one) and whether it varies, followed by the
  orbital elements that the parameterisation implies with their converted values; times above 10^6 are shown relative to the model's time base. Values, uncertainties and flags stay readable apart whatever
  their size. A posterior then lists each of its priors, in order, with the parameter it applies to and its own numbers; the TeX form of a prior says the same. A printed parameter shows its value, flag and
  scale. Printing changes nothing.''',
  ['inputs', 'configurations'], 'all values and uncertainties; every fitting parameterisation, 1-2 planets, 1-2 instruments, every prior class, times below and above 10^6',
  'tests print one fit and do not read the text',
  ['radvel/likelihood.py', 'radvel/posterior.py', 'radvel/prior.py', 'radvel/model.py'],
  [('summary', 'radvel/likelihood.py:Likelihood.__repr__'), ('priors', 'radvel/posterior.py:Posterior.__repr__'), ('TeX', 'radvel/prior.py:__str__, __repr__'), ('parameter', 'radvel/model.py:Parameter.__repr__')],
  ['the printed text'])

P('C39', 'The report is assembled from the tables and figures of its own run',
  '''Making a report writes <setup>_results.tex and, when the LaTeX compiler asked for produces one, <setup>_results.pdf made from it into the output directory, and nothing else. The document is complete, names
  the star and holds each table of the run once (derived and comparison tables only when there are such results) and once each figure of the report that was plotted for this setup, none of another setup;
  plots are optional. The compiler runs in a private directory that holds the document and the figures and is removed afterwards; the working directory and all other files are as before, also when the
  compiler fails or is missing.''',
  ['configurations', 'histories'], 'any of the figures plotted before, comparison and derived results present or not, a compiler that works, fails or does not exist, another setup in the same directory',
  'tests make one report and do not open it',
  ['radvel/report.py', 'radvel/driver.py'], [('document', 'radvel/report.py:RadvelReport.texdoc'), ('compilation', 'radvel/report.py:RadvelReport.compile'), ('figures and name', 'radvel/driver.py:report')],
  ['files in the output, working and temporary directories; what the compiler finds'])

NOT_APPLICABLE = {
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    notes_path = os.path.join(HERE, 'tools', 'levels.json')
    levels = {}
    if os.path.exists(notes_path):
        levels = json.load(open(notes_path))
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in NOT_APPLICABLE:
            na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
        elif os.path.exists(os.path.join(HERE, 'symx', 'props', i + '.py')):
            checks.append({
                'property': i, 'quick_cmd': './check %s quick' % i,
                'thorough_cmd': './check %s thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'symbolic execution of the real code + SMT (z3) with concrete replay',
                'level': 'other',
                'level_note': levels.get(i, 'bounded solver-based check: every value within the stated bounds, real-number arithmetic; see the coverage explanation in the evidence file')})
        else:
            na.append({'property': i, 'reason': 'not built yet'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
         'not_applicable': na,
         'notes': 'Checks import radvel from /repo and run its functions on symbolic values (symx/); z3 decides every obligation; counterexamples and path witnesses are replayed on the unmodified code with floats.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(checks), 'claimed;', len(na), 'not')


if __name__ == '__main__':
    main()
